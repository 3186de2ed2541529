#!/usr/bin/env python3
"""
check.py <PROPERTY> [--tier quick|thorough]     decide one property on /repo's working tree
check.py --replay <file>                        re-run a reported counterexample on the real code

exit 0  the solver discharged every obligation on every path within the stated bounds
exit 1  VIOLATION: a counterexample which was replayed on the un-instrumented code and failed there
exit 2  no answer (encoding gap, budget exhausted, vacuous harness, counterexample did not replay)
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"

if __name__ == "__main__" and (os.environ.get("SYMX_CHILD") != "1"):
    env = dict(os.environ, SYMX_CHILD="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    env.pop("PYTHONPATH", None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)

import argparse
import json
import queue
import re
import shutil
import signal
import subprocess
import tempfile
import threading
import time

sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

T0 = time.monotonic()
DEADLINE = {"quick": 780, "thorough": 6 * 3600}


def find_module(prop):
    d = os.path.join(HERE, "harness")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py":
            with open(os.path.join(d, f)) as fh:
                if re.search(r'@harness\(\s*"%s"' % re.escape(prop), fh.read()):
                    return "harness." + f[:-3]
    raise SystemExit("no harness for property %s" % prop)


def known_findings(prop):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as fh:
            for line in fh:
                m = re.match(r"finding: property=(\S+) id=(\S+) (.*)$", line.strip())
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3)
    return out


class Worker:
    def __init__(self, mod, tier, env):
        self.p = subprocess.Popen([sys.executable, "-B", "-m", "symx.worker", mod, tier], cwd=HERE, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  text=True, start_new_session=True)

    def boot(self):
        line = self.p.stdout.readline()
        if not line:
            return "worker died while starting (exit %s)" % self.p.wait()
        return json.loads(line).get("boot_error")

    def run(self, job):
        try:
            self.p.stdin.write(json.dumps(job) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (OSError, ValueError):
            line = ""
        if not line:
            return None
        return json.loads(line)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.p.wait(5)
        except Exception:
            pass


def list_jobs(mod, prop, tier, env):
    """ask a plain python (no instrumentation) for the harness declarations"""
    code = (
        "import sys,json\n"
        "sys.path.insert(0,%r)\n"
        "import symx.native as N, os\n"
        "o=os.dup(1)\n"
        "os.dup2(os.open(os.devnull,os.O_WRONLY),1)\n"
        "N.bootstrap(%r)\n"
        "from symx import env as E\n"
        "r=[dict(name=h.name,cases=h.caselist(%r),bounds=h.bounds,reach=h.reach,assumes=h.assumes,"
        "budget=h.quick if %r=='quick' else h.thorough) for h in E.REGISTRY[%r]]\n"
        "os.write(o,json.dumps(r).encode())\n" % (HERE, mod, tier, tier, prop))
    p = subprocess.run([sys.executable, "-B", "-c", code], cwd=HERE, env=env, capture_output=True, text=True, timeout=300)
    if p.returncode != 0:
        raise RuntimeError(p.stderr[-3000:])
    return json.loads(p.stdout)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--harness")
    ap.add_argument("-j", type=int, default=0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = tempfile.mkdtemp(prefix="symxrun")
    env = dict(os.environ, TMPDIR=scratch, LOGGING_LEVEL="100", HOME=scratch)
    workers = []
    try:
        return run(prop, tier, seed, env, workers, a)
    finally:
        for w in workers:
            w.kill()
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop, tier, seed, env, workers, a):
    mod = find_module(prop)
    known = known_findings(prop)
    errors = []
    harnesses = []
    try:
        harnesses = list_jobs(mod, prop, tier, env)
    except Exception as e:
        errors.append("could not load harness: %s" % e)
    if a.harness:
        harnesses = [h for h in harnesses if h["name"] in a.harness.split(",")]
    jobs = [(h, c) for h in harnesses for c in h["cases"]]
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    results = []
    lock = threading.Lock()
    stop = threading.Event()
    end = T0 + DEADLINE[tier]

    def loop():
        w = None
        while not stop.is_set():
            try:
                h, c = q.get_nowait()
            except queue.Empty:
                break
            if w is None:
                w = Worker(mod, tier, env)
                workers.append(w)
                err = w.boot()
                if err:
                    with lock:
                        errors.append("boot: " + err)
                    stop.set()
                    return
            budget = min(h["budget"], end - time.monotonic())
            t = time.monotonic()
            r = None
            if budget > 1:
                watchdog = threading.Timer(budget + 150, w.kill)
                watchdog.start()
                r = w.run(dict(prop=prop, harness=h["name"], case=c, known_ids=sorted(known), budget=budget))
                watchdog.cancel()
            if r is None:
                if stop.is_set():
                    return
                r = dict(harness=h["name"], case=c, exhaustive=False, violations=[], known=[], validated=0, samples=[],
                         errors=["not run: out of time" if budget <= 1 else "worker died"], stats={}, reached=[], functions=[],
                         wall=time.monotonic() - t)
                w.kill()
                w = None
            with lock:
                results.append(r)
                if a.v:
                    print("%s %s paths=%s q=%s %.1fs %s" % (r["harness"], json.dumps(r["case"]), r["stats"].get("paths"),
                          r["stats"].get("queries"), r["wall"], "ok" if r["exhaustive"] and not r["errors"] else
                          ("ERR %d" % len(r["errors"]) if r["errors"] else "VIOLATION")), flush=True)
            if r["violations"]:
                stop.set()

    n = a.j or min(8, os.cpu_count() or 1, max(1, len(jobs)))
    threads = [threading.Thread(target=loop, daemon=True) for _ in range(n)]
    for t in threads:
        t.start()
    while any(t.is_alive() for t in threads):
        if stop.is_set():
            break
        time.sleep(0.05)
    for w in workers:
        w.kill()
    for t in threads:
        t.join(10)

    viol = [dict(v, harness=r["harness"], case=r["case"]) for r in results for v in r["violations"]]
    for r in results:
        for e in r["errors"]:
            errors.append("%s %s: %s" % (r["harness"], json.dumps(r["case"]), e))
    # vacuity: every declared witness must be reached, every harness must have paths
    if not viol:
        for h in harnesses:
            rs = [r for r in results if r["harness"] == h["name"]]
            reached = set().union(*[set(r["reached"]) for r in rs]) if rs else set()
            for lab in h["reach"]:
                if lab not in reached:
                    errors.append("%s: witness '%s' not reached (vacuous)" % (h["name"], lab))
            if sum(r["stats"].get("obligations", 0) for r in rs) == 0:
                errors.append("%s: no obligation reached (vacuous)" % h["name"])
            if prop != "Z99" and not any(r["functions"] for r in rs):
                errors.append("%s: executed no code of /repo" % h["name"])
        if len(results) != len(jobs):
            errors.append("%d of %d jobs finished" % (len(results), len(jobs)))
    S = lambda k: sum(r["stats"].get(k, 0) for r in results)
    functions = sorted(set(f for r in results for f in r["functions"]))
    exhaustive = bool(results) and not viol and not errors and all(r["exhaustive"] for r in results)
    knownhits = sorted(set(k for r in results for k, _ in r["known"]))
    samples = [s for r in results for s in r["samples"][:1]][:6]
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.monotonic() - T0, 2),
        violations=len(viol),
        assumptions=sorted(set(x for h in harnesses for x in h["assumes"])) + GENERAL,
        coverage=dict(
            states=S("paths"), transitions=S("decisions"),
            traces_validated_against_impl=sum(r["validated"] for r in results), samples=samples,
            obligations=S("obligations"), discharged=S("discharged"), exhaustive=exhaustive,
            explanation="states = symbolic execution paths, each standing for every input that follows it; transitions = "
                        "solver-decided branches; obligations = assertions submitted on a path, discharged = path and not "
                        "assertion is unsatisfiable; traces validated = paths whose model was run on the unmodified code "
                        "with equal observations",
            queries=S("queries"), solver_seconds=round(S("solver_s"), 2), infeasible_paths=S("infeasible"),
            concretizations=S("concretizations"), functions_encoded=functions, n_functions=len(functions),
            harnesses=[dict(name=h["name"], bounds=h["bounds"], cases=len(h["cases"]),
                            paths=sum(r["stats"].get("paths", 0) for r in results if r["harness"] == h["name"]),
                            obligations=sum(r["stats"].get("obligations", 0) for r in results if r["harness"] == h["name"]),
                            seconds=round(sum(r["wall"] for r in results if r["harness"] == h["name"]), 2),
                            witnesses=sorted(set(x for r in results if r["harness"] == h["name"] for x in r["reached"])))
                       for h in harnesses],
            known_findings_seen=knownhits, errors=errors[:20]))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    if viol:
        v = viol[0]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%d.json" % (prop, os.getpid()))
        with open(path, "w") as fh:
            json.dump(dict(property=prop, module=mod, tier=tier, harness=v["harness"], case=v["case"], inputs=v["inputs"],
                           label=v["label"], exc=v["exc"], trace=v["trace"]), fh, indent=1)
        print("violated: %s in %s case=%s" % (v["label"], v["harness"], json.dumps(v["case"])))
        print("inputs: %s" % json.dumps(v["inputs"]))
        if v["exc"]:
            print(v["exc"].strip()[-1500:])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for k in knownhits:
        print("KNOWN-FINDING: property=%s %s %s" % (prop, k, known[k]))
    for k in sorted(set(known) - set(knownhits)):
        print("note: listed finding %s was not reproduced on this tree" % k)
    print("%s %s: paths=%d obligations=%d/%d queries=%d solver=%.1fs validated=%d functions=%d wall=%.1fs" % (
        prop, tier, S("paths"), S("discharged"), S("obligations"), S("queries"), S("solver_s"),
        ev["coverage"]["traces_validated_against_impl"], len(functions), ev["wall_s"]))
    if errors:
        seen = {}
        for e in errors:
            e = "\n".join(x for x in e.split("\n") if x.strip(" ^~"))
            seen.setdefault(e.split(": ", 1)[-1][:120], e)
        for e in list(seen.values())[:3]:
            print("ERROR " + (e if len(e) < 1800 else e[:500] + "\n...\n" + e[-1200:]))
        print("NO ANSWER for %s: %d error(s)" % (prop, len(errors)))
        return 2
    return 0


GENERAL = [
    "single threaded CPython 3.12 semantics; float arithmetic is encoded as real arithmetic",
    "C extensions (orjson, orso parse, xxhash, lz4, zstandard, mmap, re) are replaced by models validated on every replayed path",
    "garbage collection and __del__ are not part of a path",
]


def replay(path):
    with open(path) as fh:
        v = json.load(fh)
    import symx.worker as W
    s = W.NativeServer(v["module"], v["tier"])
    r = s.run(v["property"], v["harness"], v["case"], v["inputs"], timeout=20)
    s.stop()
    print(json.dumps(r, indent=1))
    if r["failures"] and r["assume"]:
        print("VIOLATION property=%s replay=%s" % (v["property"], path))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
