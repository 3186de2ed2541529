"""
symx.worker - explores one (harness, case) symbolically.  Persistent process: JSON job in,
JSON result out.
"""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_mono = time.monotonic


def bootstrap(modname):
    repo = os.environ.get("SYMX_REPO", "/repo")
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if p not in (HERE, repo)]
    sys.path.insert(0, HERE)
    if "z3" not in sys.modules:
        sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import z3
    import threading
    for m in ("orso", "pyarrow", "zstandard", "lz4.frame", "xxhash", "bitarray", "orjson", "pandas", "numpy",
              "IPython", "psutil", "minio", "google.cloud.storage"):
        try:
            importlib.import_module(m)
        except Exception:
            pass
    from symx import core, rt, rope, sre, models, instr, env
    models.install()
    sys.meta_path.insert(0, instr.Finder(repo, {"harness": HERE}))
    real = threading.Lock
    realr = threading.RLock
    threading.Lock, threading.RLock = env.SchedLock, env.SchedRLock
    try:
        importlib.import_module("symx_std._pydatetime")
        importlib.import_module("symx_std.pathlib")
        from symx import stdpatch
        stdpatch.apply()
        importlib.import_module(modname)
    finally:
        threading.Lock, threading.RLock = real, realr
    import mabel
    assert os.path.realpath(mabel.__file__).startswith(os.path.realpath(repo) + os.sep), mabel.__file__
    assert "__symx__" in mabel.__dict__


class NativeServer:
    def __init__(self, modname, tier):
        self.modname, self.tier = modname, tier
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED="0", LOGGING_LEVEL="100")
        env.pop("SYMX_SCRATCH", None)   # the folder of the job under way goes with it, this process stays
        self.p = subprocess.Popen([sys.executable, "-B", "-m", "symx.native", self.modname], cwd=HERE, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        if self.p.stdout.readline().strip() != "ready":
            raise RuntimeError("native server did not start")

    def run(self, prop, hname, case, inputs, timeout=10):
        import select
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.p.stdin.write(json.dumps(dict(prop=prop, harness=hname, case=case, tier=self.tier, inputs=inputs,
                                           timeout=timeout)) + "\n")
        self.p.stdin.flush()
        r, _, _ = select.select([self.p.stdout], [], [], timeout + 20)
        if not r:
            self.p.kill()
            self.p.wait()
            self.p = None
            return {"failures": ["nontermination"], "obs": [], "known": [], "exc": None, "assume": True, "missing": [], "reached": []}
        line = self.p.stdout.readline()
        if not line:
            rc = self.p.wait()
            self.p = None
            return {"failures": ["crash"], "obs": [], "known": [], "exc": "exit %s" % rc, "assume": True, "missing": [], "reached": []}
        return json.loads(line)

    def stop(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()


def make_env_class():
    from symx import core, rt, rope, env as envm
    from symx.core import SymInt, SymBool, SymStr, Ch
    import z3

    class SymEnv(envm.BaseEnv):
        symbolic = True

        def __init__(self, case, tier, known_ids):
            super().__init__(case, tier)
            self._scratch = []
            self.known_ids = known_ids
            self.known_found = []   # (id, inputs) reachable excused violations

        def _declare(self, name, kind, data):
            if name in core.E.inputs:
                raise core.EngineError("duplicate input %s" % name)
            core.E.inputs[name] = (kind, data)

        def int(self, name, lo, hi):
            old = core.E.inputs.get(name)
            if old is not None and name.startswith("urandom"):
                raise core.EngineError("duplicate input %s" % name)
            v = core.E.var(name)
            self._declare(name, "int", v)
            core.E.assume(z3.And(v >= lo, v <= hi))
            return core.mkint(v) if lo != hi else lo

        def bool(self, name):
            v = core.E.var(name, "Bool")
            self._declare(name, "bool", v)
            return SymBool(v)

        def choice(self, name, options):
            """one of the options; every option is explored (fork decided by the solver)"""
            n = len(options)
            if n == 1:
                self._declare(name, "int", z3.IntVal(0))
                return options[0]
            v = core.E.var(name)
            self._declare(name, "int", v)
            core.E.assume(z3.And(v >= 0, v < n))
            return options[core.E.concrete_int(v)]

        def str(self, name, alphabet, lo, hi=None):
            hi = lo if hi is None else hi
            dom = tuple(sorted(set(map(ord, alphabet))))
            n = lo
            if hi != lo:
                ln = core.E.var(name + ".len")
                self._declare(name + ".len", "int", ln)
                core.E.assume(z3.And(ln >= lo, ln <= hi))
                n = core.E.concrete_int(ln)
            cs = []
            for i in range(n):
                nm = "%s[%d]" % (name, i)
                v = core.E.var(nm)
                self._declare(nm, "int", v)
                core.E.assume(core._setcond(v, dom))
                cs.append(Ch(v, dom) if len(dom) > 1 else dom[0])
            return core.mkstr(cs)

        def text(self, name, lo, hi):
            v = core.E.var(name)
            self._declare(name, "int", v)
            core.E.assume(z3.And(v >= lo, v <= hi))
            return rope.BigText(name, SymInt(v))

        def assume(self, cond):
            core.E.assume(cond)

        def pin(self, x):
            """explore every value of x separately"""
            return core.concretize(x)

        def check(self, cond, label, known=None):
            E = core.E
            if not isinstance(cond, (bool, SymBool)):
                cond = rt.builtins.bool(cond)
            if known is not None and known[0] in self.known_ids and cond is not True:
                kid, kc = known
                kc = kc if isinstance(kc, (bool, SymBool)) else rt.builtins.bool(kc)
                if kid not in [k for k, _ in self.known_found]:
                    bad = core.s_and(core.s_not(cond), kc)
                    if bad is not False:
                        r = E.prove(core.zbool(core.s_not(bad)) if isinstance(bad, SymBool) else False)
                        if r is not True:
                            self.known_found.append((kid, E.extract(r)))
                cond2 = core.s_or(cond, kc)
                self._prove(cond2, label)
                # continue only where the property really holds
                if cond is False:
                    raise core.PathDone()
                if isinstance(cond, SymBool):
                    if not E.branch(cond.z):
                        raise core.PathDone()
                return
            self._prove(cond, label)

        def _prove(self, cond, label):
            E = core.E
            r = E.prove(cond.z if isinstance(cond, SymBool) else cond)
            if r is not True:
                raise core.FoundViolation(label, E.extract(r))
            # the rest of the path may rely on it (it is implied)

        def observe(self, label, value):
            core.model_value(value, core.E.get_model())     # forces deferred strings, which may fork
            core.E.observations.append((label, _snap(value)))

        def reach(self, label):
            core.E.reached.add(label)

        def eq(self, a, b):
            r = rt.deep_eq(a, b)
            return r if isinstance(r, (bool, SymBool)) else rt.builtins.bool(r)

        def same(self, a, b):
            if core.pytype(a) is not core.pytype(b):
                return False
            return self.eq(a, b)

        def all(self, conds):
            return core.s_and(*list(conds))

        def any(self, conds):
            return core.s_or(*list(conds))

        def ite(self, c, a, b):
            return core.s_ite(c, a, b) if isinstance(c, SymBool) else (a if c else b)

        def implies(self, a, b):
            return core.s_or(core.s_not(a), b)

        def not_(self, a):
            return core.s_not(a)

        def urandom(self):
            core.E.path_cache["env"] = self

        def _fresh(self):
            explore.snap.restore()
            for k in list(core.E.path_cache):
                if type(k) is tuple and k[0] == "lru":
                    del core.E.path_cache[k]

        def clock(self, fn):
            m = sys.modules["symx_std._pydatetime"]
            D = m.datetime

            def now(cls, tz=None):
                r = fn()
                return r if tz is None else r.replace(tzinfo=m.timezone.utc).astimezone(tz)
            self.setattr(D, "utcnow", classmethod(lambda cls: fn()))
            self.setattr(D, "now", classmethod(now))
            self.setattr(D, "today", classmethod(lambda cls: fn()))
            self.setattr(m.date, "today", classmethod(lambda cls: fn().date()))

    return SymEnv


class TooMany(Exception):
    pass


def shared_buffers():
    """byte arrays which classes and modules of the code under check hold, as ropes"""
    from symx.rope import Rope
    for name, m in list(sys.modules.items()):
        if m is None or name.split(".")[0] != "mabel":
            continue
        for k, v in list(vars(m).items()):
            if type(v) is bytearray:
                setattr(m, k, Rope([bytes(v)], True))
            elif isinstance(v, type) and getattr(v, "__module__", "") == name:
                for a, b in list(vars(v).items()):
                    if type(b) is bytearray:
                        setattr(v, a, Rope([bytes(b)], True))


def explore(h, case, tier, known_ids, server, budget, validate=60, debug=False):
    from symx import core, env as envm
    import gc
    SymEnv = make_env_class()
    t0 = _mono()
    scratch = tempfile.mkdtemp(prefix="symxjob")
    os.environ["SYMX_SCRATCH"] = scratch
    tempfile.tempdir = scratch
    eng = core.Engine(max_steps=h.steps, deadline=t0 + budget)
    core.set_engine(eng)
    if getattr(explore, "snap", None) is None:
        shared_buffers()
        explore.snap = envm.Snapshot(("mabel", "harness", "symx_std"))
    snap = explore.snap
    res = dict(harness=h.name, case=case, exhaustive=False, violations=[], errors=[], known=[], validated=0, samples=[])
    known_seen = set()
    npaths = 0

    def fail(msg):
        res["errors"].append(msg)
        if len(res["errors"]) >= 25:
            raise TooMany()
    gc.disable()
    try:
        while True:
            eng.reset_path()
            snap.restore()
            se = SymEnv(case, tier, known_ids)
            outcome = "ok"
            viol = None
            try:
                try:
                    h.fn(se, case)
                except core.PathDone:
                    outcome = "excused"
                except core.PathInfeasible:
                    outcome = "infeasible"
                except core.FoundViolation as v:
                    viol = (v.label, v.inputs, "")
                except envm.WouldBlock:
                    viol = ("deadlock", eng.extract(eng.get_model()), "")
                except core.Fuel:
                    viol = ("nontermination", eng.extract(eng.get_model()), "")
                except RecursionError as e:
                    viol = ("uncaught:RecursionError", eng.extract(eng.get_model()), _tb(e))
                except BaseException as e:
                    if envm.control(e):
                        raise
                    if debug:
                        traceback.print_exc()
                    viol = ("uncaught:" + type(e).__name__, eng.extract(eng.get_model()), _tb(e))
            except core.PathInfeasible:
                outcome = "infeasible"
            except core.EngineError as e:
                outcome = "unencoded"
                viol = None
                fail("encoding: %s\n%s" % (e, _tb(e)))
            finally:
                envm.SchedLock.hook, envm.SchedLock.who = None, 0
                se.cleanup()
            if outcome == "unencoded":
                # not explored further symbolically; the inputs that lead here still replay
                inputs = eng.extract(eng.get_model())
                r = server.run(h.prop, h.name, case, inputs)
                if r["failures"] and r["assume"] and not r["missing"]:
                    res["violations"].append(dict(label=r["failures"][0], inputs=inputs, native=r["failures"],
                                                  exc=r["exc"], trace="found replaying a path the encoding left"))
                    break
            if outcome == "infeasible":
                eng.stats["infeasible"] += 1
            else:
                eng.stats["paths"] += 1
                npaths += 1
            for kid, inputs in se.known_found:
                if kid in known_seen:
                    continue
                r = server.run(h.prop, h.name, case, inputs)
                if kid in r["known"]:
                    known_seen.add(kid)
                    res["known"].append([kid, inputs])
                else:
                    res["errors"].append("known finding %s did not reproduce natively: %s %s" % (kid, inputs, r))
            if viol is not None:
                label, inputs, tb = viol
                r = server.run(h.prop, h.name, case, inputs, timeout=10)
                rec = dict(label=label, inputs=inputs, native=r["failures"], exc=r["exc"], trace=tb)
                if r["failures"] and r["assume"] and not r["missing"]:
                    rec["label"] = r["failures"][0]
                    res["violations"].append(rec)
                    break
                fail("counterexample for '%s' did not reproduce: %s native=%s\n%s" % (label, inputs, r, tb))
            elif outcome == "ok" and (npaths <= validate or npaths % 97 == 0) and server is not None:
                m = eng.get_model()
                inputs = eng.extract(m)
                exp = []
                for lab, v in eng.observations:
                    exp.append([lab, envm.canon(_mv(core.model_value(v, m)))])
                r = server.run(h.prop, h.name, case, inputs)
                bad = None
                if r["failures"]:
                    # the real code violates the property where the encoding said it holds
                    if r["assume"] and not r["missing"]:
                        res["violations"].append(dict(label=r["failures"][0], inputs=inputs, native=r["failures"],
                                                      exc=r["exc"], trace="found while validating a path"))
                        break
                    bad = "native run failed %s" % r
                elif not envm.canon_eq(json.loads(json.dumps(exp)), r["obs"]):
                    bad = "observations differ\n symbolic=%s\n native  =%s" % (json.dumps(exp), json.dumps(r["obs"]))
                elif r["missing"] or not r["assume"]:
                    bad = "native run needed inputs the path did not have: %s" % r
                if bad:
                    fail("encoding validation: inputs=%s %s" % (inputs, bad))
                else:
                    res["validated"] += 1
                if not bad and len(res["samples"]) < 2:
                    res["samples"].append(dict(case=case, inputs=inputs, observed=exp[:6]))
            if npaths % 200 == 0:
                gc.collect()
            if eng.max_paths and npaths >= eng.max_paths:
                raise core.Budget("paths")
            if not eng.backtrack():
                res["exhaustive"] = True
                break
    except TooMany:
        pass
    except core.Budget as e:
        res["errors"].append("budget exhausted (%s) after %d paths" % (e, npaths))
    except core.Inconclusive as e:
        res["errors"].append("inconclusive: %s" % e)
    except core.EngineError as e:
        res["errors"].append("encoding: %s\n%s" % (e, _tb(e)))
    except core.Steer as e:
        res["errors"].append("engine: %r" % e)
    except Exception as e:
        res["errors"].append("internal: %s" % _tb(e))
    finally:
        gc.enable()
        core.set_engine(None)
        tempfile.tempdir = None
        shutil.rmtree(scratch, ignore_errors=True)
    res["stats"] = eng.stats
    res["reached"] = sorted(eng.reached)
    res["functions"] = sorted(k for k in eng.functions if k.startswith("mabel"))
    res["wall"] = _mono() - t0
    return res


def _mv(x):
    return x


def _snap(x):
    if type(x) in (list, tuple):
        return type(x)([_snap(i) for i in x])
    if type(x) is dict:
        from symx import rt
        with rt.UID:
            return {k: _snap(v) for k, v in x.items()}
    return x


def _tb(e):
    return "".join(traceback.format_exception(e))[-4000:]


def main():
    modname, tier = sys.argv[1], sys.argv[2]
    proto = os.fdopen(os.dup(1), "w")
    if not os.environ.get("SYMX_DEBUG"):
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get("SYMX_STDERR"):
            os.dup2(devnull, 2)
    else:
        os.dup2(2, 1)
    sys.setrecursionlimit(6000)
    try:
        bootstrap(modname)
    except BaseException as e:
        proto.write(json.dumps({"boot_error": _tb(e)}) + "\n")
        proto.flush()
        return
    from symx import env as envm
    server = NativeServer(modname, tier)
    proto.write(json.dumps({"ready": 1}) + "\n")
    proto.flush()
    for line in sys.stdin:
        job = json.loads(line)
        h = envm.REGISTRY[(job["prop"], job["harness"])]
        r = explore(h, job["case"], tier, job["known_ids"], server, job["budget"], debug=bool(os.environ.get("SYMX_DEBUG")))
        from symx import core
        if core.SITES is not None:
            with open(os.environ["SYMX_SITES"], "a") as f:
                f.write("== %s %s\n" % (job["harness"], job["case"]))
                for k, v in sorted(core.SITES.items(), key=lambda i: -i[1])[:25]:
                    f.write("%7d %s\n" % (v, k))
            core.SITES.clear()
        proto.write(json.dumps(r, default=str) + "\n")
        proto.flush()
    server.stop()


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    import symx.worker as W
    W.main()
