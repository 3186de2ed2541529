"""
symx.native - replays concrete inputs against the un-instrumented code of /repo.
Runs as a separate process (a JSON line per request), so a hang or crash of the code under
check cannot take the checker with it.
"""
import importlib
import io
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Timeout(BaseException):
    symx_control = True


def _alarm(*a):
    raise Timeout()


# ------------------------------------------------------------------ clock
def install_clock(env, fn):
    import datetime as real
    import types
    local = real.timedelta(hours=12, minutes=30)

    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, cls._real)

        def __subclasscheck__(cls, c):
            return issubclass(c, cls._real)

        def __eq__(cls, o):
            return o is cls or o is cls._real

        def __hash__(cls):
            return hash(cls._real)

        def __call__(cls, *a, **k):
            return cls._real(*a, **k)

    class datetime(real.datetime, metaclass=Meta):
        _real = real.datetime

        @classmethod
        def utcnow(cls):
            return fn()

        @classmethod
        def now(cls, tz=None):
            # where the code runs, clocks are not at UTC
            r = fn()
            return r + local if tz is None else r.replace(tzinfo=real.timezone.utc).astimezone(tz)

        @classmethod
        def today(cls):
            return fn() + local

    class date(real.date, metaclass=Meta):
        _real = real.date

        @classmethod
        def today(cls):
            return (fn() + local).date()

    shim = types.ModuleType("datetime")
    shim.__dict__.update({k: v for k, v in vars(real).items() if not k.startswith("__")})
    shim.datetime, shim.date = datetime, date
    for name, m in list(sys.modules.items()):
        if m is None or name.split(".")[0] != "mabel":
            continue
        for k, v in list(vars(m).items()):
            if v is real:
                env.setattr(m, k, shim)
            elif v is real.datetime:
                env.setattr(m, k, datetime)
            elif v is real.date:
                env.setattr(m, k, date)
            elif isinstance(v, dict):
                for kk, vv in list(v.items()):
                    if getattr(vv, "__self__", None) is real.datetime and vv.__name__ in ("now", "utcnow", "today"):
                        v[kk] = getattr(datetime, vv.__name__)
                    elif getattr(vv, "__self__", None) is real.date and vv.__name__ == "today":
                        v[kk] = date.today


def clear_caches():
    for name, m in list(sys.modules.items()):
        if m is None or name.split(".")[0] != "mabel":
            continue
        for v in list(vars(m).values()):
            c = getattr(v, "cache_clear", None)
            if c is not None:
                try:
                    c()
                except Exception:
                    pass
            if isinstance(v, type):
                for w in list(vars(v).values()):
                    c = getattr(w, "cache_clear", None)
                    if c is not None:
                        try:
                            c()
                        except Exception:
                            pass


_SNAP = None


def run_one(req, timeout):
    global _SNAP
    from symx import env as E
    h = E.REGISTRY[(req["prop"], req["harness"])]
    if _SNAP is None:
        _SNAP = E.Snapshot()
    _SNAP.restore()
    clear_caches()
    ne = E.NativeEnv(req["case"], req["tier"], req["inputs"])
    out = {"exc": None, "assume": True}
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        try:
            h.fn(ne, req["case"])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except E.Stop:
        pass
    except E.AssumeFailed:
        out["assume"] = False
    except Timeout:
        ne.failures.append("nontermination")
    except E.WouldBlock:
        ne.failures.append("deadlock")
    except RecursionError as e:
        ne.failures.append("uncaught:RecursionError")
    except MemoryError as e:
        ne.failures.append("uncaught:MemoryError")
    except BaseException as e:
        if E.control(e):
            raise
        ne.failures.append("uncaught:" + type(e).__name__)
        out["exc"] = "".join(traceback.format_exception(e))[-3000:]
    finally:
        E.SchedLock.hook, E.SchedLock.who = None, 0
        ne.cleanup()
    out.update(failures=ne.failures, obs=ne.obs, known=ne.known_hits, missing=ne.missing, reached=sorted(ne.reached))
    return out


def bootstrap(modname):
    repo = os.environ.get("SYMX_REPO", "/repo")
    sys.dont_write_bytecode = True
    for p in (HERE, repo):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    import threading
    from symx import env as E
    # third party modules first: they keep the real lock
    for m in ("orso", "pyarrow", "zstandard", "lz4.frame", "xxhash", "bitarray", "orjson", "pandas"):
        try:
            importlib.import_module(m)
        except Exception:
            pass
    real = threading.Lock
    realr = threading.RLock
    threading.Lock, threading.RLock = E.SchedLock, E.SchedRLock
    try:
        importlib.import_module(modname)
    finally:
        threading.Lock, threading.RLock = real, realr
    import mabel
    assert os.path.realpath(mabel.__file__).startswith(os.path.realpath(repo) + os.sep), mabel.__file__
    E.REAL_LOCK = real


def main():
    os.environ.setdefault("LOGGING_LEVEL", "100")
    proto = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    sys.setrecursionlimit(3000)
    bootstrap(sys.argv[1])
    proto.write("ready\n")
    proto.flush()
    for line in sys.stdin:
        req = json.loads(line)
        r = run_one(req, req.get("timeout", 10))
        proto.write(json.dumps(r) + "\n")
        proto.flush()


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    # `python -m symx.native` makes this module __main__; harness code imports symx.native
    import symx.native as N
    N.main()
