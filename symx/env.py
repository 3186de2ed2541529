"""
symx.env - what a harness sees.  The same harness function runs in two modes:

* symbolic: inputs are solver variables, `check` is discharged by the solver on every path;
* native: inputs are the concrete values of a model, code is the un-instrumented /repo tree;
  used to replay counterexamples and to validate the encoding of explored paths.
"""
import importlib
import os
import sys


class Harness:
    def __init__(self, fn, prop, cases, bounds, reach, quick, thorough, steps, assumes):
        self.fn, self.prop, self.cases, self.bounds = fn, prop, cases, bounds
        self.reach, self.quick, self.thorough, self.steps = reach, quick, thorough, steps
        self.assumes = assumes
        self.name = fn.__name__

    def caselist(self, tier):
        c = self.cases(tier) if callable(self.cases) else self.cases
        return list(c)


REGISTRY = {}


def harness(prop, cases=(None,), bounds="", reach=(), quick=250, thorough=1500, steps=400000, assumes=()):
    """declare a harness: cases is a list of JSON values (or tier -> list); quick/thorough are
    per case time budgets in seconds"""
    def deco(fn):
        h = Harness(fn, prop, cases, bounds, tuple(reach), quick, thorough, steps, tuple(assumes))
        REGISTRY.setdefault(prop, []).append(h)
        REGISTRY[(prop, fn.__name__)] = h
        return fn
    return deco


def control(e):
    """does it steer the run, rather than come from the code under test (whose exceptions may derive from BaseException)"""
    return getattr(e, "symx_control", False) or isinstance(e, (KeyboardInterrupt, GeneratorExit))


class AssumeFailed(BaseException):
    symx_control = True


class Stop(BaseException):
    """native mode: a check failed, end of run"""
    symx_control = True


_PLACES = {}


class BaseEnv:
    symbolic = False

    def __init__(self, case, tier):
        self.case, self.tier = case, tier
        self._patches = []
        self.dt = sys.modules.get("symx_std._pydatetime") if self.symbolic else importlib.import_module("datetime")

    # ---- stubs
    def patch(self, target, value):
        mod, _, attr = target.rpartition(".")
        try:
            m = importlib.import_module(mod)
        except ImportError:
            mm, _, cl = mod.rpartition(".")
            m = getattr(importlib.import_module(mm), cl)
        places = _PLACES.get(target)
        if places is None:
            # what was imported from there by name is the same thing
            places = _PLACES[target] = []
            old = getattr(m, attr, None)
            if callable(old) and hasattr(m, "__spec__"):
                for name, mod in list(sys.modules.items()):
                    if mod is not None and mod is not m and name.split(".")[0] == "mabel":
                        places += [(mod, k) for k, v in list(vars(mod).items()) if v is old]
        self.setattr(m, attr, value)
        for mod, k in places:
            self.setattr(mod, k, value)

    def constant(self, module, name, default, value):
        """a limit of the code under check, made small; what the limit is now"""
        m = importlib.import_module(module)
        names = [name] if name in vars(m) else [k for k, v in vars(m).items() if type(v) is int and v == default]
        if len(names) != 1:
            return default
        self.setattr(m, names[0], value)
        return value

    def setattr(self, obj, attr, value):
        had = attr in vars(obj) if hasattr(obj, "__dict__") else hasattr(obj, attr)
        self._patches.append((obj, attr, vars(obj).get(attr) if had else None, had, value))
        setattr(obj, attr, value)

    def new_process(self):
        """module state of the code under check as a fresh process has it (stubs stay)"""
        self._fresh()
        for obj, attr, _, _, value in self._patches:
            setattr(obj, attr, value)

    def unpatch(self):
        while self._patches:
            obj, attr, old, had, _ = self._patches.pop()
            if had:
                setattr(obj, attr, old)
            else:
                delattr(obj, attr)

    def catch(self, fn, *a, **k):
        """('ok', value) or ('exc', exception type name)"""
        try:
            return ("ok", fn(*a, **k))
        except BaseException as e:
            if control(e):
                raise
            return ("exc", type(e).__name__)

    def scratch(self):
        """a fresh empty directory, removed when the run ends"""
        import tempfile
        d = tempfile.mkdtemp(prefix="symx", dir=os.environ.get("SYMX_SCRATCH"))
        self._scratch.append(d)
        return d

    def cleanup(self):
        import shutil
        self.unpatch()
        for d in self._scratch:
            shutil.rmtree(d, ignore_errors=True)
        self._scratch = []


class NativeEnv(BaseEnv):
    symbolic = False

    def __init__(self, case, tier, inputs):
        super().__init__(case, tier)
        self.inputs = inputs
        self.obs = []
        self.failures = []
        self.known_hits = []
        self.reached = set()
        self._scratch = []
        self.missing = []

    def _in(self, name, default):
        if name not in self.inputs:
            self.missing.append(name)
            return default
        return self.inputs[name]

    def int(self, name, lo, hi):
        return self._in(name, lo)

    def bool(self, name):
        return bool(self._in(name, False))

    def choice(self, name, options):
        return options[self._in(name, 0)]

    def str(self, name, alphabet, lo, hi=None):
        hi = lo if hi is None else hi
        n = self._in(name + ".len", lo) if hi != lo else lo
        return "".join(chr(self._in("%s[%d]" % (name, i), ord(alphabet[0]))) for i in range(n))

    def text(self, name, lo, hi):
        return "x" * self._in(name, lo)

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def pin(self, x):
        return x

    def check(self, cond, label, known=None):
        if cond:
            return
        if known is not None and known[1]:
            self.known_hits.append(known[0])
            raise Stop()
        self.failures.append(label)
        raise Stop()

    def observe(self, label, value):
        self.obs.append([label, canon(value)])

    def reach(self, label):
        self.reached.add(label)

    def eq(self, a, b):
        return a == b

    def same(self, a, b):
        return a is b or (type(a) is type(b) and a == b)

    def all(self, conds):
        return all(list(conds))

    def any(self, conds):
        return any(list(conds))

    def ite(self, c, a, b):
        return a if c else b

    def implies(self, a, b):
        return (not a) or b

    def not_(self, a):
        return not a

    def _fresh(self):
        from . import native
        native._SNAP.restore()
        native.clear_caches()

    def urandom(self):
        """route os.urandom to inputs"""
        st = {"n": 0}

        def f(n):
            st["n"] += 1
            return self.int("urandom%d" % st["n"], 0, 0).to_bytes(n, "big")
        self.patch("os.urandom", f)

    def clock(self, fn):
        """the wall clock: fn() -> naive datetime (UTC); the local time is twelve and a half hours ahead of it"""
        from . import native
        native.install_clock(self, fn)


def canon(x):
    """comparable form of an observed value"""
    from fractions import Fraction
    import decimal
    t = type(x)
    if x is None:
        return None
    if isinstance(x, bool):
        return bool(x)
    if isinstance(x, int):
        return int(x)
    if isinstance(x, (float, Fraction, decimal.Decimal)):
        return ["f", float(x)]
    if isinstance(x, str):
        return str(x)
    if isinstance(x, (bytes, bytearray)):
        return ["b", bytes(x).hex()]
    if isinstance(x, (list, tuple)):
        return ["l"] + [canon(i) for i in x]
    if isinstance(x, dict):
        return ["d"] + [[canon(k), canon(v)] for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        return ["s"] + sorted((canon(i) for i in x), key=repr)
    n = t.__name__
    if n in ("datetime", "date", "time"):
        return ["t", str(x.isoformat())]
    if n == "timedelta":
        return ["td", [int(x.days), int(x.seconds), int(x.microseconds)]]
    return ["o", n]


def canon_eq(a, b):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) == 2 and len(b) == 2 and a[0] == "f" and b[0] == "f":
            x, y = a[1], b[1]
            return x == y or (x != x and y != y) or abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))
        return len(a) == len(b) and all(canon_eq(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


# ------------------------------------------------------------------ locks with scheduling points
class WouldBlock(BaseException):
    """a simulated thread would block on a lock: its step is not enabled"""
    symx_control = True


class SchedLock:
    """threading.Lock with an observation hook, in both modes; `who` is the simulated thread"""
    hook = None
    who = 0
    reentrant = False

    def __init__(self):
        self._held = 0
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        if SchedLock.hook:
            SchedLock.hook("acquire", self)
        if self._held and not (self.reentrant and self._owner == SchedLock.who):
            if not blocking:
                return False
            raise WouldBlock()
        self._held += 1
        self._owner = SchedLock.who
        return True

    def release(self):
        if not self._held:
            e = sys.exc_info()[1]
            if e is not None and not isinstance(e, Exception):
                return      # the run is being abandoned inside acquire()
            raise RuntimeError("release unlocked lock")
        self._held -= 1
        if SchedLock.hook:
            SchedLock.hook("release", self)

    def locked(self):
        return bool(self._held)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SchedRLock(SchedLock):
    reentrant = True


# ------------------------------------------------------------------ module state between runs
class Snapshot:
    """module level state of the code under check, restored before every path / replay"""

    def __init__(self, prefixes=("mabel", "harness")):
        import types
        self.attrs = []
        self.conts = []
        seen = set()

        def cont(v, depth=0):
            if type(v).__name__ == "Rope" and id(v) not in seen:
                seen.add(id(v))
                self.conts.append((v, v.copy()))
                return
            if type(v) in (list, dict, set, bytearray) and id(v) not in seen and depth < 4:
                seen.add(id(v))
                if len(v) > 5000:
                    return
                self.conts.append((v, v.copy()))
                if type(v) is dict:
                    for i in v.values():
                        cont(i, depth + 1)
                elif type(v) is list:
                    for i in v:
                        cont(i, depth + 1)

        def func(f):
            for d in (f.__defaults__ or ()):
                cont(d)
            for d in (f.__kwdefaults__ or {}).values():
                cont(d)
        for name, m in list(sys.modules.items()):
            if m is None or not (name.split(".")[0] in prefixes):
                continue
            items = [(k, v) for k, v in vars(m).items() if not k.startswith("__") and not k.startswith("_sx_")]
            self.attrs.append((m, dict(items)))
            for k, v in items:
                cont(v)
                if isinstance(v, SchedLock):
                    self.attrs.append((v, dict(vars(v))))
                elif type(v).__module__ in sys.modules and type(v).__module__.split(".")[0] in prefixes \
                        and not isinstance(v, type) and type(getattr(v, "__dict__", None)) is dict and id(v) not in seen:
                    seen.add(id(v))
                    self.attrs.append((v, dict(vars(v))))
                    for b in vars(v).values():
                        cont(b)
                if isinstance(v, types.FunctionType):
                    func(v)
                    w = getattr(v, "__wrapped__", None)
                    if isinstance(w, types.FunctionType):
                        func(w)
                if isinstance(v, type) and getattr(v, "__module__", "") == name:
                    its = {a: b for a, b in vars(v).items() if not a.startswith("__") and not a.startswith("_abc")}
                    self.attrs.append((v, its))
                    for b in its.values():
                        cont(b)
                        if isinstance(b, types.FunctionType):
                            func(b)
                    ini = vars(v).get("__init__")
                    if isinstance(ini, types.FunctionType):
                        func(ini)

    def restore(self):
        for v, c in self.conts:
            if type(v).__name__ == "Rope":
                v.segs = list(c.segs)
            elif type(v) is dict:
                if len(v) != len(c) or any(v.get(k) is not c[k] for k in c):
                    dict.clear(v)
                    dict.update(v, c)
            elif type(v) is set:
                if len(v) != len(c):
                    v.clear()
                    v.update(c)
            elif len(v) != len(c) or any(a is not b for a, b in zip(v, c)):
                v[:] = c
        for o, d in self.attrs:
            cur = vars(o)
            for k, v in d.items():
                if cur.get(k) is not v:
                    try:
                        setattr(o, k, v)
                    except (AttributeError, TypeError):
                        pass
