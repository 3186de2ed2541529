"""
symx.core - path exploration, solver interface and symbolic value proxies.

Dynamic symbolic execution by re-execution: a harness is a Python function; every
truth test on a symbolic value is a decision which z3 resolves.  The set of paths is
explored depth first and completely (or the run is reported as incomplete).  An
assertion `check(c)` is discharged by the solver on each path: path /\ not c unsat.
"""
import os
import sys
import time as _time
import z3
from fractions import Fraction
import decimal as _decimal

SITES = {} if os.environ.get("SYMX_SITES") else None


def _site():
    """development aid: where paths fork"""
    import sys
    f, out = sys._getframe(2), []
    while f is not None and len(out) < 4:
        n = f.f_code.co_filename
        if "/symx/" not in n or not out:
            out.append("%s:%d %s" % (n.rsplit("/", 1)[-1], f.f_lineno, f.f_code.co_name))
        f = f.f_back
    k = " < ".join(out)
    SITES[k] = SITES.get(k, 0) + 1

_now = _time.monotonic

# ---------------------------------------------------------------- exceptions
class Steer(BaseException):
    """exceptions which steer exploration; not visible to `except Exception`"""
    symx_control = True

class PathInfeasible(Steer):
    pass

class PathDone(Steer):
    pass

class FoundViolation(Steer):
    def __init__(self, label, inputs, detail=""):
        self.label, self.inputs, self.detail = label, inputs, detail

class EngineError(Steer):
    """the encoding cannot express something"""

class Fuel(Steer):
    """step budget of one path exhausted: candidate for non-termination"""

class Budget(Steer):
    """job budget (time/paths) exhausted: exploration incomplete"""

class Inconclusive(Steer):
    pass


class _Ev:
    __slots__ = ("kind", "cond", "taken", "alt", "framed", "payload")

    def __init__(self, kind, cond, taken, alt, framed, payload=None):
        self.kind, self.cond, self.taken, self.alt, self.framed, self.payload = (
            kind, cond, taken, alt, framed, payload)


class Engine:
    def __init__(self, timeout_ms=60000, max_steps=400000, deadline=None, max_paths=None):
        z3.set_param("smt.random_seed", 1)
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.trace = []
        self.pos = 0
        self.model = None
        self.stats = dict(paths=0, infeasible=0, decisions=0, queries=0, solver_s=0.0,
                          obligations=0, discharged=0, assumes=0, concretizations=0, forks=0)
        self.max_steps = max_steps
        self.deadline = deadline
        self.max_paths = max_paths
        self.functions = {}
        self.reached = set()
        self.reset_path()
        self.vars = {}

    # ---- per path state
    def reset_path(self):
        self.pos = 0
        self.steps = 0
        self.fresh_n = 0
        self.uid = 0
        self.inputs = {}        # name -> (kind, data) for model extraction
        self.observations = []
        self.symkeys = False
        self.hash_uid = 0
        self.digits_cache = {}
        self.hashes = {}        # function name -> list of (arg, var)
        self.path_cache = {}    # arbitrary per path storage (lru caches, vfs ..)
        self.known = {}
        self.phase = "harness"

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.max_steps:
            raise Fuel()
        if self.deadline and (self.steps & 1023) == 0 and _now() > self.deadline:
            raise Budget("time")

    # ---- solver
    def _check(self, *assumptions):
        t = _now()
        r = self.solver.check(*assumptions)
        self.stats["queries"] += 1
        self.stats["solver_s"] += _now() - t
        if r == z3.unknown:
            raise Inconclusive("solver unknown: %s" % self.solver.reason_unknown())
        return r == z3.sat

    def _push(self, c):
        self.solver.push()
        self.solver.add(c)

    def get_model(self):
        if self.model is None:
            if not self._check():
                raise PathInfeasible()
            self.model = self.solver.model()
        return self.model

    def fresh(self, sort="Int", hint="t"):
        self.fresh_n += 1
        name = "%s!%d" % (hint, self.fresh_n)
        return self.var(name, sort)

    def var(self, name, sort="Int"):
        v = self.vars.get((name, sort))
        if v is None:
            v = {"Int": z3.Int, "Bool": z3.Bool, "Real": z3.Real}[sort](name)
            self.vars[(name, sort)] = v
        return v

    def assume(self, cond):
        """add a constraint (input domains, stub contracts)"""
        if cond is True:
            return
        if cond is False:
            raise PathInfeasible()
        if isinstance(cond, SymBool):
            cond = cond.z
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathInfeasible()
        if self.pos < len(self.trace):
            ev = self.trace[self.pos]
            if ev.kind != "A" or not ev.cond.eq(cond):
                raise EngineError("non-deterministic re-execution (assume)\n%s\n%s" % (ev.cond, cond))
            self.pos += 1
            return
        self.stats["assumes"] += 1
        self._push(cond)
        self.trace.append(_Ev("A", cond, True, False, True))
        self.pos += 1
        if self.model is not None:
            if not z3.is_true(self.model.eval(cond, model_completion=True)):
                self.model = None
                self.get_model()

    def branch(self, cond):
        """decide a z3 boolean on the current path"""
        self.tick()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.trace):
            ev = self.trace[self.pos]
            if ev.kind != "D" or not ev.cond.eq(cond):
                raise EngineError("non-deterministic re-execution (branch)\n%s\n%s" % (ev.cond, cond))
            self.pos += 1
            return ev.taken
        if self.deadline and _now() > self.deadline:
            raise Budget("time")
        self.stats["decisions"] += 1
        m = self.get_model()
        first = z3.is_true(m.eval(cond, model_completion=True))
        neg = z3.Not(cond)
        alt = None
        if self._check(neg if first else cond):
            alt = self.solver.model()
        if alt is not None:
            self.stats["forks"] += 1
            if SITES is not None:
                _site()
            self._push(cond if first else neg)
            self.trace.append(_Ev("D", cond, first, alt, True))
        else:
            self.trace.append(_Ev("D", cond, first, None, False))
        self.pos += 1
        return first

    def payload(self, compute):
        """a value derived from a model; recorded so re-execution repeats it"""
        if self.pos < len(self.trace):
            ev = self.trace[self.pos]
            if ev.kind != "P":
                raise EngineError("non-deterministic re-execution (payload)")
            self.pos += 1
            return ev.payload
        v = compute()
        self.trace.append(_Ev("P", None, True, None, False, v))
        self.pos += 1
        return v

    def backtrack(self):
        """move to the next unexplored path; False when exhausted"""
        while self.trace:
            ev = self.trace.pop()
            if ev.framed:
                self.solver.pop()
            if ev.kind == "D" and ev.alt is not None:
                taken = not ev.taken
                self._push(ev.cond if taken else z3.Not(ev.cond))
                self.trace.append(_Ev("D", ev.cond, taken, None, True))
                self.model = ev.alt
                return True
        return False

    # ---- assertions
    def prove(self, cond):
        """True if cond holds for all values on this path, else a model of the negation"""
        self.stats["obligations"] += 1
        if cond is True:
            self.stats["discharged"] += 1
            return True
        if cond is False:
            return self.get_model()
        z = z3.simplify(cond)
        if z3.is_true(z):
            self.stats["discharged"] += 1
            return True
        if self._check(z3.Not(z)):
            return self.solver.model()
        self.stats["discharged"] += 1
        return True

    def holds(self, z):
        """does z follow from the path condition?  (not an obligation)"""
        z = z3.simplify(z)
        return z3.is_true(z) or not self._check(z3.Not(z))

    def extract(self, model):
        out = {}
        for name, (kind, data) in self.inputs.items():
            out[name] = _extract(kind, data, model)
        return out

    # ---- concretization (solver enumerated)
    def concrete_int(self, z):
        if isinstance(z, int):
            return z
        z = z3.simplify(z)
        if z3.is_int_value(z):
            return z.as_long()
        self.stats["concretizations"] += 1
        n = 0
        while True:
            v = self.payload(lambda: self.get_model().eval(z, model_completion=True).as_long())
            if self.branch(z == v):
                return v
            n += 1
            if n > 4096:
                raise Budget("concretization of an unbounded value")


def _extract(kind, data, model):
    ev = lambda e: model.eval(e, model_completion=True)
    if kind == "int":
        return ev(data).as_long()
    if kind == "bool":
        return z3.is_true(ev(data))
    if kind == "str":
        return [c if isinstance(c, int) else ev(c.e).as_long() for c in data]
    raise EngineError(kind)


E = None  # current engine


def set_engine(e):
    global E
    E = e


# ------------------------------------------------------------------ helpers
def zbool(x):
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, bool):
        return z3.BoolVal(x)
    raise EngineError("not a boolean: %r" % (type(x),))


def mkbool(z):
    if isinstance(z, bool):
        return z
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def s_not(x):
    if isinstance(x, SymBool):
        return SymBool(z3.Not(x.z))
    return not x


def s_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x.z)
        elif not x:
            return False
    if not out:
        return True
    return SymBool(out[0] if len(out) == 1 else z3.And(*out))


def s_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x.z)
        elif x:
            return True
    if not out:
        return False
    return SymBool(out[0] if len(out) == 1 else z3.Or(*out))


def s_ite(c, a, b):
    """merge two ints/bools"""
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.simplify(z3.If(c.z, zbool(a), zbool(b))))
    return mkint(z3.If(c.z, zint(a), zint(b)))


def zint(x):
    t = type(x)
    if t is SymInt:
        return x.z
    if t is int:
        return z3.IntVal(x)
    if t is bool:
        return z3.IntVal(int(x))
    if t is SymBool:
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, int):
        return z3.IntVal(int(x))
    raise EngineError("not an int: %r" % (type(x),))


def mkint(z):
    if isinstance(z, int):
        return z
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(z)


def zreal(x):
    t = type(x)
    if t is SymReal:
        return x.z
    if t is SymInt:
        return z3.ToReal(x.z)
    if t is SymBool:
        return z3.If(x.z, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, (bool, int)):
        return z3.RealVal(int(x))
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise EngineError("non finite float in arithmetic")
        f = Fraction(x)
        return z3.RealVal(f.numerator) / z3.RealVal(f.denominator)
    if isinstance(x, _decimal.Decimal):
        f = Fraction(x)
        return z3.RealVal(f.numerator) / z3.RealVal(f.denominator)
    raise EngineError("not a number: %r" % (type(x),))


class Sym:
    """base of all symbolic proxies"""
    __slots__ = ("_h",)

    def __hash__(self):
        h = getattr(self, "_h", None)
        if h is None:
            if E.hash_uid:
                E.uid += 1
                h = 0x5EED0000000 + E.uid * 0x10001
                E.symkeys = True
            else:
                h = hash(concretize(self))
            self._h = h
        return h

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise EngineError("pickling a symbolic value")


# ------------------------------------------------------------------ booleans
class SymBool(Sym):
    __slots__ = ("z",)
    __class__ = property(lambda self: bool)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return E.branch(self.z)

    def __repr__(self):
        return repr(bool(self))

    __str__ = __repr__

    def __and__(self, o):
        if isinstance(o, bool):
            return s_and(self, o)
        return SymInt(zint(self)) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return s_or(self, o)
        return SymInt(zint(self)) | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return mkbool(z3.Xor(self.z, zbool(o)))
        return SymInt(zint(self)) ^ o

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, bool):
            return mkbool(z3.simplify(self.z == zbool(o)))
        if isinstance(o, _NUM):
            return SymInt(zint(self)) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else s_not(r)

    __hash__ = Sym.__hash__

    def _i(self):
        return SymInt(zint(self))

    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o
    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    def __rmul__(self, o): return o * self._i()
    def __neg__(self): return -self._i()
    def __pos__(self): return self._i()
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __invert__(self): return ~self._i()
    def __truediv__(self, o): return self._i() / o
    def __rtruediv__(self, o): return o / self._i()
    def __floordiv__(self, o): return self._i() // o
    def __mod__(self, o): return self._i() % o


_NUM = (int, float, _decimal.Decimal)  # note: isinstance consults __class__


def _isnum(o):
    return isinstance(o, _NUM) or type(o) is SymReal


def _is_realish(o):
    return type(o) is SymReal or (isinstance(o, (float, _decimal.Decimal)))


def _num_cmp(a, b, op):
    if _is_realish(a) or _is_realish(b):
        for x, y, sgn in ((a, b, 1), (b, a, -1)):
            if type(x) in (float, _decimal.Decimal):
                xf = float(x)
                if xf != xf:
                    return op == "ne"
                if xf in (float("inf"), float("-inf")):
                    # compare with an arbitrary finite value
                    lo = -1 if xf > 0 else 1
                    u, v = ((0, lo) if sgn == 1 else (lo, 0))
                    return _cmp_py(u, v, op)
        x, y = zreal(a), zreal(b)
    else:
        x, y = zint(a), zint(b)
    z = {"eq": lambda: x == y, "ne": lambda: x != y, "lt": lambda: x < y,
         "le": lambda: x <= y, "gt": lambda: x > y, "ge": lambda: x >= y}[op]()
    return mkbool(z3.simplify(z))


def _cmp_py(u, v, op):
    return {"eq": u == v, "ne": u != v, "lt": u < v, "le": u <= v, "gt": u > v, "ge": u >= v}[op]


def hash_xor(a, b):
    """exclusive or of hash values, in a canonical form: (constant, set of hash variables) -> variable.
    Like the hashes themselves it is taken to be free of collisions"""
    terms = E.path_cache.get("hashterms")
    if not terms:
        return None
    const, vs = 0, {}
    for x in (a, b):
        if type(x) is int:
            const ^= x
            continue
        t = terms.get(x.z.get_id()) if type(x) is SymInt else None
        if t is None:
            return None
        const ^= t[0]
        for k, v in t[1].items():
            if vs.pop(k, None) is None:
                vs[k] = v
    if not vs:
        return const
    if const == 0 and len(vs) == 1:
        return SymInt(next(iter(vs.values())))
    cache = E.path_cache.setdefault("hashxors", {})
    key = (const, tuple(sorted(vs)))
    if key not in cache:
        z = E.fresh("Int", "xor")
        E.assume(z3.And(z >= 0, z < (1 << 64)))
        new = list(vs.values())
        for (c2, _), (z2, vs2) in cache.items():
            if len(vs2) == len(new) <= 3:
                import itertools
                same = z3.Or([z3.And([x == y for x, y in zip(new, p)]) for p in itertools.permutations(vs2)])
                E.assume((z == z2) == (same if c2 == const else z3.BoolVal(False)))
        cache[key] = (z, new)
        terms[z.get_id()] = (const, dict(vs))
    return SymInt(cache[key][0])


class SymInt(Sym):
    __slots__ = ("z",)
    __class__ = property(lambda self: int)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return E.branch(self.z != 0)

    def __index__(self):
        return E.concrete_int(self.z)

    __int__ = __index__

    def __float__(self):
        return float(E.concrete_int(self.z))

    def __repr__(self):
        return str(E.concrete_int(self.z))

    __str__ = __repr__

    def __format__(self, spec):
        return format(E.concrete_int(self.z), spec)

    __hash__ = Sym.__hash__

    def __eq__(self, o):
        return _num_cmp(self, o, "eq") if _isnum(o) else NotImplemented

    def __ne__(self, o):
        return _num_cmp(self, o, "ne") if _isnum(o) else NotImplemented

    def __lt__(self, o):
        return _num_cmp(self, o, "lt") if _isnum(o) else NotImplemented

    def __le__(self, o):
        return _num_cmp(self, o, "le") if _isnum(o) else NotImplemented

    def __gt__(self, o):
        return _num_cmp(self, o, "gt") if _isnum(o) else NotImplemented

    def __ge__(self, o):
        return _num_cmp(self, o, "ge") if _isnum(o) else NotImplemented

    def __add__(self, o):
        if _is_realish(o):
            return _real_arith(self, o, "+")
        if not isinstance(o, int):
            return NotImplemented
        return mkint(self.z + zint(o))

    __radd__ = __add__

    def __sub__(self, o):
        if _is_realish(o):
            return _real_arith(self, o, "-")
        if not isinstance(o, int):
            return NotImplemented
        return mkint(self.z - zint(o))

    def __rsub__(self, o):
        if _is_realish(o):
            return _real_arith(o, self, "-")
        if not isinstance(o, int):
            return NotImplemented
        return mkint(zint(o) - self.z)

    def __mul__(self, o):
        if _is_realish(o):
            return _real_arith(self, o, "*")
        if isinstance(o, (str, bytes, list, tuple, bytearray)):
            return o * E.concrete_int(self.z)
        if not isinstance(o, int):
            return NotImplemented
        return mkint(self.z * zint(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return _real_arith(self, o, "/")

    def __rtruediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return _real_arith(o, self, "/")

    def __floordiv__(self, o):
        if _is_realish(o):
            return s_floor(_real_arith(self, o, "/"))
        if not isinstance(o, int):
            return NotImplemented
        return _divmod(self, o)[0]

    def __rfloordiv__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return _divmod(o, self)[0]

    def __mod__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return _divmod(self, o)[1]

    def __rmod__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return _divmod(o, self)[1]

    def __divmod__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return _divmod(self, o)

    def __rdivmod__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return _divmod(o, self)

    def __neg__(self):
        return mkint(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.z >= 0, self.z, -self.z))

    def __invert__(self):
        return mkint(-self.z - 1)

    def __pow__(self, o, mod=None):
        if type(o) is int and 0 <= o <= 4 and mod is None:
            r = z3.IntVal(1)
            for _ in range(o):
                r = r * self.z
            return mkint(r)
        return pow(E.concrete_int(self.z), E.concrete_int(zint(o)))

    def __rpow__(self, o):
        return o ** E.concrete_int(self.z)

    def __and__(self, o):
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            return mkint(self.z % (o + 1))
        if type(o) is int and o > 0:
            low = (o & -o).bit_length() - 1
            if (o >> low) & ((o >> low) + 1) == 0:
                return ((self // (1 << low)) & (o >> low)) * (1 << low)
        if type(o) is int and o < 0 and -o & (-o - 1) == 0:
            return self - self % -o
        return _bitop(self, o, lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, o):
        r = _disjoint(self, o)
        return r if r is not None else _bitop(self, o, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, o):
        r = hash_xor(self, o)
        if r is None:
            r = _disjoint(self, o)
        return r if r is not None else _bitop(self, o, lambda a, b: a ^ b)

    __rxor__ = __xor__

    def __lshift__(self, o):
        return self * (1 << E.concrete_int(zint(o)))

    def __rlshift__(self, o):
        return o << E.concrete_int(self.z)

    def __rshift__(self, o):
        return self // (1 << E.concrete_int(zint(o)))

    def __rrshift__(self, o):
        return o >> E.concrete_int(self.z)

    def __round__(self, nd=None):
        if nd is None or (type(nd) is int and nd >= 0):
            return self
        return round(E.concrete_int(self.z), nd)

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def is_integer(self):
        return True

    def bit_length(self):
        return E.concrete_int(self.z).bit_length()

    def to_bytes(self, *a, **k):
        if len(a) == 2 and type(a[0]) is int and a[1] == "big" and not k:
            if self < 0 or self >= 1 << (8 * a[0]):
                raise OverflowError("int too big to convert")
            from .rope import Rope, Seg
            return Rope([Seg("int", self, a[0], True)])
        return E.concrete_int(self.z).to_bytes(*a, **k)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    numerator = real
    denominator = property(lambda self: 1)

    def conjugate(self):
        return self


def _twos(z):
    """a k for which 2**k certainly divides z"""
    if z3.is_int_value(z):
        v = z.as_long()
        return 1000 if v == 0 else (v & -v).bit_length() - 1
    if z3.is_mul(z):
        return sum(_twos(c) for c in z.children())
    if z3.is_add(z) or z3.is_sub(z):
        return min(_twos(c) for c in z.children())
    return 0


def _disjoint(a, b):
    """a | b where the bits of the two cannot overlap"""
    if not isinstance(b, int):
        return None
    za, zb = zint(a), zint(b)
    for x, y in ((za, zb), (zb, za)):
        k = _twos(z3.simplify(x))
        if k == 1000:
            return mkint(y)
        if k:
            if E.holds(z3.And(y >= 0, y < (1 << k))):
                return mkint(x + y)
    return None


def _bitop(a, b, f):
    if not isinstance(b, int):
        return NotImplemented
    # 64 bit two's complement encoding; operands are asserted to be in range
    za, zb = zint(a), zint(b)
    lim = 1 << 64
    rng = z3.And(za >= 0, za < lim, zb >= 0, zb < lim)
    if not E.holds(rng):
        return f(E.concrete_int(za), E.concrete_int(zb))
    return mkint(z3.BV2Int(f(z3.Int2BV(za, 64), z3.Int2BV(zb, 64))))


def _divmod(a, b):
    za, zb = zint(a), zint(b)
    zb = z3.simplify(zb)
    if z3.is_int_value(zb):
        c = zb.as_long()
        if c == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if c > 0:
            return mkint(za / zb), mkint(za % zb)
        return mkint((-za) / (-zb)), mkint(-((-za) % (-zb)))
    if E.branch(zb == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if E.branch(zb > 0):
        return mkint(za / zb), mkint(za % zb)
    return mkint((-za) / (-zb)), mkint(-((-za) % (-zb)))


def _real_arith(a, b, op):
    dec = any(isinstance(x, _decimal.Decimal) or (type(x) is SymReal and x.kind == "decimal") for x in (a, b))
    x, y = zreal(a), zreal(b)
    if op == "+":
        z = x + y
    elif op == "-":
        z = x - y
    elif op == "*":
        z = x * y
    else:
        if E.branch(y == 0):
            if dec:
                raise _decimal.DivisionByZero()
            raise ZeroDivisionError("division by zero")
        z = x / y
    return SymReal(z3.simplify(z), "decimal" if dec else "float")


def s_floor(x):
    if type(x) is SymReal:
        return mkint(z3.ToInt(x.z))
    return x


def s_trunc(x):
    if type(x) is SymReal:
        return mkint(z3.If(x.z >= 0, z3.ToInt(x.z), -z3.ToInt(-x.z)))
    return x


class SymReal(Sym):
    """float / Decimal modelled as an exact real"""
    __slots__ = ("z", "kind")

    @property
    def __class__(self):
        return _decimal.Decimal if self.kind == "decimal" else float

    def __init__(self, z, kind="float"):
        self.z, self.kind = z, kind

    def _conc(self):
        z = z3.simplify(self.z)
        n = 0
        while True:
            def compute():
                v = E.get_model().eval(z, model_completion=True)
                return Fraction(v.numerator_as_long(), v.denominator_as_long())
            v = E.payload(compute)
            if E.branch(z == z3.RealVal(v.numerator) / z3.RealVal(v.denominator)):
                if self.kind == "decimal":
                    return _decimal.Decimal(v.numerator) / _decimal.Decimal(v.denominator)
                return v.numerator / v.denominator
            n += 1
            if n > 4096:
                raise Budget("concretization of a real")

    def __bool__(self):
        return E.branch(self.z != 0)

    def __float__(self):
        return float(self._conc())

    def __int__(self):
        return int(self._conc())

    def __repr__(self):
        return repr(self._conc())

    def __str__(self):
        return str(self._conc())

    def __format__(self, spec):
        return format(self._conc(), spec)

    __hash__ = Sym.__hash__

    def __eq__(self, o):
        return _num_cmp(self, o, "eq") if _isnum(o) else NotImplemented

    def __ne__(self, o):
        return _num_cmp(self, o, "ne") if _isnum(o) else NotImplemented

    def __lt__(self, o):
        return _num_cmp(self, o, "lt") if _isnum(o) else NotImplemented

    def __le__(self, o):
        return _num_cmp(self, o, "le") if _isnum(o) else NotImplemented

    def __gt__(self, o):
        return _num_cmp(self, o, "gt") if _isnum(o) else NotImplemented

    def __ge__(self, o):
        return _num_cmp(self, o, "ge") if _isnum(o) else NotImplemented

    def _ar(self, o, op):
        if not _isnum(o):
            return NotImplemented
        return _real_arith(self, o, op)

    def _rar(self, o, op):
        if not _isnum(o):
            return NotImplemented
        return _real_arith(o, self, op)

    def __add__(self, o): return self._ar(o, "+")
    def __radd__(self, o): return self._rar(o, "+")
    def __sub__(self, o): return self._ar(o, "-")
    def __rsub__(self, o): return self._rar(o, "-")
    def __mul__(self, o): return self._ar(o, "*")
    def __rmul__(self, o): return self._rar(o, "*")
    def __truediv__(self, o): return self._ar(o, "/")
    def __rtruediv__(self, o): return self._rar(o, "/")

    def __floordiv__(self, o):
        r = s_floor(self._ar(o, "/"))
        return SymReal(zreal(r), self.kind)

    def __mod__(self, o):
        q = s_floor(self._ar(o, "/"))
        return self - q * o

    def __neg__(self): return SymReal(z3.simplify(-self.z), self.kind)
    def __pos__(self): return self

    def __abs__(self):
        return SymReal(z3.simplify(z3.If(self.z >= 0, self.z, -self.z)), self.kind)

    def __trunc__(self): return s_trunc(self)
    def __floor__(self): return s_floor(self)
    def __ceil__(self): return mkint(-z3.ToInt(-self.z))

    def __round__(self, nd=None):
        if nd is None:
            # round half even
            f = z3.ToInt(self.z)
            d = self.z - z3.ToReal(f)
            half = z3.RealVal(1) / z3.RealVal(2)
            up = z3.Or(d > half, z3.And(d == half, f % 2 == 1))
            return mkint(z3.If(up, f + 1, f))
        return round(self._conc(), nd)

    def is_integer(self):
        return mkbool(z3.simplify(z3.IsInt(self.z)))

    def quantize(self, *a, **k):
        return self._conc().quantize(*a, **k)


# ------------------------------------------------------------------ strings
class Ch:
    """symbolic code point with an explicit finite domain"""
    __slots__ = ("e", "d")

    def __init__(self, e, d):
        self.e, self.d = e, d


def _setcond(e, values):
    """z3 condition e in values (ints), as ranges"""
    vs = sorted(values)
    parts = []
    i = 0
    while i < len(vs):
        j = i
        while j + 1 < len(vs) and vs[j + 1] == vs[j] + 1:
            j += 1
        parts.append(e == vs[i] if i == j else z3.And(e >= vs[i], e <= vs[j]))
        i = j + 1
    if not parts:
        return z3.BoolVal(False)
    return parts[0] if len(parts) == 1 else z3.Or(*parts)


def ch_test(c, pred):
    """condition (bool or z3) that code point c satisfies pred"""
    if isinstance(c, int):
        return bool(pred(c))
    good = [v for v in c.d if pred(v)]
    if len(good) == len(c.d):
        return True
    if not good:
        return False
    return _setcond(c.e, good)


def ch_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b not in a.d:
            return False
        if len(a.d) == 1:
            return True
        return a.e == b
    if a is b or a.e.eq(b.e):
        return True
    if not (set(a.d) & set(b.d)):
        return False
    return a.e == b.e


def decide(c):
    """bool or z3 -> bool (may fork)"""
    if isinstance(c, bool):
        return c
    return E.branch(c)


def ch_map(c, f):
    """apply a 1:1 code point mapping"""
    if isinstance(c, int):
        return f(c)
    img = {v: f(v) for v in c.d}
    if all(k == v for k, v in img.items()):
        return c
    deltas = {}
    for k, v in img.items():
        deltas.setdefault(v - k, []).append(k)
    items = sorted(deltas.items(), key=lambda kv: len(kv[1]))
    e = c.e + items[-1][0] if items[-1][0] else c.e
    for dlt, ks in items[:-1]:
        e = z3.If(_setcond(c.e, ks), c.e + dlt if dlt else c.e, e)
    d = tuple(sorted(set(img.values())))
    if len(d) == 1:
        return d[0]
    return Ch(z3.simplify(e), d)


def ch_refine(c, values):
    """same code point known (by the path) to be inside values"""
    d = tuple(v for v in c.d if v in values)
    if len(d) == 1:
        return d[0]
    return Ch(c.e, d)


def cs_eq(a, b):
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        r = ch_eq(x, y)
        if r is False:
            return False
        if r is not True:
            out.append(r)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def mkstr(cs):
    cs = tuple(cs)
    for c in cs:
        if type(c) is not int:
            return SymStr(cs)
    return "".join(map(chr, cs))


def chars(s):
    if type(s) is SymStr:
        return s.cs
    if isinstance(s, str):
        return tuple(map(ord, s))
    raise TypeError("expected str, got %s" % type(s).__name__)


def _lt_z(a, b, orequal):
    """lexicographic order as a z3 bool / bool"""
    n = min(len(a), len(b))
    tail = (len(a) <= len(b)) if orequal else (len(a) < len(b))
    r = z3.BoolVal(tail)
    for i in range(n - 1, -1, -1):
        x, y = a[i], b[i]
        ex = z3.IntVal(x) if isinstance(x, int) else x.e
        ey = z3.IntVal(y) if isinstance(y, int) else y.e
        r = z3.If(ex == ey, r, ex < ey)
    return z3.simplify(r)


_WS = None


def is_space(v):
    return chr(v).isspace()


class SymStr(Sym):
    __slots__ = ("_cs", "_thunk")
    __class__ = property(lambda self: str)

    def __init__(self, cs, thunk=None):
        self._cs = cs
        self._thunk = thunk

    @property
    def cs(self):
        if self._cs is None:
            t, self._thunk = self._thunk, None
            self._cs = t()
        return self._cs

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return len(self.cs) > 0

    def __str__(self):
        return concretize(self)

    def __repr__(self):
        return repr(concretize(self))

    def __format__(self, spec):
        return format(concretize(self), spec)

    __hash__ = Sym.__hash__

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        if self is o:
            return True
        r = cs_eq(self.cs, chars(o))
        return mkbool(r)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else s_not(r)

    def __lt__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkbool(_lt_z(self.cs, chars(o), False))

    def __le__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkbool(_lt_z(self.cs, chars(o), True))

    def __gt__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkbool(_lt_z(chars(o), self.cs, False))

    def __ge__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkbool(_lt_z(chars(o), self.cs, True))

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(self.cs + chars(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(chars(o) + self.cs)

    def __mul__(self, n):
        return mkstr(self.cs * n.__index__())

    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*(None if x is None else x.__index__() for x in (i.start, i.stop, i.step)))
            return mkstr(self.cs[i])
        return mkstr((self.cs[i.__index__()],))

    def __iter__(self):
        for c in self.cs:
            yield mkstr((c,))

    def __contains__(self, sub):
        return bool(str_contains(self, sub))

    def __mod__(self, args):
        raise EngineError("symbolic format string")

    def __getnewargs__(self):
        return (concretize(self),)

    # ---- queries
    def _all(self, pred):
        if not self.cs:
            return False
        return s_and(*[mkbool(ch_test(c, pred)) for c in self.cs])

    def isalpha(self): return self._all(lambda v: chr(v).isalpha())
    def isdigit(self): return self._all(lambda v: chr(v).isdigit())
    def isdecimal(self): return self._all(lambda v: chr(v).isdecimal())
    def isnumeric(self): return self._all(lambda v: chr(v).isnumeric())
    def isalnum(self): return self._all(lambda v: chr(v).isalnum())
    def isspace(self): return self._all(lambda v: chr(v).isspace())
    def isprintable(self): return s_and(*[mkbool(ch_test(c, lambda v: chr(v).isprintable())) for c in self.cs])
    def isascii(self): return s_and(*[mkbool(ch_test(c, lambda v: v < 128)) for c in self.cs])

    def isidentifier(self): return concretize(self).isidentifier()
    def isupper(self):
        return s_and(s_or(*[mkbool(ch_test(c, lambda v: chr(v).isupper())) for c in self.cs]),
                     *[mkbool(ch_test(c, lambda v: not (chr(v).islower() or chr(v).istitle()))) for c in self.cs])

    def islower(self):
        return s_and(s_or(*[mkbool(ch_test(c, lambda v: chr(v).islower())) for c in self.cs]),
                     *[mkbool(ch_test(c, lambda v: not (chr(v).isupper() or chr(v).istitle()))) for c in self.cs])

    def _casemap(self, f):
        out = []
        for c in self.cs:
            if isinstance(c, int):
                out.extend(map(ord, f(chr(c))))
                continue
            multi = [v for v in c.d if len(f(chr(v))) != 1]
            for v in multi:
                if decide(ch_eq(c, v)):
                    out.extend(map(ord, f(chr(v))))
                    break
            else:
                if multi:
                    c = ch_refine(c, set(c.d) - set(multi))
                out.append(c if isinstance(c, int) and False else ch_map(c, lambda v: ord(f(chr(v)))))
        return mkstr(out)

    def upper(self): return self._casemap(str.upper)
    def lower(self): return self._casemap(str.lower)
    def casefold(self): return self._casemap(str.casefold)
    def swapcase(self): return self._casemap(str.swapcase)

    def title(self): return concretize(self).title()

    def capitalize(self):
        if not self.cs:
            return ""
        return mkstr(chars(mkstr(self.cs[:1])._casemap(str.title) if isinstance(self.cs[0], Ch) else chr(self.cs[0]).title())
                     + chars(s_lower(mkstr(self.cs[1:]))))

    # ---- strip
    def _strip_pred(self, arg):
        if arg is None:
            return lambda c: ch_test(c, is_space)
        ac = chars(arg)

        def p(c):
            rs = [ch_eq(c, a) for a in ac]
            if any(r is True for r in rs):
                return True
            rs = [r for r in rs if r is not False]
            if not rs:
                return False
            return z3.Or(*rs)
        return p

    def lstrip(self, arg=None):
        p = self._strip_pred(arg)
        i = 0
        while i < len(self.cs) and decide(p(self.cs[i])):
            i += 1
        return mkstr(self.cs[i:])

    def rstrip(self, arg=None):
        p = self._strip_pred(arg)
        i = len(self.cs)
        while i > 0 and decide(p(self.cs[i - 1])):
            i -= 1
        return mkstr(self.cs[:i])

    def strip(self, arg=None):
        r = self.lstrip(arg)
        return s_call(r, "rstrip", arg)

    # ---- searching
    def _at(self, i, sub):
        return cs_eq(self.cs[i:i + len(sub)], sub)

    def _rng(self, start, end):
        s = slice(None if start is None else start.__index__(), None if end is None else end.__index__())
        a, b, _ = s.indices(len(self.cs))
        return a, b

    def find(self, sub, start=None, end=None):
        sub = chars(sub)
        a, b = self._rng(start, end)
        for i in range(a, b - len(sub) + 1):
            if decide(self._at(i, sub)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = chars(sub)
        a, b = self._rng(start, end)
        for i in range(b - len(sub), a - 1, -1):
            if decide(self._at(i, sub)):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        sub = chars(sub)
        a, b = self._rng(start, end)
        if not sub:
            return max(0, b - a + 1)
        n, i = 0, a
        while i + len(sub) <= b:
            if decide(self._at(i, sub)):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        a, b = self._rng(start, end)
        if isinstance(p, tuple):
            return s_or(*[self.startswith(x, start, end) for x in p])
        pc = chars(p)
        if b - a < len(pc):
            return False
        return mkbool(self._at(a, pc))

    def endswith(self, p, start=None, end=None):
        a, b = self._rng(start, end)
        if isinstance(p, tuple):
            return s_or(*[self.endswith(x, start, end) for x in p])
        pc = chars(p)
        if b - a < len(pc):
            return False
        return mkbool(self._at(b - len(pc), pc))

    def removeprefix(self, p):
        if self.startswith(p):
            return mkstr(self.cs[len(p):])
        return self

    def removesuffix(self, p):
        if p and self.endswith(p):
            return mkstr(self.cs[:len(self.cs) - len(p)])
        return self

    def replace(self, old, new, count=-1):
        oc, nc = chars(old), chars(new)
        out = []
        i, n = 0, 0
        cs = self.cs
        if not oc:
            for j, c in enumerate(cs):
                if count < 0 or n < count:
                    out.extend(nc)
                    n += 1
                out.append(c)
            if count < 0 or n < count:
                out.extend(nc)
            return mkstr(out)
        while i < len(cs):
            if (count < 0 or n < count) and i + len(oc) <= len(cs) and decide(self._at(i, oc)):
                out.extend(nc)
                i += len(oc)
                n += 1
            else:
                out.append(cs[i])
                i += 1
        return mkstr(out)

    def split(self, sep=None, maxsplit=-1):
        cs = self.cs
        out = []
        if sep is None:
            i, n = 0, len(cs)
            while True:
                while i < n and decide(ch_test(cs[i], is_space)):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(s_call(mkstr(cs[i:]), "rstrip"))
                    break
                j = i
                while j < n and not decide(ch_test(cs[j], is_space)):
                    j += 1
                out.append(mkstr(cs[i:j]))
                i = j
            return out
        sc = chars(sep)
        if not sc:
            raise ValueError("empty separator")
        i = j = 0
        while j + len(sc) <= len(cs):
            if (maxsplit < 0 or len(out) < maxsplit) and decide(self._at(j, sc)):
                out.append(mkstr(cs[i:j]))
                j += len(sc)
                i = j
            else:
                j += 1
        out.append(mkstr(cs[i:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            return concretize(self).rsplit(sep, maxsplit)
        sc = chars(sep)
        cs = self.cs
        out = []
        end = len(cs)
        j = end - len(sc)
        while j >= 0:
            if len(out) < maxsplit and decide(self._at(j, sc)):
                out.append(mkstr(cs[j + len(sc):end]))
                end = j
                j -= len(sc)
            else:
                j -= 1
        out.append(mkstr(cs[:end]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (mkstr(self.cs[:i]), sep, mkstr(self.cs[i + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (mkstr(self.cs[:i]), sep, mkstr(self.cs[i + len(sep):]))

    def splitlines(self, keepends=False):
        brk = set(map(ord, "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"))
        out, cur = [], []
        cs = self.cs
        i = 0
        while i < len(cs):
            c = cs[i]
            if decide(ch_test(c, lambda v: v in brk)):
                end = [c]
                if i + 1 < len(cs) and decide(ch_eq(c, 13)) and decide(ch_eq(cs[i + 1], 10)):
                    end.append(cs[i + 1])
                    i += 1
                out.append(mkstr(cur + (end if keepends else [])))
                cur = []
            else:
                cur.append(c)
            i += 1
        if cur:
            out.append(mkstr(cur))
        return out

    def join(self, it):
        return str_join(self, it)

    # ---- padding
    def ljust(self, w, fill=" "):
        return mkstr(self.cs + chars(fill) * max(0, w.__index__() - len(self.cs)))

    def rjust(self, w, fill=" "):
        return mkstr(chars(fill) * max(0, w.__index__() - len(self.cs)) + self.cs)

    def center(self, w, fill=" "):
        w = w.__index__()
        pad = max(0, w - len(self.cs))
        left = pad // 2 + (pad & w & 1)
        return mkstr(chars(fill) * left + self.cs + chars(fill) * (pad - left))

    def zfill(self, w):
        w = w.__index__()
        if len(self.cs) >= w:
            return self
        pad = (48,) * (w - len(self.cs))
        if self.cs and decide(ch_test(self.cs[0], lambda v: v in (43, 45))):
            return mkstr(self.cs[:1] + pad + self.cs[1:])
        return mkstr(pad + self.cs)

    def expandtabs(self, n=8):
        return concretize(self).expandtabs(n)

    def translate(self, table):
        out = []
        for c in self.cs:
            v = c if isinstance(c, int) else E.concrete_int(c.e)
            out.append(chr(v).translate(table))
        return str_join("", out)

    def encode(self, encoding="utf-8", errors="strict"):
        from . import rope
        return rope.encode_str(self, encoding, errors)

    def format(self, *a, **k):
        return concretize(self).format(*a, **k)

    def maketrans(self, *a):
        return str.maketrans(*a)


def s_call(s, name, *a):
    return getattr(s, name)(*a)


def s_lower(s):
    return s.lower()


def str_join(sep, it):
    items = list(it)
    if type(sep) is str and all(type(x) is str for x in items):
        return sep.join(items)
    if any(not isinstance(x, str) for x in items):
        bad = [(i, x) for i, x in enumerate(items) if not isinstance(x, str)][0]
        raise TypeError("sequence item %d: expected str instance, %s found" % (bad[0], pytype(bad[1]).__name__))
    sc = chars(sep)
    out = []
    for i, x in enumerate(items):
        if i:
            out.extend(sc)
        out.extend(chars(x))
    return mkstr(out)


def str_contains(s, sub):
    """s, sub: str or SymStr; returns bool/SymBool without forking"""
    if not isinstance(sub, str):
        raise TypeError("'in <string>' requires string as left operand, not %s" % pytype(sub).__name__)
    a, b = chars(s), chars(sub)
    if not b:
        return True
    if len(b) == 1 and not isinstance(b[0], int) and all(isinstance(c, int) for c in a):
        vals = set(a)
        return mkbool(ch_test(b[0], lambda v: v in vals))
    rs = []
    for i in range(len(a) - len(b) + 1):
        r = cs_eq(a[i:i + len(b)], b)
        if r is True:
            return True
        if r is not False:
            rs.append(r)
    if not rs:
        return False
    return SymBool(rs[0] if len(rs) == 1 else z3.Or(*rs))


def pytype(x):
    """the Python type a value stands for"""
    t = type(x)
    if t in SYM_TYPES:
        return x.__class__
    return t


SYM_TYPES = {SymBool, SymInt, SymReal, SymStr}


# ------------------------------------------------------------------ conversions
def int_digits(z):
    """code points of a non negative symbolic int in base 10 (forks on the digit count)"""
    return int_digits_base(z, 10)


def int_digits_base(z, base):
    z = z3.simplify(z)
    key = (z.get_id(), base)
    hit = E.digits_cache.get(key)
    if hit is not None:
        return hit[0]
    n = 1
    while E.branch(z >= base ** n):
        n += 1
        if n > 40:
            raise Budget("digits of an unbounded int")
    cs = []
    total = z3.IntVal(0)
    dom10 = tuple(range(48, 58))
    for i in range(n):
        d = E.fresh("Int", "dig")
        lo = 1 if (i == n - 1 and n > 1) else 0
        E.assume(z3.And(d >= lo, d <= base - 1))
        total = total + d * (base ** i)
        if base == 10:
            cs.append(Ch(d + 48, dom10))
        else:
            cs.append(Ch(z3.If(d < 10, d + 48, d + 87), dom10 + tuple(range(97, 97 + base - 10))))
    E.assume(z == total)
    cs = tuple(reversed(cs))
    E.digits_cache[key] = (cs, z)
    return cs


def int_to_str(x, base=10):
    if type(x) is not SymInt:
        return str(x) if base == 10 else format(x, "x")
    if E.branch(x.z < 0):
        return mkstr((45,) + int_digits_base(z3.simplify(-x.z), base))
    return mkstr(int_digits_base(x.z, base))


def _digit_val(c):
    """z3/int decimal value of a code point known to be a decimal digit"""
    import unicodedata
    if isinstance(c, int):
        return unicodedata.decimal(chr(c))
    m = ch_map(c, lambda v: unicodedata.decimal(chr(v), 0))
    return m if isinstance(m, int) else m.e


def str_to_int(s, base=10):
    s0 = s
    if type(s) is str:
        return int(s, base)
    if base != 10:
        return int(concretize(s), base)
    cs = chars(s.strip())
    bad = lambda: ValueError("invalid literal for int() with base 10")
    sign = 1
    if cs and decide(ch_eq(cs[0], 45)):
        sign, cs = -1, cs[1:]
    elif cs and decide(ch_eq(cs[0], 43)):
        cs = cs[1:]
    if not cs:
        raise bad()
    val = 0
    prev_digit = False
    isdec = lambda v: chr(v).isdecimal()
    for c in cs:
        if decide(ch_test(c, isdec)):
            if not isinstance(c, int):
                c = ch_refine(c, {v for v in c.d if isdec(v)})
            val = val * 10 + _digit_val(c)
            prev_digit = True
        elif decide(ch_eq(c, 95)):
            if not prev_digit:
                raise bad()
            prev_digit = False
        else:
            raise bad()
    if not prev_digit:
        raise bad()
    return mkint(sign * val) if not isinstance(val, int) else sign * val


def str_to_float(s):
    if type(s) is str:
        return float(s)
    cs = chars(s.strip())
    shape = []
    digits = []
    isdec = lambda v: chr(v).isdecimal()
    for c in cs:
        if decide(ch_test(c, isdec)):
            if not isinstance(c, int):
                c = ch_refine(c, {v for v in c.d if isdec(v)})
            shape.append("0")
            digits.append(_digit_val(c))
        else:
            v = c if isinstance(c, int) else E.concrete_int(c.e)
            shape.append(chr(v))
            digits.append(None)
    f = float("".join(shape))  # ValueError when not a float
    if all(d is None for d in digits):
        return f
    # shape is a numeric literal: [sign] digits [. digits] [e [sign] digits]
    sign, i = 1, 0
    if shape[0] in "+-":
        sign, i = (-1 if shape[0] == "-" else 1), 1
    mant, frac, infrac, exp = 0, 0, False, 0
    while i < len(shape):
        ch = shape[i]
        if ch == "0":
            mant = mant * 10 + digits[i]
            frac += 1 if infrac else 0
        elif ch == ".":
            infrac = True
        elif ch == "_":
            pass
        elif ch in "eE":
            rest = "".join(str(d if isinstance(d, int) else E.concrete_int(d)) if d is not None else c
                           for c, d in zip(shape[i + 1:], digits[i + 1:]))
            exp = int(rest)
            break
        i += 1
    m = z3.ToReal(mant) if not isinstance(mant, int) else z3.RealVal(mant)
    p = exp - frac
    z = m * z3.RealVal(10 ** p) if p >= 0 else m / z3.RealVal(10 ** -p)
    return SymReal(z3.simplify(z if sign > 0 else -z), "float")


def concretize(x):
    t = type(x)
    if t is SymInt:
        return E.concrete_int(x.z)
    if t is SymBool:
        return E.branch(x.z)
    if t is SymStr:
        return "".join(chr(c if isinstance(c, int) else E.concrete_int(c.e)) for c in x.cs)
    if t is SymReal:
        return x._conc()
    if hasattr(t, "_symx_concretize"):
        return x._symx_concretize()
    return x


def model_value(x, model):
    """value of x (deep) under a model, as plain Python"""
    t = type(x)
    ev = lambda e: model.eval(e, model_completion=True)
    if t is SymInt:
        return ev(x.z).as_long()
    if t is SymBool:
        return z3.is_true(ev(x.z))
    if t is SymReal:
        v = ev(x.z)
        try:
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        except Exception:
            return str(v)
    if t is SymStr:
        return "".join(chr(c if isinstance(c, int) else ev(c.e).as_long()) for c in x.cs)
    if hasattr(t, "_symx_value"):
        return x._symx_value(lambda y: model_value(y, model))
    if t is list or t is tuple:
        return t(model_value(i, model) for i in x)
    if isinstance(x, dict):
        return {model_value(k, model): model_value(v, model) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return {model_value(i, model) for i in x}
    return x
