"""
symx.rt - the runtime which instrumented code calls: dispatch of calls, methods,
subscripts, membership, formatting and displays over symbolic values, with models of
the C builtins.  Anything not modelled falls back to solver enumerated concretization of
its symbolic arguments, which keeps the exploration exhaustive.
"""
import builtins
import collections
import copy as _copy
import decimal
import functools
import io
import itertools
import math
import mmap
import struct
import operator
import queue
import re
import statistics
import sys
import types

import z3

from . import core
from .core import (Sym, SymBool, SymInt, SymReal, SymStr, Ch, EngineError, mkstr, chars, mkint, mkbool, zint,
                   s_and, s_or, s_not, concretize, str_contains, str_join, pytype, SYM_TYPES)
from . import rope as _rope
from .rope import Rope, SymText, BigText, Seg, norm

_MISSING = object()
_FT = types.FunctionType
_MT = types.MethodType
_BFT = types.BuiltinFunctionType
_CONTAINERS = (list, tuple, dict, set, frozenset)


def is_sym(x):
    return type(x) in SYM_TYPES


def has_sym(x, depth=0):
    t = type(x)
    if t in SYM_TYPES:
        return True
    if t in _VIEWS:
        x = list(x)
        t = list
    if t in (str, int, float, bool, bytes, type(None), _FT):
        return False
    if depth > 12:
        return False
    if t is list or t is tuple or t is set or t is frozenset:
        for i in x:
            if has_sym(i, depth + 1):
                return True
        return False
    if isinstance(x, dict):
        for k, v in x.items():
            if has_sym(k, depth + 1) or has_sym(v, depth + 1):
                return True
        return False
    if isinstance(x, (list, tuple, set, frozenset, collections.deque)):
        for i in x:
            if has_sym(i, depth + 1):
                return True
        return False
    h = getattr(t, "_symx_has_sym", None)
    if h is not None:
        return h(x)
    return False


def deep_concretize(x):
    t = type(x)
    if t in SYM_TYPES:
        return concretize(x)
    if not has_sym(x):
        return x
    if t is list:
        return [deep_concretize(i) for i in x]
    if t is tuple:
        return tuple(deep_concretize(i) for i in x)
    if t is set:
        return {deep_concretize(i) for i in x}
    if t is frozenset:
        return frozenset(deep_concretize(i) for i in x)
    if isinstance(x, dict):
        r = _copy.copy(x)
        r.clear()
        for k, v in x.items():
            r[deep_concretize(k)] = deep_concretize(v)
        return r
    if hasattr(t, "_symx_has_sym"):
        return x
    return x


def deep_eq(a, b):
    """Python == over structures, as bool/SymBool, forking as little as possible"""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta in SYM_TYPES or tb in SYM_TYPES:
        r = a == b
        return r
    if ta in (list, tuple) and tb is ta:
        if len(a) != len(b):
            return False
        rs = []
        for x, y in zip(a, b):
            r = deep_eq(x, y)
            if r is False:
                return False
            rs.append(r)
        return s_and(*rs)
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        rs = []
        for k, v in a.items():
            kk = find_key(b, k)
            if kk is _MISSING:
                return False
            r = deep_eq(v, raw_get(b, kk))
            if r is False:
                return False
            rs.append(r)
        return s_and(*rs)
    if isinstance(a, _SETISH) and isinstance(b, _SETISH) and (core.E.symkeys or has_sym(a) or has_sym(b)):
        # members of a set are pairwise distinct
        if len(a) != len(b):
            return False
        return _subset(a, b)
    return a == b


# ------------------------------------------------------------------ dict / set with symbolic keys
class _uid:
    def __enter__(self):
        core.E.hash_uid += 1

    def __exit__(self, *a):
        core.E.hash_uid -= 1


UID = _uid()


def raw_get(d, k):
    with UID:
        return dict.__getitem__(d, k)


def _anysym(k):
    return has_sym(k)


def find_key(d, k):
    """the key object of dict/set d equal to k, or _MISSING"""
    if not core.E.symkeys and not _anysym(k):
        # fully concrete
        if isinstance(d, dict):
            return k if dict.__contains__(d, k) else _MISSING
        return k if k in d else _MISSING
    try:
        if k.__hash__ is None:
            raise TypeError("unhashable type: '%s'" % pytype(k).__name__)
    except AttributeError:
        pass
    if type(k) in (list, dict, set):
        raise TypeError("unhashable type: '%s'" % pytype(k).__name__)
    if not _anysym(k):
        with UID:
            if isinstance(d, dict):
                if dict.__contains__(d, k):
                    return k
            elif k in d:
                return k
        for kk in list(d):
            if _anysym(kk) and builtins.bool(deep_eq(kk, k)):
                return kk
        return _MISSING
    for kk in list(d):
        if kk is k:
            return kk
    for kk in list(d):
        r = deep_eq(kk, k)
        if r is False:
            continue
        if builtins.bool(r):
            return kk
    return _MISSING


def _symd(d, k):
    return core.E is not None and (core.E.symkeys or _anysym(k))


def dict_get(d, k):
    kk = find_key(d, k)
    if kk is _MISSING:
        miss = getattr(type(d), "__missing__", None)
        if miss is not None and isinstance(d, collections.defaultdict):
            if d.default_factory is None:
                raise KeyError(k)
            v = call(d.default_factory)
            dict_set(d, k, v)
            return v
        if miss is not None:
            return miss(d, k)
        raise KeyError(k)
    return raw_get(d, kk)


def _raw(d):
    return collections.OrderedDict if isinstance(d, collections.OrderedDict) else dict


def dict_set(d, k, v):
    kk = find_key(d, k)
    if kk is _MISSING:
        kk = k
    with UID:
        _raw(d).__setitem__(d, kk, v)
    if _anysym(kk):
        core.E.symkeys = True


def dict_del(d, k):
    kk = find_key(d, k)
    if kk is _MISSING:
        raise KeyError(k)
    with UID:
        _raw(d).__delitem__(d, kk)


def set_add(s, k):
    if find_key(s, k) is _MISSING:
        with UID:
            s.add(k)
        if _anysym(k):
            core.E.symkeys = True


def mkset(items):
    items = list(items)
    if core.E is None or not (core.E.symkeys or any(_anysym(i) for i in items)):
        return set(items)
    s = set()
    for i in items:
        set_add(s, i)
    return s


def mkdict(items, base=None):
    d = {} if base is None else base
    for it in items:
        if len(it) == 1:
            src = it[0]
            keys = src.keys() if hasattr(src, "keys") else None
            if keys is None:
                raise TypeError("'%s' object is not a mapping" % pytype(src).__name__)
            for k in list(keys):
                si(d, k, gi(src, k))
        else:
            si(d, it[0], it[1])
    return d


def _dict_method(d, name, a, k):
    if name in ("get", "__getitem__", "__contains__", "setdefault", "pop", "__setitem__", "__delitem__", "has_key"):
        if not a:
            return getattr(d, name)(*a, **k)
        key = a[0]
        if not _symd(d, key):
            return getattr(d, name)(*a, **k)
        if name == "get":
            kk = find_key(d, key)
            dflt = a[1] if len(a) > 1 else None
            return dflt if kk is _MISSING else raw_get(d, kk)
        if name == "__getitem__":
            return dict_get(d, key)
        if name == "__contains__":
            return find_key(d, key) is not _MISSING
        if name == "setdefault":
            kk = find_key(d, key)
            if kk is not _MISSING:
                return raw_get(d, kk)
            v = a[1] if len(a) > 1 else None
            dict_set(d, key, v)
            return v
        if name == "pop":
            kk = find_key(d, key)
            if kk is _MISSING:
                if len(a) > 1:
                    return a[1]
                raise KeyError(key)
            v = raw_get(d, kk)
            with UID:
                _raw(d).__delitem__(d, kk)
            return v
        if name == "__setitem__":
            return dict_set(d, key, a[1])
        if name == "__delitem__":
            return dict_del(d, key)
    if name == "update":
        if isinstance(d, collections.Counter):
            return _counter_update(d, *a, **k)
        for src in a:
            if hasattr(src, "keys"):
                for kk in list(src.keys()):
                    si(d, kk, gi(src, kk))
            else:
                for kk, v in src:
                    si(d, kk, v)
        for kk, v in k.items():
            si(d, kk, v)
        return None
    with UID:
        return getattr(d, name)(*a, **k)


def _counter_update(c, it=None, **k):
    if it is not None:
        if isinstance(it, dict):
            for kk, v in it.items():
                si(c, kk, _dict_method(c, "get", (kk, 0), {}) + v)
        else:
            for x in it:
                si(c, x, _dict_method(c, "get", (x, 0), {}) + 1)
    for kk, v in k.items():
        si(c, kk, _dict_method(c, "get", (kk, 0), {}) + v)


def _set_method(s, name, a, k):
    if name in ("add",):
        return set_add(s, a[0])
    if name in ("discard", "remove"):
        kk = find_key(s, a[0])
        if kk is _MISSING:
            if name == "remove":
                raise KeyError(a[0])
            return None
        with UID:
            s.discard(kk)
        return None
    if name == "__contains__":
        return find_key(s, a[0]) is not _MISSING
    if name == "update":
        for it in a:
            for x in it:
                set_add(s, x)
        return None
    if name in ("union", "intersection", "difference", "issubset", "issuperset", "isdisjoint",
                "symmetric_difference", "difference_update", "intersection_update"):
        others = [list(it) for it in a]
        if not (core.E.symkeys or has_sym(others)):
            return getattr(s, name)(*a)
        if name == "union":
            return mkset(list(s) + [x for o in others for x in o])
        inall = lambda x: builtins.all(any_eq(x, o) for o in others)
        if name == "intersection":
            return mkset([x for x in s if inall(x)])
        if name == "difference":
            return mkset([x for x in s if not builtins.any(any_eq(x, o) for o in others)])
        if name == "issubset":
            return builtins.all(any_eq(x, others[0]) for x in s)
        if name == "issuperset":
            return builtins.all(any_eq(x, list(s)) for x in others[0])
        if name == "isdisjoint":
            return not builtins.any(any_eq(x, others[0]) for x in s)
        if name in ("intersection_update", "difference_update"):
            keep = [x for x in s if (inall(x) if name[0] == "i" else not builtins.any(any_eq(x, o) for o in others))]
            with UID:
                s.clear()
                s.update(keep)
            return None
        if name == "symmetric_difference":
            return _setop("BitXor", s, mkset(others[0]))
        raise EngineError("set.%s with symbolic members" % name)
    with UID:
        return getattr(s, name)(*a, **k)


def any_eq(x, items):
    for y in items:
        if builtins.bool(deep_eq(x, y)):
            return True
    return False


# ------------------------------------------------------------------ subscripts
def gi(o, i):
    t = type(o)
    if isinstance(o, dict) and t.__getitem__ is dict.__getitem__ or t is collections.defaultdict:
        if _symd(o, i):
            return dict_get(o, i)
        return o[i]
    if type(i) is SymInt:
        if t in (list, tuple):
            n = len(o)
            if n and n <= 512 and builtins.all(type(x) in (int, bool) or type(x) is SymInt for x in o):
                # table lookup as an if-then-else chain
                if builtins.bool(s_or(i < -n, i >= n)):
                    raise IndexError("list index out of range")
                if builtins.bool(i < 0):
                    i = i + n
                    if type(i) is int:
                        return o[i]
                e = zint(o[-1])
                for j in range(n - 2, -1, -1):
                    e = z3.If(i.z == j, zint(o[j]), e)
                return mkint(e)
            return o[i.__index__()]
        if t is str:
            # constant string indexed by a symbolic position
            if builtins.bool(s_or(i < -len(o), i >= len(o))):
                raise IndexError("string index out of range")
            return o[i.__index__()]
    if t is types.GenericAlias:
        return o[i]
    return o[i]


def si(o, i, v):
    t = type(o)
    if isinstance(o, dict) and t.__setitem__ in (dict.__setitem__, collections.OrderedDict.__setitem__):
        if _symd(o, i):
            return dict_set(o, i, v)
        o[i] = v
        return
    o[i] = v


def di(o, i):
    if isinstance(o, dict) and _symd(o, i):
        return dict_del(o, i)
    del o[i]


_AUG = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "Div": operator.itruediv,
        "FloorDiv": operator.ifloordiv, "Mod": operator.imod, "BitAnd": operator.iand, "BitOr": operator.ior,
        "BitXor": operator.ixor, "LShift": operator.ilshift, "RShift": operator.irshift, "Pow": operator.ipow,
        "MatMult": operator.imatmul}


_BIN = {"Sub": operator.sub, "BitAnd": operator.and_, "BitOr": operator.or_, "BitXor": operator.xor, "Mod": operator.mod}
_VIEWS = (type({}.keys()), type({}.items()))
_SETISH = (set, frozenset) + _VIEWS


def _setop(op, a, b):
    """set algebra where members may be symbolic; None when it is not set algebra"""
    if isinstance(a, _SETISH) and isinstance(b, _SETISH):
        la, lb = list(a), list(b)
        if op == "Sub":
            r = [x for x in la if not any_eq(x, lb)]
        elif op == "BitAnd":
            r = [x for x in la if any_eq(x, lb)]
        elif op == "BitOr":
            r = la + lb
        elif op == "BitXor":
            r = [x for x in la if not any_eq(x, lb)] + [x for x in lb if not any_eq(x, la)]
        else:
            return None
        s = mkset(r)
        return _frozen(s) if type(a) is frozenset else s
    if op == "BitOr" and isinstance(a, dict) and isinstance(b, dict) and not isinstance(a, collections.Counter):
        with UID:
            d = _copy.copy(a)
        for k in list(b.keys()):
            si(d, k, raw_get(b, k))
        return d
    return None


def _frozen(s):
    with UID:
        return frozenset(s)


_PLAIN = (int, str, float, bool, bytes, type(None), SymInt, SymStr, SymBool)


def bin_(op, a, b):
    if type(a) not in _PLAIN and core.E is not None and core.E.symkeys:
        r = _setop(op, a, b)
        if r is not None:
            return r
    return _BIN[op](a, b)


def aug2(op, a, b):
    if op == "Mod":
        return mod(a, b) if isinstance(a, (str, bytes)) or type(a) is SymStr else _AUG[op](a, b)
    if type(a) not in _PLAIN and core.E is not None and (core.E.symkeys or has_sym(b)):
        r = _setop(op, a, b)
        if r is not None:
            if type(a) in (set, dict):
                with UID:
                    a.clear()
                    a.update(r)
                return a
            return r
    return _AUG[op](a, b)


_CMP = {"Eq": operator.eq, "NotEq": operator.ne, "Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge}


def _subset(a, b):
    lb = list(b)
    return s_and(*[_member(x, lb) for x in list(a)])


def cmp(op, a, b):
    ta = type(a)
    if ta in _PLAIN or core.E is None:
        return _CMP[op](a, b)
    if op == "Eq" or op == "NotEq":
        if (ta is list or ta is tuple) and type(b) is ta or isinstance(a, dict) and isinstance(b, dict) and ta.__eq__ in _NATIVE_DEQ \
                or isinstance(a, _SETISH) and isinstance(b, _SETISH):
            if core.E.symkeys or has_sym(a) or has_sym(b):
                r = deep_eq(a, b)
                return r if op == "Eq" else s_not(r)
    elif isinstance(a, _SETISH) and isinstance(b, _SETISH) and core.E.symkeys:
        if op == "LtE":
            return _subset(a, b)
        if op == "GtE":
            return _subset(b, a)
        if op == "Lt":
            return s_and(_subset(a, b), len(a) < len(b))
        return s_and(_subset(b, a), len(b) < len(a))
    return _CMP[op](a, b)


_NATIVE_DEQ = (dict.__eq__, collections.OrderedDict.__eq__)


def aug(o, i, op, v):
    si(o, i, aug2(op, gi(o, i), v) if op in _BIN else _AUG[op](gi(o, i), v))


# ------------------------------------------------------------------ membership, identity, not
def contains(x, c):
    t = type(c)
    if t is SymStr or t is str:
        if t is str and type(x) is str:
            return x in c
        if type(x) is SymText or type(x) is BigText:
            raise EngineError("substring test with opaque text")
        return str_contains(c, x)
    if isinstance(c, (dict, set, frozenset)) and t not in (collections.UserDict,):
        if core.E is None or not (core.E.symkeys or _anysym(x)):
            return x in c
        if type(x) in (list, dict, set):
            raise TypeError("unhashable type: '%s'" % pytype(x).__name__)
        return _member(x, list(c))
    if t in (type({}.keys()),):
        if core.E is None or not (core.E.symkeys or _anysym(x)):
            return x in c
        return _member(x, list(c))
    if t in (list, tuple):
        if core.E is None or not (has_sym(x) or has_sym(c)):
            return x in c
        return _member(x, c)
    if type(x) in SYM_TYPES and t in (bytes, bytearray):
        return concretize(x) in c
    f = getattr(t, "__contains__", None)
    if f is not None and isinstance(f, _FT):
        return builtins.bool(f(c, x))
    return x in c


def _member(x, items):
    rs = []
    for y in items:
        r = True if x is y else deep_eq(x, y)
        if r is True:
            return True
        if r is False:
            continue
        if type(r) is not SymBool:
            r = builtins.bool(r)
            if r:
                return True
            continue
        rs.append(r)
    return s_or(*rs)


def sx_in(x, c):
    return contains(x, c)


def sx_nin(x, c):
    return s_not(contains(x, c))


def sx_is(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is SymBool and (tb is bool or tb is SymBool) or tb is SymBool and ta is bool:
        return a == b
    if ta is SymInt and (tb is int or tb is SymInt) or tb is SymInt and ta is int:
        # small integers are interned by CPython: -5..256
        e = a == b
        if e is False:
            return False
        x = a if ta is SymInt else b
        return s_and(e, x >= -5, x <= 256)
    if ta is SymStr and tb in (str, SymStr) or tb is SymStr and ta is str:
        if len(a) != len(b):
            return False
        if len(a) <= 1:
            return a == b
        return False
    return False


def sx_isn(a, b):
    return s_not(sx_is(a, b))


# ------------------------------------------------------------------ formatting
_IMMUT = (str, int, float, bool, bytes, type(None), decimal.Decimal)


def to_str(x):
    t = type(x)
    if t is str:
        return x
    if t is SymStr or t is SymText or t is BigText:
        return x
    if t is SymInt:
        return core.int_to_str(x)
    if t is SymBool:
        return "True" if x else "False"
    if t in (list, tuple, dict, set, frozenset) and has_sym(x):
        return to_repr(x)
    if t is SymReal:
        return str(concretize(x))
    f = getattr(t, "__str__", None)
    if isinstance(f, _FT):
        return f(x)
    if f is object.__str__ and isinstance(getattr(t, "__repr__", None), _FT):
        return t.__repr__(x)
    if isinstance(x, BaseException) and has_sym(x.args):
        if len(x.args) == 1 and t.__str__ is BaseException.__str__:
            return to_str(x.args[0])
        return builtins.str(type(x)(*deep_concretize(x.args)))
    return builtins.str(x)


def to_repr(x):
    t = type(x)
    if t is SymInt:
        return core.int_to_str(x)
    if t is SymBool:
        return "True" if x else "False"
    if t is SymStr:
        # printable without quotes/backslash: '...'
        plain = s_and(*[mkbool(core.ch_test(c, lambda v: chr(v).isprintable() and v not in (39, 92))) for c in x.cs])
        if builtins.bool(plain):
            return mkstr((39,) + x.cs + (39,))
        return repr(concretize(x))
    if t in SYM_TYPES:
        return repr(concretize(x))
    if t in (list, tuple, dict, set, frozenset) and has_sym(x):
        if t is list:
            return str_join("", ["[", str_join(", ", [to_repr(i) for i in x]), "]"])
        if t is tuple:
            inner = str_join(", ", [to_repr(i) for i in x])
            return str_join("", ["(", inner, ",)" if len(x) == 1 else ")"])
        if t is dict:
            return str_join("", ["{", str_join(", ", [str_join("", [to_repr(k), ": ", to_repr(v)]) for k, v in x.items()]), "}"])
        return builtins.repr(deep_concretize(x))
    f = getattr(t, "__repr__", None)
    if isinstance(f, _FT):
        return f(x)
    return builtins.repr(x)


_SPEC = re.compile(r"^(?:(.)?([<>=^]))?([+\- ])?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?$", re.S)


def to_format(v, spec):
    t = type(v)
    if type(spec) is SymStr:
        spec = concretize(spec)
    if t not in SYM_TYPES:
        f = getattr(t, "__format__", None)
        if isinstance(f, _FT):
            return f(v, spec)
        if spec == "":
            return to_str(v)
        return format(v, spec)
    if spec == "":
        return to_str(v)
    m = _SPEC.match(spec)
    if not m:
        return format(concretize(v), spec)
    fill, align, sign, alt, zero, width, comma, prec, typ = m.groups()
    width = int(width) if width else 0
    if t is SymStr and not (sign or alt or comma or prec or (typ and typ != "s")):
        fill = fill or ("0" if zero else " ")
        return {"<": v.ljust, ">": v.rjust, "^": v.center}.get(align or "<", v.ljust)(width, fill)
    if t is SymInt and not (sign or alt or comma or prec) and (typ in (None, "d", "x", "X", "n")) and align in (None, ">", "="):
        if type(v >= 0) is SymBool and not builtins.bool(v >= 0):
            return format(concretize(v), spec)
        s = core.int_to_str(v, 16 if typ in ("x", "X") else 10)
        if typ == "X":
            s = s.upper()
        if zero:
            return method(s, "zfill", width)
        return method(s, "rjust", width, fill or " ")
    return format(concretize(v), spec)


def _fmt_part(p):
    v, conv, spec = p
    if conv == 114:
        v = to_repr(v)
    elif conv == 115:
        v = to_str(v)
    elif conv == 97:
        v = ascii(deep_concretize(v))
    return to_format(v, spec)


def _deferrable(v):
    t = type(v)
    return t in SYM_TYPES and t not in (SymText, BigText, Rope) or t in _IMMUT or getattr(t, "_symx_immutable", False)


def fstr(*parts):
    sym = False
    defer = True
    for p in parts:
        if type(p) is tuple:
            v = p[0]
            if has_sym(v):
                sym = True
            if not _deferrable(v):
                defer = False
            if type(p[2]) is not str:
                sym = True
    if sym and defer:
        return SymStr(None, lambda: _fstr_cs(parts))
    out = [p if type(p) is str else _fmt_part(p) for p in parts]
    return opaque_join(out)


def opaque_join(out):
    """concatenate; supports opaque text pieces"""
    if any(type(x) in (SymText, BigText) for x in out):
        r = Rope([])
        for x in out:
            r = r + (x.rope if type(x) is SymText else (x.encode() if type(x) is not str else x.encode()))
        return SymText(r)
    return str_join("", out)


def _fstr_cs(parts):
    s = str_join("", [p if type(p) is str else _fmt_part(p) for p in parts])
    return chars(s)


def mod(a, b):
    if isinstance(a, str) and has_sym(b) or type(a) is SymStr:
        return _percent(a, b)
    if isinstance(a, (bytes, bytearray)) and has_sym(b):
        if isinstance(b, tuple):
            return a % tuple(concretize(x) for x in b)
        return a % deep_concretize(b)
    return a % b


_PCT = re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<width>\d+)?(?:\.(?P<prec>\d+))?(?P<typ>[diouxXeEfFgGcrsa%])")


def _percent(fmt, args):
    if type(fmt) is SymStr:
        fmt = concretize(fmt)
    if not isinstance(args, (tuple, dict)):
        args = (args,)
    out, pos, n = [], 0, 0
    for m in _PCT.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m["typ"] == "%":
            out.append("%")
            continue
        v = args[m["key"]] if m["key"] is not None else args[n]
        n += 1
        if m["typ"] in "sr" or m["typ"] in "di" and isinstance(v, int):
            s = to_repr(v) if m["typ"] == "r" else to_str(v)
            if m["prec"]:
                s = s[:int(m["prec"])]
            w = int(m["width"] or 0)
            if "-" in m["flags"]:
                s = method(s, "ljust", w)
            elif "0" in m["flags"] and m["typ"] in "di":
                s = method(s, "zfill", w)
            else:
                s = method(s, "rjust", w)
            out.append(s)
        elif m["typ"] in "xX" and type(v) is SymInt:
            s = core.int_to_str(v, 16)
            if m["typ"] == "X":
                s = s.upper()
            w = int(m["width"] or 0)
            out.append(method(s, "zfill" if "0" in m["flags"] else "rjust", w))
        else:
            out.append(("%" + m["flags"] + (m["width"] or "") + ("." + m["prec"] if m["prec"] else "") + m["typ"]) % deep_concretize(v))
    out.append(fmt[pos:])
    return opaque_join(out)


# ------------------------------------------------------------------ call dispatch
OVERRIDE = {}        # id(native callable) -> model


def override(fn):
    def deco(model):
        OVERRIDE[id(fn)] = (fn, model)
        return model
    return deco


BUILTIN = {}


def model_of(*fns):
    def deco(f):
        for fn in fns:
            BUILTIN[fn] = f
        return f
    return deco


def _instrumented(f):
    return "__symx__" in f.__globals__


def call(f, *a, **k):
    tf = type(f)
    if tf is _FT:
        if "__symx__" in f.__globals__ or f.__module__ is None or f.__globals__.get("__name__") == "contextlib":
            return f(*a, **k)
        o = OVERRIDE.get(id(f))
        if o is not None:
            return o[1](*a, **k)
        if getattr(f, "__symx_ok__", False) or f.__module__.startswith("symx"):
            return f(*a, **k)
        w = getattr(f, "__wrapped__", None)
        return _native(f, a, k)
    if tf is _MT:
        fn = f.__func__
        if type(fn) is _FT:
            if "__symx__" in fn.__globals__ or fn.__globals__.get("__name__") == "contextlib":
                return f(*a, **k)
            o = OVERRIDE.get(id(fn))
            if o is not None:
                return o[1](f.__self__, *a, **k)
            if fn.__module__ and fn.__module__.startswith("symx"):
                return f(*a, **k)
            return _native(f, a, k)
        return call(fn, f.__self__, *a, **k)
    if core.E is None:
        return f(*a, **k)
    try:
        m = BUILTIN.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    o = OVERRIDE.get(id(f))
    if o is not None:
        return o[1](*a, **k)
    if tf is _BFT:
        s = getattr(f, "__self__", None)
        if type(s) in _SPECIAL or isinstance(s, dict) and f.__name__ in _DICT_METHODS and not _overrides(type(s), f.__name__):
            return method(s, f.__name__, *a, **k)
        if isinstance(s, _SAFE_OWNER):
            return f(*a, **k)
        return _native(f, a, k)
    if isinstance(f, type):
        return _construct(f, a, k)
    if tf is functools.partial:
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    if tf in (types.MethodDescriptorType, types.WrapperDescriptorType):
        if a:
            return method_desc(f, a, k)
    if tf is types.MethodWrapperType:
        s = f.__self__
        if isinstance(s, dict) and f.__name__ in _DICT_METHODS and (core.E.symkeys or has_sym(a)):
            return _dict_method(s, f.__name__, a, k)
        if type(s) is str and has_sym(a):
            return getattr(SymStr(chars(s)), f.__name__)(*a)
        return f(*a, **k)
    c = getattr(tf, "__call__", None)
    if type(c) is _FT:
        if "__symx__" in c.__globals__ or (c.__module__ or "").startswith("symx"):
            return f(*a, **k)
        return _native(f, a, k)
    if tf in (operator.itemgetter, operator.attrgetter, operator.methodcaller):
        if tf is operator.itemgetter:
            keys = f.__reduce__()[1]
            r = tuple(gi(a[0], kk) for kk in keys)
            return r[0] if len(r) == 1 else r
        return f(*a, **k)
    return _native(f, a, k)


def method_desc(f, a, k):
    """unbound method of a builtin type, e.g. str.lower, dict.get"""
    return method(a[0], f.__name__, *a[1:], **k)


# natively safe with proxies: they only use the object protocol
SAFE = set()


def safe(*fns):
    for f in fns:
        SAFE.add(f)


TOKENS = UNTOKEN = TO_NATIVE = FROM_NATIVE = None


def _tok(x):
    """opaque bytes crossing into a native file-like object"""
    t = type(x)
    if t is Rope:
        return TOKENS(x)
    if t in (list, tuple) and builtins.any(type(i) is Rope for i in x):
        return t(_tok(i) for i in x)
    return x


_FILEISH = (io.IOBase, mmap.mmap)


def _native(f, a, k):
    E = core.E
    try:
        if f in SAFE:
            return f(*a, **k)
    except TypeError:
        pass
    if E is None:
        return f(*a, **k)
    owner = getattr(f, "__self__", None)
    fileish = isinstance(owner, _FILEISH) or isinstance(f, type) and issubclass(f, _FILEISH) or \
        type(owner).__module__ in ("tempfile", "_io", "mmap")
    if fileish:
        a = tuple(_tok(x) for x in a)
        k = {kk: _tok(v) for kk, v in k.items()}
    if has_sym(a) or has_sym(tuple(k.values())):
        E.stats["native_fallback"] = E.stats.get("native_fallback", 0) + 1
        nf = E.stats.setdefault("native_fallback_fns", {})
        nm = getattr(f, "__qualname__", repr(f))
        nf[nm] = nf.get(nm, 0) + 1
        a = tuple(deep_concretize(x) for x in a)
        k = {kk: deep_concretize(v) for kk, v in k.items()}
    a = tuple(TO_NATIVE(x) for x in a)
    k = {kk: TO_NATIVE(v) for kk, v in k.items()}
    r = f(*a, **k)
    if fileish:
        r = UNTOKEN(r)
    return FROM_NATIVE(r)


def it(x):
    """iterable of a for loop / comprehension"""
    if core.E is not None and isinstance(x, _FILEISH):
        return map(UNTOKEN, x)
    return x


def deco(f):
    """a decorator written without a call"""
    if f is functools.lru_cache:
        return lambda g: Lru(g, 128, False)
    if f is functools.cache:
        return lambda g: Lru(g, None, False)
    return f


def _construct(f, a, k):
    if issubclass(f, BaseException):
        return f(*a, **k)
    md = sys.modules.get(f.__module__)
    if md is not None and md.__dict__.get("__symx__"):
        return f(*a, **k)
    if f.__module__ in ("builtins",):
        return _native(f, a, k)
    if f.__module__.startswith("symx"):
        return f(*a, **k)
    return _native(f, a, k)


def method(obj, name, *a, **k):
    t = type(obj)
    if t in SYM_TYPES:
        if t is SymStr:
            if name == "join":
                return str_join(obj, *a)
            if name == "format":
                return str_format(concretize(obj), a, k)
        if name == "hexdigest":
            pass
        return getattr(obj, name)(*a, **k)
    if t is str:
        if core.E is None:
            return getattr(obj, name)(*a, **k)
        if name == "join":
            items = list(a[0])
            if any(type(x) in SYM_TYPES for x in items):
                if any(type(x) in (SymText, BigText) for x in items):
                    out = []
                    for i, x in enumerate(items):
                        if i:
                            out.append(obj)
                        out.append(x)
                    return opaque_join(out)
                return str_join(obj, items)
            return obj.join(items)
        if name == "format_map" and has_sym(a):
            return str_format(obj, (), dict(a[0]))
        if name == "format":
            if has_sym(a) or has_sym(k):
                return str_format(obj, a, k)
            return obj.format(*a, **k)
        for x in a:
            if has_sym(x):
                return getattr(SymStr(chars(obj)), name)(*a, **k)
        return getattr(obj, name)(*a, **k)
    if t is dict or isinstance(obj, dict) and name in _DICT_METHODS and not _overrides(t, name):
        if core.E is not None and (core.E.symkeys or a and has_sym(a) or k and has_sym(k)) and name in _DICT_METHODS:
            return _dict_method(obj, name, a, k)
        return getattr(obj, name)(*a, **k)
    if t is set or t is frozenset:
        if core.E is not None and (core.E.symkeys or a and (has_sym(a) or name in _SET_BULK)):
            return _set_method(obj, name, a, k)
        return getattr(obj, name)(*a, **k)
    if t is bytearray or t is bytes:
        if core.E is not None and name in ("join", "extend", "writelines") and a and type(a[0]) not in (list, tuple, bytes, bytearray, Rope):
            a = (list(a[0]),) + a[1:]
        if core.E is not None and any(_ropish(x) for x in a):
            return _bytes_method(obj, name, a, k)
        if core.E is not None and a and has_sym(a):
            return getattr(obj, name)(*deep_concretize(a), **k)
        return getattr(obj, name)(*a, **k)
    if t is re.Pattern:
        if a and core.E is not None and (has_sym(a) or k and has_sym(k)):
            from . import sre
            return sre.pattern_method(obj, name, a, k)
        if name in ("sub", "subn") and callable(a[0]):
            return getattr(obj, name)(*a, **k)
        return getattr(obj, name)(*a, **k)
    if t is collections.OrderedDict and core.E is not None and name in ("move_to_end", "popitem"):
        # the C implementation keeps its own links keyed by hash: use the identical key object
        if name == "move_to_end" and (core.E.symkeys or has_sym(a)):
            kk = find_key(obj, a[0])
            if kk is _MISSING:
                raise KeyError(a[0])
            with UID:
                return obj.move_to_end(kk, *a[1:], **k)
        with UID:
            return getattr(obj, name)(*a, **k)
    if t is list:
        if name == "sort":
            key = k.get("key")
            if key is not None:
                k = dict(k, key=lambda x: call(key, x))
            return obj.sort(**k)
        if name == "extend":
            return obj.extend(*map(it, a))
        return getattr(obj, name)(*a, **k)
    return call(getattr(obj, name), *a, **k)


_SPECIAL = {str, dict, set, frozenset, bytes, bytearray, list, re.Pattern, collections.defaultdict}
_SAFE_OWNER = (collections.deque, list, tuple, types.GeneratorType, type(iter([])), type(iter(())), itertools.chain,
               itertools.islice, queue.SimpleQueue, BaseException)


def _overrides(t, name):
    f = getattr(t, name, None)
    return isinstance(f, _FT)


_DICT_METHODS = {"get", "setdefault", "pop", "update", "__contains__", "__getitem__", "__setitem__", "__delitem__",
                 "copy", "fromkeys", "popitem", "keys", "values", "items", "clear"}
_SET_BULK = {"union", "intersection", "difference", "issubset", "issuperset", "isdisjoint", "update",
             "symmetric_difference", "difference_update", "intersection_update"}


def _ropish(x):
    t = type(x)
    if t is Rope:
        return True
    if t in (list, tuple):
        return any(_ropish(i) for i in x)
    return False


def _bytes_method(obj, name, a, k):
    if name == "join":
        return _rope.bytes_join(obj, a[0])
    if name == "extend" and type(obj) is bytearray:
        raise EngineError("bytearray not modelled as a rope")
    raise EngineError("bytes.%s with opaque bytes" % name)


def str_format(fmt, a, k):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        first, rest = _field_split(field)
        if first == "":
            v = a[auto]
            auto += 1
        elif first.isdigit():
            v = a[int(first)]
        else:
            v = gi(k, first)
        for kind, nm in rest:
            v = getattr(v, nm) if kind == "." else gi(v, int(nm) if nm.isdigit() else nm)
        out.append(_fmt_part((v, ord(conv) if conv else -1, spec or "")))
    return opaque_join(out)


def _field_split(field):
    m = re.match(r"^([^.\[]*)(.*)$", field, re.S)
    rest = re.findall(r"\.([^.\[]+)|\[([^\]]+)\]", m[2])
    return m[1], [(".", x) if x else ("[", y) for x, y in rest]


# ------------------------------------------------------------------ builtin models
@model_of(isinstance)
def _isinstance(x, c):
    t = type(x)
    if t in SYM_TYPES:
        return issubclass(x.__class__, c) if not isinstance(c, tuple) else builtins.any(_isinstance(x, i) for i in c)
    return isinstance(x, c)


@model_of(type)
def _type(*a, **k):
    if len(a) == 1:
        return pytype(a[0])
    return type(*a, **k)


@model_of(len)
def _len(x):
    t = type(x)
    if t is Rope:
        return x.length()
    if t is SymText:
        return x.rope.length()
    if t is BigText:
        return x.n
    f = getattr(t, "__len__", None)
    if type(f) is _FT and t not in SYM_TYPES:
        r = f(x)
        return r
    return len(x)


@model_of(str)
def _str(*a, **k):
    if len(a) == 1 and not k:
        return to_str(a[0])
    if a and type(a[0]) is Rope:
        return a[0].decode(*a[1:], **k)
    return str(*a, **k)


@model_of(repr)
def _repr(x):
    return to_repr(x)


@model_of(format)
def _format(x, spec=""):
    return to_format(x, spec)


@model_of(int)
def _int(*a, **k):
    if not a:
        return int(*a, **k)
    x = a[0]
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return mkint(zint(x))
    if t is SymReal:
        return core.s_trunc(x)
    if t is SymStr:
        b = a[1] if len(a) > 1 else k.get("base", 10)
        return core.str_to_int(x, b)
    if t is SymText or t is BigText:
        raise ValueError("invalid literal for int()")
    return int(*a, **k)


@model_of(float)
def _float(*a):
    if not a:
        return 0.0
    x = a[0]
    t = type(x)
    if t is SymReal:
        return SymReal(x.z, "float")
    if t in (SymInt, SymBool):
        return SymReal(core.zreal(x), "float")
    if t is SymStr:
        return core.str_to_float(x)
    return float(x)


@model_of(decimal.Decimal)
def _decimal(*a, **k):
    x = a[0] if a else 0
    t = type(x)
    if t in (SymInt, SymBool, SymReal):
        return SymReal(core.zreal(x), "decimal")
    if t is SymStr:
        try:
            v = core.str_to_float(x)
        except ValueError:
            raise decimal.InvalidOperation([decimal.ConversionSyntax])
        return SymReal(v.z, "decimal") if type(v) is SymReal else decimal.Decimal(concretize(x))
    return decimal.Decimal(*a, **k)


@model_of(bool)
def _bool(x=False):
    t = type(x)
    if t is SymBool:
        return x
    if t is SymInt:
        return mkbool(z3.simplify(x.z != 0))
    if t is SymReal:
        return mkbool(z3.simplify(x.z != 0))
    return bool(x)


@model_of(hash)
def _hash(x):
    if type(x) is SymInt:
        return hash_of_int(x)
    if type(x) is tuple:
        x = hash_parts(x)
    if has_sym(x):
        return uninterpreted_hash("hash", x, -(1 << 63), (1 << 63) - 1)
    if type(x) in (str, bytes, tuple, frozenset):
        return uninterpreted_hash("hash", x, -(1 << 63), (1 << 63) - 1, hash)
    return hash(x)


def hash_of_int(x):
    """ints within 61 bits are their own hash, but for -1"""
    return SymInt(z3.simplify(z3.If(x.z == -1, z3.IntVal(-2), x.z)))


def hash_parts(x):
    """a tuple is hashed by the hashes of its parts, and -1 has that of -2"""
    t = type(x)
    if t is tuple:
        return tuple([hash_parts(y) for y in x])
    if t is SymInt:
        return hash_of_int(x)
    if t in (int, float) and x == -1:
        return t(-2)
    return x


def uninterpreted_hash(name, x, lo, hi, native=None):
    """injective uninterpreted function: collision freedom of the hash is an assumption"""
    lst = core.E.hashes.setdefault(name, [])
    for y, h in lst:
        if y is x:
            return h
    if not has_sym(x) and native is not None:
        h = native(x)
        for y, g in lst:
            if type(g) is SymInt:
                e = deep_eq(x, y)
                core.E.assume(z3.simplify((g.z == h) == core.zbool(e)))
        lst.append((x, h))
        return h
    same = [(y, h, deep_eq(x, y)) for y, h in lst]
    for y, h, e in same:
        e = e if isinstance(e, (bool, SymBool)) else bool(e)
        if e is True or type(e) is SymBool and z3.is_true(z3.simplify(e.z)):
            return h
    v = core.E.fresh("Int", "hash")
    core.E.path_cache.setdefault("hashterms", {})[v.get_id()] = (0, {v.get_id(): v})
    core.E.assume(z3.And(v >= lo, v <= hi))
    h = SymInt(v)
    for y, g, e in same:
        core.E.assume(z3.simplify((zint(g) == v) == core.zbool(e if isinstance(e, (bool, SymBool)) else bool(e))))
    lst.append((x, h))
    return h


class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        i = self.start
        if builtins.bool(self.step > 0):
            while builtins.bool(i < self.stop):
                core.E.tick()
                yield i
                i = i + self.step
        else:
            while builtins.bool(i > self.stop):
                core.E.tick()
                yield i
                i = i + self.step

    def __len__(self):
        return len(range(*map(concretize, (self.start, self.stop, self.step))))

    def __getitem__(self, i):
        return range(*map(concretize, (self.start, self.stop, self.step)))[i]

    def __contains__(self, x):
        if self.step == 1:
            return builtins.bool(s_and(x >= self.start, x < self.stop))
        return x in range(*map(concretize, (self.start, self.stop, self.step)))

    def __reversed__(self):
        return reversed(range(*map(concretize, (self.start, self.stop, self.step))))


@model_of(range)
def _range(*a):
    if not any(type(x) in SYM_TYPES for x in a):
        return range(*a)
    for x in a:
        if not isinstance(x, int):
            raise TypeError("'%s' object cannot be interpreted as an integer" % pytype(x).__name__)
    if len(a) == 1:
        return SymRange(0, a[0], 1)
    return SymRange(a[0], a[1], a[2] if len(a) > 2 else 1)


@model_of(list)
def _list(*a):
    if a and type(a[0]) is SymStr:
        return list(iter(a[0]))
    return list(*map(it, a))


@model_of(tuple)
def _tuple(*a):
    return tuple(*a)


@model_of(set)
def _set(*a):
    return mkset(a[0]) if a else set()


@model_of(frozenset)
def _frozenset(*a):
    if not a:
        return frozenset()
    s = mkset(a[0])
    with UID:
        return frozenset(s)


@model_of(dict)
def _dict(*a, **k):
    if not a:
        return dict(**k)
    src = a[0]
    if isinstance(src, dict) and not (core.E.symkeys):
        return dict(src, **k)
    d = {}
    if hasattr(src, "keys"):
        for kk in list(src.keys()):
            si(d, kk, gi(src, kk))
    else:
        for kk, v in src:
            si(d, kk, v)
    for kk, v in k.items():
        d[kk] = v
    return d


@model_of(dict.fromkeys)
def _fromkeys(it, v=None):
    d = {}
    for x in it:
        si(d, x, v)
    return d


@model_of(collections.Counter)
def _counter(*a, **k):
    c = collections.Counter()
    _counter_update(c, *a, **k)
    return c


@model_of(collections.OrderedDict)
def _odict(*a, **k):
    c = collections.OrderedDict()
    if a or k:
        if core.E.symkeys or has_sym(a):
            for x in (a[0].items() if hasattr(a[0], "items") else a[0]):
                with UID:
                    dict_set(c, x[0], x[1])
        else:
            c.update(*a, **k)
    return c


@model_of(map)
def _map(f, *its):
    if not its:
        raise TypeError("map() must have at least two arguments.")
    its = [iter(i) for i in its]

    def gen():
        for xs in zip(*its):
            yield call(f, *xs)
    return gen()


@model_of(filter)
def _filter(f, it):
    it = iter(it)

    def gen():
        for x in it:
            if f is None:
                if x:
                    yield x
            elif call(f, x):
                yield x
    return gen()


def _wrapkey(k):
    key = k.get("key")
    if key is not None:
        k = dict(k, key=lambda x: call(key, x))
    return k


@model_of(sorted)
def _sorted(it, **k):
    return sorted(it, **_wrapkey(k))


@model_of(min)
def _min(*a, **k):
    return _minmax(a, k, min)


@model_of(max)
def _max(*a, **k):
    return _minmax(a, k, max)


def _minmax(a, k, f):
    """native semantics (first extreme wins), merged as if-then-else for plain ints"""
    if "key" not in k:
        items = list(a[0]) if len(a) == 1 else list(a)
        if items and any(type(x) is SymInt for x in items) and builtins.all(type(x) in (int, SymInt) for x in items):
            r = items[0]
            for x in items[1:]:
                c = (x < r) if f is min else (x > r)
                r = core.s_ite(c, x, r)
            return r
        return f(items, **k) if len(a) == 1 else f(*items, **k)
    return f(*a, **_wrapkey(k))


@model_of(sum)
def _sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def _mean(it):
    vs = list(it)
    if not has_sym(vs):
        return statistics.mean(vs)
    r = vs[0]
    for x in vs[1:]:
        r = r + x
    return r / len(vs)


OVERRIDE[id(statistics.mean)] = (statistics.mean, _mean)


@model_of(any)
def _any(it):
    for x in it:
        if x:
            return True
    return False


@model_of(all)
def _all(it):
    for x in it:
        if not x:
            return False
    return True


@model_of(abs)
def _abs(x):
    return abs(x)


@model_of(round)
def _round(x, nd=None):
    if type(x) in SYM_TYPES:
        if type(nd) is SymInt:
            nd = concretize(nd)
        return x.__round__(nd) if nd is not None else x.__round__()
    return round(x, deep_concretize(nd)) if nd is not None else round(x)


@model_of(math.trunc)
def _trunc(x):
    return x.__trunc__() if type(x) in SYM_TYPES else math.trunc(x)


@model_of(math.ceil)
def _ceil(x):
    return x.__ceil__() if type(x) in SYM_TYPES else math.ceil(x)


@model_of(math.floor)
def _floor(x):
    return x.__floor__() if type(x) in SYM_TYPES else math.floor(x)


@model_of(divmod)
def _divmod(a, b):
    return divmod(a, b)


@model_of(ord)
def _ord(x):
    if type(x) is SymStr:
        if len(x.cs) != 1:
            raise TypeError("ord() expected a character")
        c = x.cs[0]
        return c if isinstance(c, int) else SymInt(c.e)
    return ord(x)


@model_of(chr)
def _chr(x):
    return chr(concretize(x))


@model_of(callable)
def _callable(x):
    return callable(x)


@model_of(iter)
def _iter(*a):
    if len(a) == 2:
        def gen(f, sentinel):
            while True:
                r = call(f)
                if cmp("Eq", r, sentinel):
                    return
                yield r
        return gen(*a)
    return iter(it(a[0])) if len(a) == 1 else iter(*a)


@model_of(next)
def _next(*a):
    return next(*a)


@model_of(enumerate)
def _enumerate(it, start=0):
    if type(start) is SymInt:
        def gen():
            i = start
            for x in it:
                yield i, x
                i = i + 1
        return gen()
    return enumerate(it, start)


@model_of(zip)
def _zip(*a, **k):
    return zip(*a, **k)


@model_of(reversed)
def _reversed(x):
    if type(x) is SymStr:
        return iter([mkstr((c,)) for c in reversed(x.cs)])
    return reversed(x)


@model_of(print)
def _print(*a, **k):
    return None


@model_of(getattr)
def _getattr(o, name, *d):
    if type(name) is SymStr:
        name = concretize(name)
    return getattr(o, name, *d)


@model_of(hasattr)
def _hasattr(o, name):
    if type(name) is SymStr:
        name = concretize(name)
    t = type(o)
    if t in SYM_TYPES:
        return hasattr(o.__class__, name)
    return hasattr(o, name)


@model_of(setattr)
def _setattr(o, n, v):
    return setattr(o, n, v)


@model_of(id)
def _id(x):
    return id(x)


@model_of(issubclass)
def _issubclass(a, b):
    return issubclass(a, b)


@model_of(bytes)
def _bytes(*a, **k):
    if a:
        x = a[0]
        if type(x) is Rope:
            return norm(Rope(list(x.segs), False))
        if isinstance(x, str) and type(x) in SYM_TYPES:
            return x.encode(*a[1:], **k)
        if has_sym(x):
            return bytes(*deep_concretize(a), **k)
    return bytes(*a, **k)


@model_of(bytearray)
def _bytearray(*a, **k):
    if a:
        x = a[0]
        if type(x) is Rope:
            return Rope(list(x.segs), True)
        if isinstance(x, str) and type(x) in SYM_TYPES:
            return Rope(_rope.segs_of(x.encode(*a[1:], **k)), True)
        if isinstance(x, (bytes, bytearray)):
            return Rope([bytes(x)], True)
        return bytearray(*deep_concretize(a), **k)
    return Rope([], True)


@model_of(memoryview)
def _memoryview(x):
    return x if type(x) is Rope else memoryview(x)


@model_of(int.from_bytes)
def _from_bytes(*a, **k):
    x = a[0]
    if type(x) is Rope and len(x.segs) == 1 and type(x.segs[0]) is Seg and x.segs[0].kind == "int":
        if (a[1:2] or (k.get("byteorder", "big"),))[0] == "big" and not k.get("signed"):
            return x.segs[0].data
    ints = x._ints() if type(x) is Rope else list(x) if type(x) in (list, tuple) else None
    if ints is not None and has_sym(ints) and not k.get("signed"):
        if (a[1:2] or (k.get("byteorder", "big"),))[0] == "little":
            ints = ints[::-1]
        return functools.reduce(lambda n, b: n * 256 + b, ints, 0)
    if type(x) is list or has_sym(x):
        raise EngineError("int.from_bytes of symbolic data")
    return int.from_bytes(*a, **k)


@model_of(struct.unpack)
def _unpack(fmt, x):
    ints = x._ints() if type(x) is Rope else None
    if ints is None or type(fmt) is not str or fmt[:1] not in "<>!" or not builtins.all(c in "BHIQL" for c in fmt[1:]):
        return _native(struct.unpack, (fmt, x), {})
    out = []
    if len(ints) != struct.calcsize(fmt):
        raise struct.error("unpack requires a buffer of %d bytes" % struct.calcsize(fmt))
    for c in fmt[1:]:
        n = struct.calcsize("<" + c)
        part, ints = ints[:n], ints[n:]
        out.append(functools.reduce(lambda n, b: n * 256 + b, part if fmt[0] != "<" else part[::-1], 0))
    return tuple(out)


@model_of(functools.reduce)
def _reduce(f, it, *init):
    return functools.reduce(lambda x, y: call(f, x, y), it, *init)


@model_of(sys.intern)
def _intern(s):
    return s


@model_of(operator.eq)
def _oeq(a, b): return a == b
@model_of(operator.ne)
def _one(a, b): return a != b
@model_of(operator.lt)
def _olt(a, b): return a < b
@model_of(operator.le)
def _ole(a, b): return a <= b
@model_of(operator.gt)
def _ogt(a, b): return a > b
@model_of(operator.ge)
def _oge(a, b): return a >= b
@model_of(operator.is_)
def _ois(a, b): return sx_is(a, b)
@model_of(operator.is_not)
def _oisn(a, b): return sx_isn(a, b)
@model_of(operator.not_)
def _onot(a): return s_not(a)
@model_of(operator.contains)
def _ocontains(a, b): return contains(b, a)
@model_of(operator.getitem)
def _ogetitem(a, b): return gi(a, b)
@model_of(operator.mod)
def _omod(a, b): return mod(a, b)


for _n, _o in (("Sub", operator.sub), ("BitAnd", operator.and_), ("BitOr", operator.or_), ("BitXor", operator.xor)):
    BUILTIN[_o] = (lambda n: lambda a, b: bin_(n, a, b))(_n)
BUILTIN[operator.eq] = lambda a, b: cmp("Eq", a, b)
BUILTIN[operator.ne] = lambda a, b: cmp("NotEq", a, b)


def _py_heapq():
    """heapq's own pure Python definitions (the C ones bypass the object protocol of proxies)"""
    import heapq
    import importlib.util
    spec = importlib.util.find_spec("heapq")
    src = open(spec.origin).read().split("# If available, use C implementation")[0]
    ns = types.ModuleType("symx_heapq")
    ns.__dict__["__name__"] = "symx_heapq"
    exec(compile(src, spec.origin, "exec"), ns.__dict__)
    for n in ("heappush", "heappop", "heapify", "heapreplace", "heappushpop", "nsmallest", "nlargest", "merge"):
        BUILTIN[getattr(heapq, n)] = getattr(ns, n)
        OVERRIDE[id(getattr(heapq, n))] = (getattr(heapq, n), getattr(ns, n))


_py_heapq()


def _py_bisect():
    import bisect
    import importlib.util
    spec = importlib.util.find_spec("bisect")
    src = open(spec.origin).read().split("# Overwrite above definitions")[0]
    ns = types.ModuleType("symx_bisect")
    exec(compile(src, spec.origin, "exec"), ns.__dict__)
    for n in ("insort", "insort_left", "insort_right", "bisect", "bisect_left", "bisect_right"):
        if hasattr(ns, n):
            BUILTIN[getattr(bisect, n)] = getattr(ns, n)


_py_bisect()

safe(operator.add, operator.mul, operator.truediv, operator.floordiv, operator.neg, operator.itemgetter, operator.index, itertools.chain, itertools.islice, itertools.product, itertools.groupby,
     itertools.takewhile, itertools.dropwhile, itertools.accumulate, itertools.combinations, itertools.permutations,
     itertools.repeat, itertools.count, itertools.zip_longest, itertools.tee, itertools.starmap, itertools.filterfalse,
     itertools.chain.from_iterable, collections.deque, collections.defaultdict, functools.partial, functools.wraps,
     slice, staticmethod, classmethod, property, _copy.copy, _copy.deepcopy, functools.cmp_to_key, object)


class Lru:
    """functools.lru_cache: caches calls with concrete arguments; a call with symbolic
    arguments is evaluated (each path starts with empty caches)"""

    def __init__(self, f, maxsize, typed):
        self.f, self.maxsize, self.typed = f, maxsize, typed
        functools.update_wrapper(self, f)

    def __call__(self, *a, **k):
        E = core.E
        if E is None or has_sym(a) or has_sym(k):
            return self.f(*a, **k)
        if self.maxsize == 0:
            return self.f(*a, **k)
        cache = E.path_cache.setdefault(("lru", id(self)), collections.OrderedDict())
        key = (a, tuple(k.items())) + (tuple(map(type, a)) if self.typed else ())
        hash(key)
        if key in cache:
            cache.move_to_end(key)
            return cache[key]
        r = self.f(*a, **k)
        cache[key] = r
        if self.maxsize is not None and len(cache) > self.maxsize:
            cache.popitem(last=False)
        return r

    def __get__(self, obj, cls=None):
        return self if obj is None else types.MethodType(self, obj)

    def cache_clear(self):
        if core.E is not None:
            core.E.path_cache.pop(("lru", id(self)), None)

    def cache_info(self):
        return None


def _lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return Lru(maxsize, 128, typed)
    return lambda f: Lru(f, maxsize, typed)


OVERRIDE[id(functools.lru_cache)] = (functools.lru_cache, _lru_cache)
OVERRIDE[id(functools.cache)] = (functools.cache, lambda f: Lru(f, None, False))


# decorators evaluated without going through `call` (plain @lru_cache / @cache)
def post_import(module):
    pass


# re module level functions
def _re_fn(name):
    native = getattr(re, name)

    def f(pattern, *a, **k):
        if name == "compile":
            if type(pattern) in SYM_TYPES:
                pattern = concretize(pattern)
            return native(pattern, *a, **k)
        if name == "escape":
            return native(deep_concretize(pattern))
        npos = {"sub": 3, "subn": 3, "split": 2}.get(name, 1)  # args before flags in module function
        if type(pattern) in SYM_TYPES:
            pattern = concretize(pattern)
        if has_sym(a) or has_sym(k):
            flags = k.pop("flags", 0)
            if name in ("match", "search", "fullmatch", "findall", "finditer") and len(a) > 1:
                flags, a = a[1], a[:1]
            elif name in ("sub", "subn") and len(a) > 3:
                flags, a = a[3], a[:3]
            elif name == "split" and len(a) > 2:
                flags, a = a[2], a[:2]
            pat = pattern if isinstance(pattern, re.Pattern) else re.compile(pattern, flags)
            return method(pat, name, *a, **k)
        return native(pattern, *a, **k)
    return f


for _n in ("match", "search", "fullmatch", "findall", "finditer", "split", "sub", "subn", "compile", "escape"):
    OVERRIDE[id(getattr(re, _n))] = (getattr(re, _n), _re_fn(_n))


def enter(name):
    E = core.E
    if E is not None:
        E.functions[name] = E.functions.get(name, 0) + 1
        E.tick()


def tick():
    if core.E is not None:
        core.E.tick()


INJECT = {
    "_sx_c": call, "_sx_m": method, "_sx_gi": gi, "_sx_si": si, "_sx_di": di, "_sx_aug": aug,
    "_sx_in": sx_in, "_sx_nin": sx_nin, "_sx_is": sx_is, "_sx_isn": sx_isn, "_sx_not": s_not,
    "_sx_mod": mod, "_sx_fs": fstr, "_sx_set": mkset, "_sx_dict": mkdict, "_sx_enter": enter, "_sx_tick": tick,
    "_sx_bin": bin_, "_sx_aug2": aug2, "_sx_cmp": cmp,
    "_sx_it": it, "_sx_deco": deco, "_sx_Steer": core.Steer,
}
