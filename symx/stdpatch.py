"""
symx.stdpatch - small semantic-preserving replacements inside the instrumented copies of the
pure Python stdlib modules, which keep the exploration from forking needlessly.
"""
import sys

from . import core, rt
from .core import SymInt, SymBool, s_and, s_or, s_not, mkint, zint


def _cmp_tuple(x, y):
    """(lt, eq) of two field tuples as bool/SymBool"""
    lt, eq = False, True
    for a, b in zip(x, y):
        lt = s_or(lt, s_and(eq, a < b))
        eq = s_and(eq, a == b)
        if eq is False:
            break
    return lt, eq


def apply():
    m = sys.modules["symx_std._pydatetime"]

    def has(*xs):
        return any(type(i) in core.SYM_TYPES for i in xs)

    def date_fields(d):
        return (d._year, d._month, d._day)

    def dt_fields(d):
        return (d._year, d._month, d._day, d._hour, d._minute, d._second, d._microsecond)

    D, DT, TD = m.date, m.datetime, m.timedelta

    def wrap(cls, fields, ok):
        for op in ("__lt__", "__le__", "__gt__", "__ge__", "__eq__"):
            orig = getattr(cls, op)

            def f(self, other, orig=orig, op=op):
                if ok(self, other):
                    a, b = fields(self), fields(other)
                    if has(*a) or has(*b):
                        lt, eq = _cmp_tuple(a, b)
                        if op == "__eq__":
                            return eq
                        if op == "__lt__":
                            return lt
                        if op == "__le__":
                            return s_or(lt, eq)
                        if op == "__gt__":
                            return s_not(s_or(lt, eq))
                        return s_not(lt)
                return orig(self, other)
            f.__module__ = "symx.stdpatch"
            setattr(cls, op, f)

    wrap(D, date_fields, lambda a, b: type(a) is D and type(b) is D)
    wrap(DT, dt_fields, lambda a, b: type(a) is DT and type(b) is DT and a._tzinfo is None and b._tzinfo is None)
    wrap(TD, lambda t: (t._days, t._seconds, t._microseconds), lambda a, b: type(a) is TD and type(b) is TD)

    for cls, fields in ((D, date_fields), (DT, dt_fields), (TD, lambda t: (t._days, t._seconds, t._microseconds))):
        cls._symx_has_sym = lambda self, fields=fields: has(*fields(self))
        oh = cls.__hash__

        def h(self, oh=oh, fields=fields):
            if has(*fields(self)):
                if core.E.hash_uid:
                    core.E.uid += 1
                    core.E.symkeys = True
                    return 0x5EED0000000 + core.E.uid * 0x10001
                return hash(rt.TO_NATIVE(self))
            return oh(self)
        h.__module__ = "symx.stdpatch"
        cls.__hash__ = h
        cls._symx_value = lambda self, mv, cls=cls, fields=fields: rt.TO_NATIVE(cls(*[mv(x) for x in fields(self)]))

    orig_check = m._check_time_fields

    def check_time_fields(hour, minute, second, microsecond, fold):
        # as the original, but minute, second and microsecond may stay symbolic
        if not has(minute, second, microsecond):
            return orig_check(hour, minute, second, microsecond, fold)
        hour = orig_check(hour, 0, 0, 0, fold)[0]
        for x, n, name in ((minute, 59, "minute"), (second, 59, "second"), (microsecond, 999999, "microsecond")):
            if type(x) not in (SymInt, SymBool):
                x.__index__()
            if not s_and(x >= 0, x <= n):
                raise ValueError("%s must be in 0..%d" % (name, n), x)
        return hour, minute, second, microsecond, fold
    check_time_fields.__module__ = "symx.stdpatch"
    m._check_time_fields = check_time_fields
