"""
symx.models - models of the native libraries mabel calls (JSON, compression, hashing, files,
logging, clock formatting).  Each model is the documented contract of the library:

* JSON / compression: an opaque segment, invertible by the matching reader only; concrete
  arguments go to the real library.
* hashes (xxh3, CityHash64): an injective uninterpreted function (no collisions).
* files / mmap / BytesIO: the real objects, holding a placeholder token per opaque segment.
"""
import atexit
import collections
import copy
import datetime as _rdt
import decimal
import gc
import io
import json as _json
import mmap
import os
import pathlib as _rpath
import re
import sys
import time as _time
import types

import z3

from . import core, rt, rope
from .core import SymInt, SymBool, SymStr, SymReal, EngineError, mkint, zint, mkstr, chars, concretize, SYM_TYPES
from .rope import Rope, SymText, BigText, Seg, norm, REAL
from .rt import OVERRIDE, override, has_sym, deep_concretize


# ------------------------------------------------------------------ foreign objects
def to_native(x, memo=None):
    """instrumented stdlib objects (datetime, pathlib) -> the real ones; deep"""
    t = type(x)
    if t in (str, int, float, bool, bytes, type(None)):
        return x
    if t is list:
        r = [to_native(i) for i in x]
        return r if any(a is not b for a, b in zip(r, x)) else x
    if t is tuple:
        r = [to_native(i) for i in x]
        return tuple(r) if any(a is not b for a, b in zip(r, x)) else x
    if t is dict:
        r = {k: to_native(v) for k, v in x.items()}
        return r if any(r[k] is not x[k] for k in r) else x
    m = t.__module__
    if m == "symx_std._pydatetime":
        n = t.__name__
        g = lambda k: deep_concretize(getattr(x, k))
        if n == "datetime":
            return _rdt.datetime(g("year"), g("month"), g("day"), g("hour"), g("minute"), g("second"),
                                 g("microsecond"), to_native(x.tzinfo), fold=g("fold"))
        if n == "date":
            return _rdt.date(g("year"), g("month"), g("day"))
        if n == "time":
            return _rdt.time(g("hour"), g("minute"), g("second"), g("microsecond"), to_native(x.tzinfo))
        if n == "timedelta":
            return _rdt.timedelta(g("days"), g("seconds"), g("microseconds"))
        if n == "timezone":
            return _rdt.timezone(to_native(x.utcoffset(None)))
    if m == "symx_std.pathlib":
        return _rpath.Path(rt.builtins.str(deep_concretize(rt.to_str(x))))
    return x


def from_native(x):
    t = type(x)
    if t is _rdt.datetime or t is _rdt.date or t is _rdt.timedelta or t is _rdt.time:
        m = sys.modules.get("symx_std._pydatetime")
        if m is None:
            return x
        if t is _rdt.datetime:
            return m.datetime(x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond)
        if t is _rdt.date:
            return m.date(x.year, x.month, x.day)
        if t is _rdt.time:
            return m.time(x.hour, x.minute, x.second, x.microsecond)
        return m.timedelta(x.days, x.seconds, x.microseconds)
    return x


# ------------------------------------------------------------------ tokens
_TOK = re.compile(rb"\x00SX(\d{8})\x00")
MARK = b"\x00SX"


def tokens(r):
    """real bytes standing for a rope: one token per opaque segment"""
    reg = core.E.path_cache.setdefault("tokens", [])
    out = []
    for s in r.segs:
        if type(s) is bytes:
            out.append(s)
        else:
            reg.append(s)
            out.append(b"\x00SX%08d\x00" % (len(reg) - 1))
    b = b"".join(out)
    return bytearray(b) if r.mutable else b


def untoken(b):
    """inverse of tokens, for bytes / containers of bytes"""
    t = type(b)
    if t is bytes or t is bytearray:
        if MARK not in b:
            return b
        reg = core.E.path_cache.get("tokens", [])
        segs, pos = [], 0
        for m in _TOK.finditer(b):
            segs.append(bytes(b[pos:m.start()]))
            segs.append(reg[int(m[1])])
            pos = m.end()
        segs.append(bytes(b[pos:]))
        return Rope(segs, t is bytearray)
    if t is list or t is tuple:
        if any(type(i) in (bytes, bytearray) for i in b):
            return t(untoken(i) for i in b)
    return b


rt.TOKENS = tokens
rt.UNTOKEN = untoken
rt.TO_NATIVE = to_native
rt.FROM_NATIVE = from_native


# ------------------------------------------------------------------ JSON
def _int_len(z):
    """decimal length of a symbolic int, as an expression (up to 20 digits)"""
    a = z3.If(z < 0, -z, z)
    e = z3.If(z < 0, z3.IntVal(1), z3.IntVal(0)) + 1
    for k in range(1, 20):
        e = e + z3.If(a >= 10 ** k, z3.IntVal(1), z3.IntVal(0))
    return e


def _str_json_len(s):
    n, z = 2, None
    for c in s.cs:
        if isinstance(c, int):
            n += len(_json_char(c))
        else:
            ws = collections.defaultdict(list)
            for v in c.d:
                ws[len(_json_char(v))].append(v)
            if len(ws) == 1:
                n += next(iter(ws))
            else:
                e = None
                for w, vs in ws.items():
                    e = z3.IntVal(w) if e is None else z3.If(core._setcond(c.e, vs), z3.IntVal(w), e)
                z = e if z is None else z + e
    return n, z


def _json_char(v):
    import orjson
    return orjson.dumps(chr(v))[1:-1]


_I64 = (-(1 << 63), (1 << 64) - 1)


class _Len:
    def __init__(self):
        self.n, self.z = 0, None

    def add(self, x):
        if isinstance(x, int) and type(x) is int:
            self.n += x
        else:
            z = x.z if type(x) is SymInt else x
            self.z = z if self.z is None else self.z + z

    def value(self):
        return self.n if self.z is None else mkint(self.z + self.n)


def _walk(x, default, ln, depth=0):
    """JSON normal form of x (as loads would return) and its serialised length"""
    import orjson
    t = type(x)
    if depth > 200:
        raise TypeError("Recursion limit reached")
    if t is SymStr:
        n, z = _str_json_len(x)
        ln.add(n)
        if z is not None:
            ln.add(z)
        return x
    if t is SymInt:
        if not rt.builtins.bool(core.s_and(x >= _I64[0], x <= _I64[1])):
            raise TypeError("Integer exceeds 64-bit range")
        ln.add(_int_len(x.z))
        return x
    if t is SymBool:
        ln.add(z3.If(x.z, z3.IntVal(4), z3.IntVal(5)))
        return x
    if t is SymReal:
        if x.kind == "decimal":
            return _default(x, default, ln, depth)
        v = core.E.fresh("Int", "flen")
        core.E.assume(z3.And(v >= 3, v <= 24))
        ln.add(v)
        return x
    if t is BigText:
        ln.add(2)
        ln.add(x.n if type(x.n) is int else x.n.z)
        return x
    if t is SymText:
        raise EngineError("serialising opaque text")
    if t is str or t is int or t is float or t is bool or x is None:
        b = orjson.dumps(x)
        ln.add(len(b))
        return orjson.loads(b)
    if isinstance(x, (str, int)) and not t.__module__.startswith("symx"):
        b = orjson.dumps(x)
        ln.add(len(b))
        return orjson.loads(b)
    if t is list or t is tuple or isinstance(x, list):
        out = []
        ln.add(2 + max(0, len(x) - 1))
        for i in x:
            out.append(_walk(i, default, ln, depth + 1))
        return out
    if isinstance(x, dict):
        out = {}
        ln.add(2 + max(0, len(x) - 1))
        for k, v in x.items():
            if not isinstance(k, str):
                raise TypeError("Dict key must be str")
            kk = _walk(k, default, ln, depth + 1)
            ln.add(1)
            rt.si(out, kk, _walk(v, default, ln, depth + 1))
        return out
    m = t.__module__
    if m == "symx_std._pydatetime" and t.__name__ in ("datetime", "date", "time"):
        s = rt.call(x.isoformat)
        return _walk(s, default, ln, depth)
    if m == "datetime" and t.__name__ in ("datetime", "date", "time"):
        return _walk(orjson.loads(orjson.dumps(x)), default, ln, depth)
    if hasattr(t, "__dataclass_fields__"):
        return _walk({k: getattr(x, k) for k in t.__dataclass_fields__}, default, ln, depth)
    return _default(x, default, ln, depth)


def _default(x, default, ln, depth):
    if default is None:
        raise TypeError("Type is not JSON serializable: %s" % core.pytype(x).__name__)
    return _walk(rt.call(default, x), default, ln, depth + 1)


def install_json():
    import orjson

    class _JSONEncode(TypeError):
        pass

    def dumps(obj, default=None, option=None):
        if not has_sym(obj):
            n = to_native(obj)
            if default is None:
                return orjson.dumps(n, option=option)
            return orjson.dumps(n, default=lambda o: to_native(rt.call(default, o)), option=option)
        if option is not None and option & ~(orjson.OPT_SORT_KEYS | orjson.OPT_APPEND_NEWLINE):
            return orjson.dumps(to_native(deep_concretize(obj)), default=default, option=option)
        ln = _Len()
        try:
            nf = _walk(obj, default, ln)
        except _JSONEncode:
            raise
        except TypeError as e:
            raise orjson.JSONEncodeError(*e.args)
        r = Rope([Seg("json", nf, ln.value())])
        if option and option & orjson.OPT_APPEND_NEWLINE:
            r = r + b"\n"
        return r

    def loads(b):
        t = type(b)
        if t is SymText:
            b = b.rope
            t = Rope
        if t is Rope:
            r = b.strip()
            if type(r) is Rope:
                if len(r.segs) == 1 and r.segs[0].kind == "json":
                    return copy.deepcopy(r.segs[0].data)
                kinds = [type(s) is bytes or s.kind for s in r.segs]
                if len(r.segs) > 1 and kinds[0] == "json":
                    raise orjson.JSONDecodeError("unexpected content after document", "", 0)
                if len(r.segs) == 1 and kinds[0] in ("zstd", "lz4", "text") and kinds[0] != "text":
                    raise orjson.JSONDecodeError("unexpected character", "", 0)
                return orjson.loads(bytes(r._real()))
            return orjson.loads(r)
        if t is SymStr:
            return orjson.loads(concretize(b))
        return orjson.loads(b)

    OVERRIDE[id(orjson.dumps)] = (orjson.dumps, dumps)
    OVERRIDE[id(orjson.loads)] = (orjson.loads, loads)

    def jdumps(obj, **k):
        if not has_sym(obj):
            return _json.dumps(to_native(obj), **k)
        return _json.dumps(to_native(deep_concretize(obj)), **k)

    def jloads(s, **k):
        if type(s) in (Rope, SymText):
            return loads(s)
        return _json.loads(concretize(s), **k)

    OVERRIDE[id(_json.dumps)] = (_json.dumps, jdumps)
    OVERRIDE[id(_json.loads)] = (_json.loads, jloads)
    REAL["json"] = lambda d: orjson.dumps(to_native(deep_concretize(d)))
    REAL["text"] = lambda s: concretize(s).encode()
    REAL["bigtext"] = lambda s: concretize(s).encode()


# ------------------------------------------------------------------ compression
def _seglen(lo):
    v = core.E.fresh("Int", "clen")
    core.E.assume(v >= lo)
    return SymInt(v)


def _compressor(native, kind):
    def f(data, *a, **k):
        if type(data) is Rope:
            n = norm(Rope(list(data.segs)))
            if type(n) is Rope:
                return Rope([Seg(kind, n, _seglen(9), True)])
            data = n
        return native(bytes(data), *a, **k)
    return f


def _decompressor(native, kind, err):
    def f(data, *a, **k):
        if type(data) is Rope:
            if len(data.segs) == 1 and type(data.segs[0]) is Seg:
                s = data.segs[0]
                if s.kind == kind:
                    return Rope(list(s.data.segs))
                raise err("not a %s frame" % kind)
            return native(bytes(data._real()), *a, **k)
        return native(data, *a, **k)
    return f


def install_codecs():
    import lz4.frame
    import zstandard
    OVERRIDE[id(lz4.frame.compress)] = (lz4.frame.compress, _compressor(lz4.frame.compress, "lz4"))
    OVERRIDE[id(lz4.frame.decompress)] = (lz4.frame.decompress, _decompressor(lz4.frame.decompress, "lz4", RuntimeError))
    zc, zd = zstandard.compress, zstandard.decompress
    OVERRIDE[id(zc)] = (zc, _compressor(zc, "zstd"))
    OVERRIDE[id(zd)] = (zd, _decompressor(zd, "zstd", zstandard.ZstdError))
    REAL["zstd"] = lambda r: zc(bytes(rope.Rope(r.segs)._real()))
    REAL["lz4"] = lambda r: lz4.frame.compress(bytes(rope.Rope(r.segs)._real()))
    zopen = zstandard.open

    class ZFile:
        def __init__(self, data):
            self.data = data

        def read(self, n=-1):
            d, self.data = self.data, b""
            return d

        def readlines(self):
            return self.read().splitlines(True)

        def __iter__(self):
            return iter(self.readlines())

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    def zs_open(f, mode="rb", *a, **k):
        if mode == "rb" and hasattr(f, "read"):
            pos = f.tell()
            raw = untoken(f.read())
            if type(raw) is Rope:
                return ZFile(_decompressor(zd, "zstd", zstandard.ZstdError)(raw))
            f.seek(pos)
        return zopen(f, mode, *a, **k)
    OVERRIDE[id(zopen)] = (zopen, zs_open)


# ------------------------------------------------------------------ hashing
def install_hashes():
    import xxhash
    from orso.cityhash import CityHash64

    def hasher(name, fn, bits):
        def f(x, *a, **k):
            if type(x) is Rope or has_sym(x):
                return rt.uninterpreted_hash(name + repr((a, k)), _hkey(x), 0, (1 << bits) - 1)
            return rt.uninterpreted_hash(name + repr((a, k)), _hkey(x), 0, (1 << bits) - 1, lambda y: fn(y, *a, **k))
        OVERRIDE[id(fn)] = (fn, f)
    for n in ("xxh3_64_intdigest", "xxh64_intdigest", "xxh32_intdigest"):
        fn = getattr(xxhash, n)
        hasher(n, fn, 32 if "32" in n else 64)
    hasher("CityHash64", CityHash64, 64)


def _hkey(x):
    # text and its encoding hash alike
    if type(x) is Rope and len(x.segs) == 1 and type(x.segs[0]) is Seg and x.segs[0].kind in ("text", "bigtext"):
        return x.segs[0].data
    if isinstance(x, bytes) and type(x) is bytes:
        try:
            return x.decode()
        except UnicodeDecodeError:
            return x
    return x


# ------------------------------------------------------------------ misc
class NullLogger:
    """formatting and logging have empty bodies"""
    level = 0

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self._nop

    def _nop(self, *a, **k):
        return None


NULL = NullLogger()


def null_get_logger(*a, **k):
    return NULL


null_get_logger.cache_clear = lambda: None


def install_logging():
    import orso.logging
    import orso.logging.create_logger as cl
    for m in (orso.logging, cl):
        m.get_logger = null_get_logger
        m.set_log_name = lambda *a: None


def _strftime(fmt, tt=None):
    if tt is None or not has_sym(tuple(tt)):
        return _time.strftime(concretize(fmt), *(() if tt is None else (tt,)))
    t = tuple(tt)
    out = []
    fmt = concretize(fmt)
    i = 0
    z = lambda v, w: rt.to_format(v, "0%d" % w)
    while i < len(fmt):
        c = fmt[i]
        if c != "%" or i + 1 >= len(fmt):
            out.append(c)
            i += 1
            continue
        d = fmt[i + 1]
        i += 2
        if d == "Y":
            out.append(rt.to_str(t[0]))
        elif d in "mdHMS":
            out.append(z(t[{"m": 1, "d": 2, "H": 3, "M": 4, "S": 5}[d]], 2))
        elif d == "y":
            out.append(z(t[0] % 100, 2))
        elif d == "j":
            out.append(z(t[7], 3))
        elif d == "%":
            out.append("%")
        else:
            return _time.strftime(fmt, tuple(deep_concretize(t)))
    return core.str_join("", out)


def _urandom(n):
    n = concretize(n)
    E = core.E
    k = E.path_cache["urandom"] = E.path_cache.get("urandom", 0) + 1
    env = E.path_cache.get("env")
    if env is None:
        raise EngineError("os.urandom without an environment")
    v = env.int("urandom%d" % k, 0, (1 << (8 * n)) - 1)
    if type(v) is int:
        return v.to_bytes(n, "big")
    return Rope([Seg("int", v, n, True)])


def install_misc():
    OVERRIDE[id(_time.strftime)] = (_time.strftime, _strftime)
    OVERRIDE[id(os.urandom)] = (os.urandom, _urandom)
    OVERRIDE[id(atexit.register)] = (atexit.register, lambda f, *a, **k: f)
    OVERRIDE[id(gc.collect)] = (gc.collect, lambda *a: 0)
    OVERRIDE[id(os.fspath)] = (os.fspath, lambda p: p if isinstance(p, (str, bytes)) else p.__fspath__())
    import logging
    for n in ("debug", "info", "warning", "error", "exception", "critical"):
        OVERRIDE[id(getattr(logging, n))] = (getattr(logging, n), lambda *a, **k: None)
    import traceback
    for n in ("format_exc", "print_exc"):
        OVERRIDE[id(getattr(traceback, n))] = (getattr(traceback, n), lambda *a, **k: "")


def install():
    install_json()
    install_codecs()
    install_hashes()
    install_logging()
    install_misc()
