"""
symx.rope - bytes with opaque segments of symbolic length.

A Rope stands for a bytes / bytearray value which is the concatenation of concrete
byte strings and opaque segments.  An opaque segment is the output of a modelled codec
(JSON serialisation, lz4, zstandard ..): its content is unknown, its length is a
symbolic integer, and only the codec's documented inverse can look inside.
"""
import z3
from . import core
from .core import Sym, SymInt, SymBool, SymStr, mkint, zint, s_and, s_or, s_not, mkbool, EngineError


class Seg:
    """one opaque segment"""
    __slots__ = ("kind", "data", "length", "newline")

    def __init__(self, kind, data, length, newline=False):
        self.kind, self.data, self.length, self.newline = kind, data, length, newline


class SymByte(Sym):
    pass


def seg_eq(a, b):
    from .rt import deep_eq
    if a is b:
        return True
    if a.kind != b.kind:
        return False
    return deep_eq(a.data, b.data)


class Rope(Sym):
    """immutable (bytes) or mutable (bytearray) symbolic byte string"""
    __slots__ = ("segs", "mutable")

    @property
    def __class__(self):
        return bytearray if self.mutable else bytes

    def __init__(self, segs, mutable=False):
        out = []
        for s in segs:
            if isinstance(s, (bytes, bytearray)) and type(s) is not Rope:
                if not s:
                    continue
                if out and type(out[-1]) is bytes:
                    out[-1] = out[-1] + bytes(s)
                else:
                    out.append(bytes(s))
            else:
                out.append(s)
        self.segs = out
        self.mutable = mutable

    # -- helpers
    def length(self):
        n, z = 0, None
        for s in self.segs:
            if type(s) is bytes:
                n += len(s)
            else:
                l = zint(s.length)
                z = l if z is None else z + l
        if z is None:
            return n
        return mkint(z + n)

    def __len__(self):
        l = self.length()
        return l if type(l) is int else core.E.concrete_int(l.z)

    def __bool__(self):
        return bool(self.length() > 0)

    def __add__(self, o):
        return Rope(self.segs + segs_of(o), self.mutable)

    def __radd__(self, o):
        return Rope(segs_of(o) + self.segs, isinstance(o, bytearray))

    def __iadd__(self, o):
        if self.mutable:
            self.segs = Rope(self.segs + segs_of(o)).segs
            return self
        return self + o

    def extend(self, o):
        if not self.mutable:
            raise AttributeError("'bytes' object has no attribute 'extend'")
        if not isinstance(o, (bytes, bytearray)):
            o = bytes(list(o))
        self.segs = Rope(self.segs + segs_of(o)).segs

    def append(self, b):
        self.extend(bytes([b]))

    def clear(self):
        self.segs = []

    def copy(self):
        return Rope(list(self.segs), self.mutable)

    def write(self, o):
        self.extend(o)

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return NotImplemented
        a, b = self.segs, segs_of(o)
        if len(a) != len(b):
            if any(type(s) is not bytes for s in a + b):
                # different shapes: equal only if every opaque segment is empty etc.
                return self._eq_shapes(a, b)
            return False
        rs = []
        for x, y in zip(a, b):
            if type(x) is bytes and type(y) is bytes:
                if x != y:
                    return self._eq_shapes(a, b)
            elif type(x) is not bytes and type(y) is not bytes:
                rs.append(seg_eq(x, y))
            else:
                return self._eq_shapes(a, b)
        return s_and(*rs)

    def _eq_shapes(self, a, b):
        # opaque segments are non empty and differ from any concrete bytes (documented
        # idealisation: a codec's output never equals unrelated concrete bytes)
        if all(type(s) is bytes or s.kind == "bigtext" for s in a + b):
            return bytes(Rope(a)._real()) == bytes(Rope(b)._real())
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else s_not(r)

    def __hash__(self):
        return hash(self._real())

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                return self._real()[i]
            start, stop = i.start, i.stop
            if start in (None, 0) and stop is None:
                return Rope(list(self.segs), self.mutable)
            return Rope(self._slice(start, stop), self.mutable)
        return self._byte(i)

    def _ints(self):
        """the bytes as integers, where they are determined by integers"""
        out = []
        for s in self.segs:
            if type(s) is bytes:
                out.extend(s)
            elif s.kind == "int" and type(s.length) is int:
                for k in range(s.length - 1, -1, -1):
                    out.append((s.data // (1 << 8 * k)) % 256)
            else:
                return None
        return out

    def _byte(self, i):
        i = i0 = i.__index__()
        ints = self._ints()
        if ints is not None:
            return ints[i]
        if i >= 0:
            for s in self.segs:
                if type(s) is not bytes:
                    break
                if i < len(s):
                    return s[i]
                i -= len(s)
            else:
                raise IndexError("index out of range")
        else:
            for s in reversed(self.segs):
                if type(s) is not bytes:
                    break
                if -i <= len(s):
                    return s[i]
                i += len(s)
            else:
                raise IndexError("index out of range")
        return self._real()[i0]

    def _slice(self, start, stop):
        """slice at positions which the path decides to be segment boundaries (or inside concrete)"""
        total = self.length()

        def pos(p, default):
            if p is None:
                return default
            if isinstance(p, int) and bool(p < 0):
                p = p + total
                if bool(p < 0):
                    p = 0
            if bool(p > total):
                p = total
            return p
        a, b = pos(start, 0), pos(stop, total)
        out = []
        off = 0
        if bool(b <= a):
            return []
        for s in self.segs:
            ln = len(s) if type(s) is bytes else s.length
            end = off + ln
            if bool(end <= a) or bool(off >= b):
                off = end
                continue
            if bool(off >= a) and bool(end <= b):
                out.append(s)
            elif type(s) is bytes:
                lo = 0 if bool(off >= a) else (a - off).__index__()
                hi = ln if bool(end <= b) else (b - off).__index__()
                out.append(s[lo:hi])
            else:
                # cuts an opaque segment: keep as an unreadable fragment
                lo = 0 if bool(off >= a) else a - off
                hi = ln if bool(end <= b) else b - off
                if s.kind == "int" and type(lo) is int and type(hi) is int:
                    out.append(Seg("int", (s.data // (1 << 8 * (ln - hi))) % (1 << 8 * (hi - lo)), hi - lo, True))
                else:
                    out.append(Seg("fragment", (s, lo, hi), hi - lo))
            off = end
        return out

    def __iter__(self):
        ints = self._ints()
        return iter(self._real() if ints is None else ints)

    def __contains__(self, o):
        if isinstance(o, int):
            o = bytes([o])
        if o in (b"\n", b"\r"):
            for s in self.segs:
                if type(s) is bytes:
                    if o in s:
                        return True
                elif s.newline:
                    return o in self._real()
            return False
        return o in self._real()

    def endswith(self, suf, *a):
        suf = bytes(suf) if not isinstance(suf, tuple) else suf
        if not self.segs:
            return suf == b""
        last = self.segs[-1]
        if type(last) is bytes and len(last) >= len(suf):
            return last.endswith(suf)
        if type(last) is not bytes and suf in (b"\n", b"\r\n") and not last.newline:
            return False
        return self._real().endswith(suf)

    def startswith(self, pre, *a):
        if not self.segs:
            return pre == b""
        first = self.segs[0]
        if type(first) is bytes and len(first) >= len(pre):
            return first.startswith(pre)
        if type(first) is not bytes and first.kind == "json":
            obj = first.data
            if isinstance(obj, dict) and len(pre) == 1:
                return pre == b"{"
            if isinstance(obj, (list, tuple)) and len(pre) == 1:
                return pre == b"["
        return self._real().startswith(pre)

    def _strip(self, left, right, cs):
        segs = list(self.segs)
        ws = cs if cs is not None else b" \t\n\r\x0b\x0c"
        while right and segs and type(segs[-1]) is bytes:
            t = segs[-1].rstrip(ws)
            if t:
                segs[-1] = t
                break
            segs.pop()
        while left and segs and type(segs[0]) is bytes:
            t = segs[0].lstrip(ws)
            if t:
                segs[0] = t
                break
            segs.pop(0)
        return Rope(segs, self.mutable)

    def strip(self, cs=None):
        return norm(self._strip(True, True, cs))

    def rstrip(self, cs=None):
        return norm(self._strip(False, True, cs))

    def lstrip(self, cs=None):
        return norm(self._strip(True, False, cs))

    def _lines(self, keepends, universal):
        out, cur, seen = [], [], False
        for s in self.segs:
            if type(s) is bytes:
                parts = s.splitlines(True) if universal else _split_keep(s)
                for p in parts:
                    if p.endswith(b"\n") or (universal and p.endswith(b"\r")):
                        body = p if keepends else p.rstrip(b"\r\n" if universal else b"\n")
                        out.append(norm(Rope(cur + [body])))
                        cur = []
                    else:
                        cur.append(p)
            else:
                if s.newline:
                    raise _Binary()
                cur.append(s)
        return out, cur

    def splitlines(self, keepends=False):
        try:
            out, cur = self._lines(keepends, True)
        except _Binary:
            return self._real().splitlines(keepends)
        if cur:
            out.append(norm(Rope(cur)))
        return out

    def split(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit != -1 or bytes(sep) != b"\n":
            return self._real().split(sep, maxsplit)
        try:
            out, cur = self._lines(False, False)
        except _Binary:
            return self._real().split(sep, maxsplit)
        out.append(norm(Rope(cur)))
        return out

    def decode(self, encoding="utf-8", errors="strict"):
        if all(type(s) is bytes for s in self.segs):
            return b"".join(self.segs).decode(encoding, errors)
        if all(type(s) is bytes or s.kind == "text" for s in self.segs):
            cs = ()
            for s in self.segs:
                cs += tuple(map(ord, s.decode(encoding, errors))) if type(s) is bytes else s.data.cs
            return core.mkstr(cs)
        if len(self.segs) == 1 and self.segs[0].kind == "bigtext":
            return self.segs[0].data
        return SymText(self)

    def hex(self):
        return self._real().hex()

    def join(self, it):
        return bytes_join(self, it)

    def count(self, b):
        if b != b"\n":
            return self._real().count(b)
        n = 0
        for s in self.segs:
            if type(s) is bytes:
                n += s.count(b)
        return n

    def find(self, sub, start=0, end=None):
        return self._real().find(sub, start, len(self) if end is None else end)

    def _real(self):
        b = b"".join(s if type(s) is bytes else real_seg(s) for s in self.segs)
        return bytearray(b) if self.mutable else b

    def __getattr__(self, name):
        if name.startswith("__") or name.startswith("_sy"):
            raise AttributeError(name)
        return getattr(self._real(), name)

    def __repr__(self):
        return "Rope(%s)" % ", ".join(repr(s) if type(s) is bytes else "<%s>" % s.kind for s in self.segs)

    __str__ = __repr__

    def _symx_value(self, mv):
        out = []
        for s in self.segs:
            if type(s) is not bytes and s.kind == "int":
                s = mv(s.data).to_bytes(s.length, "big")
            elif type(s) is not bytes and s.kind == "text" and type(mv(s.data)) is str:
                s = mv(s.data).encode()
            if type(s) is bytes and out and type(out[-1]) is bytes:
                out[-1] += s
            else:
                out.append(s if type(s) is bytes else (s.kind, mv(s.data)))
        if len(out) == 1 and type(out[0]) is bytes:
            return out[0]
        return ("rope", out)

    def _symx_concretize(self):
        return self._real()


class _Binary(Exception):
    pass


REAL = {}  # segment kind -> function(data) giving the real bytes


def real_seg(s):
    from . import rt
    if s.kind == "fragment":
        seg, lo, hi = s.data
        b = real_seg(seg)[core.concretize(lo):core.concretize(hi)]
    elif s.kind == "int":
        b = core.concretize(s.data).to_bytes(s.length, "big")
    else:
        b = REAL[s.kind](s.data)
    if type(s.length) is SymInt:
        # pin the segment's length to the codec's real output length
        core.E.assume(s.length.z == len(b))
    return b


def _split_keep(b):
    out = []
    parts = b.split(b"\n")
    for p in parts[:-1]:
        out.append(p + b"\n")
    if parts[-1]:
        out.append(parts[-1])
    return out


class SymText(Sym):
    """str obtained by decoding opaque bytes"""
    __slots__ = ("rope",)
    __class__ = property(lambda self: str)

    def __init__(self, r):
        self.rope = r

    def encode(self, *a):
        return self.rope

    def splitlines(self, keepends=False):
        return [x.decode() for x in self.rope.splitlines(keepends)]

    def split(self, sep=None, maxsplit=-1):
        return [x.decode() for x in self.rope.split(sep.encode() if sep else None, maxsplit)]

    def strip(self, *a):
        return self.rope.strip().decode()

    def rstrip(self, *a):
        return self.rope.rstrip().decode()

    def __len__(self):
        return len(self.rope)

    def __bool__(self):
        return bool(self.rope)

    def __eq__(self, o):
        if type(o) is SymText:
            return self.rope == o.rope
        return False if isinstance(o, str) else NotImplemented

    def __add__(self, o):
        return SymText(self.rope + segs_rope(o))

    def __radd__(self, o):
        return SymText(segs_rope(o) + self.rope)

    __hash__ = Sym.__hash__

    def _symx_value(self, mv):
        return mv(self.rope)

    def _symx_concretize(self):
        return bytes(self.rope._real()).decode()

    def __getattr__(self, name):
        if name.startswith("__") or name.startswith("_sy"):
            raise AttributeError(name)
        return getattr(self._symx_concretize(), name)

    def __getitem__(self, i):
        return self._symx_concretize()[i]

    def __iter__(self):
        return iter(self._symx_concretize())

    def __contains__(self, x):
        return core.concretize(x) in self._symx_concretize()

    def __lt__(self, o):
        return self._symx_concretize() < core.concretize(o)

    def __gt__(self, o):
        return self._symx_concretize() > core.concretize(o)

    def __repr__(self):
        return "SymText(%r)" % (self.rope,)
    __str__ = __repr__


def segs_rope(o):
    if type(o) is SymText:
        return o.rope
    if type(o) is SymStr:
        return Rope(segs_of(encode_str(o)))
    if type(o) is BigText:
        return o.encode()
    return Rope([o.encode()])


class BigText(Sym):
    """a str of symbolic length over a single repeated character (record payload)"""
    __slots__ = ("name", "n")
    __class__ = property(lambda self: str)

    def __init__(self, name, n):
        self.name, self.n = name, n

    def __eq__(self, o):
        if type(o) is BigText:
            return mkbool(z3.simplify(zint(self.n) == zint(o.n)))
        if isinstance(o, str):
            if type(o) is str and o.strip("x") == "":
                return self.n == len(o)
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else s_not(r)

    __hash__ = Sym.__hash__

    def __len__(self):
        return core.concretize(self.n)

    def __bool__(self):
        return bool(self.n > 0)

    def encode(self, *a):
        return Rope([Seg("bigtext", self, self.n)])

    def strip(self, chars=None):
        return self if chars is None or "x" not in chars else self._symx_concretize().strip(chars)

    def lstrip(self, chars=None):
        return self if chars is None or "x" not in chars else self._symx_concretize().lstrip(chars)

    def rstrip(self, chars=None):
        return self if chars is None or "x" not in chars else self._symx_concretize().rstrip(chars)

    def lower(self):
        return self
    casefold = lower

    def _symx_value(self, mv):
        return ("big", mv(self.n))

    def _symx_concretize(self):
        return "x" * core.concretize(self.n)

    def __getattr__(self, name):
        if name.startswith("__") or name.startswith("_sy"):
            raise AttributeError(name)
        return getattr(self._symx_concretize(), name)

    def __getitem__(self, i):
        return self._symx_concretize()[i]

    def __iter__(self):
        return iter(self._symx_concretize())

    def __contains__(self, x):
        return core.concretize(x) in self._symx_concretize()

    def __add__(self, o):
        return SymText(self.encode() + segs_rope(o))

    def __radd__(self, o):
        return SymText(segs_rope(o) + self.encode())

    def __repr__(self):
        return "<big %s>" % self.name
    __str__ = __repr__


core.SYM_TYPES |= {Rope, SymText, BigText}


def segs_of(o):
    if type(o) is Rope:
        return list(o.segs)
    if isinstance(o, (bytes, bytearray, memoryview)):
        return [bytes(o)]
    raise TypeError("can't concat %s to bytes" % core.pytype(o).__name__)


def norm(r):
    """collapse a fully concrete rope to bytes/bytearray"""
    if type(r) is Rope and all(type(s) is bytes for s in r.segs):
        b = b"".join(r.segs)
        return bytearray(b) if r.mutable else b
    return r


def bytes_join(sep, it):
    items = list(it)
    if type(sep) is bytes and all(type(x) in (bytes, bytearray) for x in items):
        return sep.join(items)
    out = []
    for i, x in enumerate(items):
        if i:
            out.extend(segs_of(sep))
        out.extend(segs_of(x))
    return norm(Rope(out))


def blen(x):
    return x.length() if type(x) is Rope else len(x)


def encode_str(s, encoding, errors):
    """encode a SymStr: opaque text segment with exact length"""
    n = 0
    z = None
    for c in s.cs:
        if isinstance(c, int):
            n += len(chr(c).encode("utf-8", "surrogatepass"))
        else:
            ws = {}
            for v in c.d:
                ws.setdefault(len(chr(v).encode("utf-8", "surrogatepass")), []).append(v)
            if len(ws) == 1:
                n += next(iter(ws))
            else:
                e = z3.IntVal(max(ws))
                for w, vs in sorted(ws.items())[:-1]:
                    e = z3.If(core._setcond(c.e, vs), z3.IntVal(w), e)
                z = e if z is None else z + e
    ln = n if z is None else mkint(z + n)
    nl = any(core.ch_test(c, lambda v: v in (10, 13)) is not False for c in s.cs)
    return Rope([Seg("text", s, ln, nl)])
