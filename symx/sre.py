"""
symx.sre - regular expression matching over symbolic strings.

A backtracking matcher over CPython's own parse tree (re._parser); every test of a
symbolic code point is a decision which the solver resolves, so along one path the
matcher behaves exactly as the C engine does on any string the path stands for.
"""
import re
import re._constants as C
import re._parser as P

from . import core
from .core import (SymStr, SymInt, EngineError, mkstr, chars, ch_test, ch_eq, decide, cs_eq, concretize, SYM_TYPES)

_TREES = {}


def _tree(pat):
    t = _TREES.get(pat)
    if t is None:
        if isinstance(pat.pattern, bytes):
            raise EngineError("bytes pattern on symbolic text")
        t = P.parse(pat.pattern, pat.flags & ~re.UNICODE | re.UNICODE if isinstance(pat.pattern, str) else pat.flags)
        _TREES[pat] = t
    return t


def _word(v, a):
    c = chr(v)
    return (c.isalnum() or c == "_") if not a else (v < 128 and (c.isalnum() or c == "_"))


def _digit(v, a):
    return chr(v).isdecimal() if not a else 48 <= v <= 57


def _space(v, a):
    return chr(v).isspace() if not a else chr(v) in " \t\n\r\f\v"


_CAT = {
    C.CATEGORY_DIGIT: lambda v, a: _digit(v, a), C.CATEGORY_NOT_DIGIT: lambda v, a: not _digit(v, a),
    C.CATEGORY_SPACE: lambda v, a: _space(v, a), C.CATEGORY_NOT_SPACE: lambda v, a: not _space(v, a),
    C.CATEGORY_WORD: lambda v, a: _word(v, a), C.CATEGORY_NOT_WORD: lambda v, a: not _word(v, a),
}


def _variants(v, fl):
    if not fl & re.I:
        return (v,)
    c = chr(v)
    out = {v}
    for o in (c.lower(), c.upper()):
        if len(o) == 1:
            out.add(ord(o))
            for p in (o.lower(), o.upper()):
                if len(p) == 1:
                    out.add(ord(p))
    return out


def _in_pred(items, fl):
    neg = False
    its = items
    if its and its[0][0] is C.NEGATE:
        neg, its = True, its[1:]
    asc = bool(fl & re.A)

    def one(v):
        for op, av in its:
            if op is C.LITERAL:
                if v == av:
                    return True
            elif op is C.RANGE:
                if av[0] <= v <= av[1]:
                    return True
            elif op is C.CATEGORY:
                if _CAT[av](v, asc):
                    return True
            elif op is C.NOT_LITERAL:
                if v != av:
                    return True
            else:
                raise EngineError("regex set item %s" % op)
        return False

    def pred(v):
        r = any(one(x) for x in _variants(v, fl))
        return r != neg
    return pred


class Matcher:
    def __init__(self, pat, cs):
        self.pat = pat
        self.cs = cs
        self.n = len(cs)
        t = _tree(pat)
        self.tree = t
        self.flags = t.state.flags | pat.flags
        self.preds = _PREDS.setdefault(pat, {})

    def test(self, key, fl, mk, i):
        p = self.preds.get((key, fl))
        if p is None:
            p = self.preds[(key, fl)] = mk()
        core.E.tick()
        return decide(ch_test(self.cs[i], p))

    # k: continuation(pos, groups) -> result or None
    def seq(self, items, j, pos, g, fl, k):
        if j == len(items):
            return k(pos, g)
        op, av = items[j]
        nxt = lambda p, gg: self.seq(items, j + 1, p, gg, fl, k)
        if op is C.LITERAL or op is C.NOT_LITERAL or op is C.ANY or op is C.IN:
            if not self.single(op, av, pos, fl):
                return None
            return nxt(pos + 1, g)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, pos, g, fl, nxt)
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            grp, add, rem, p = av
            f2 = (fl | add) & ~rem

            def done(e, gg, s=pos):
                if grp is not None:
                    gg = dict(gg)
                    gg[grp] = (s, e)
                    gg["last"] = grp
                return nxt(e, gg)
            return self.seq(list(p), 0, pos, g, f2, done)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, p = av
            p = list(p)
            if op is C.POSSESSIVE_REPEAT:
                r = self.repeat(p, lo, hi, pos, g, fl, True, lambda e, gg: (e, gg))
                return None if r is None else nxt(*r)
            return self.repeat(p, lo, hi, pos, g, fl, op is C.MAX_REPEAT, nxt)
        if op is C.AT:
            return nxt(pos, g) if self.at(av, pos, fl) else None
        if op is C.ASSERT or op is C.ASSERT_NOT:
            dirn, p = av
            p = list(p)
            if dirn >= 0:
                r = self.seq(p, 0, pos, g, fl, lambda e, gg: (e, gg))
            else:
                lo, hi = av[1].getwidth()
                s = pos - lo
                r = None if s < 0 else self.seq(p, 0, s, g, fl, lambda e, gg: (e, gg) if e == pos else None)
            if op is C.ASSERT:
                return None if r is None else nxt(pos, r[1])
            return nxt(pos, g) if r is None else None
        if op is C.GROUPREF:
            if av not in g:
                return None
            s, e = g[av]
            w = e - s
            if pos + w > self.n or fl & re.I:
                if fl & re.I:
                    raise EngineError("case insensitive back reference")
                return None
            if decide(cs_eq(self.cs[s:e], self.cs[pos:pos + w])):
                return nxt(pos + w, g)
            return None
        if op is C.GROUPREF_EXISTS:
            grp, yes, no = av
            p = yes if grp in g else no
            return self.seq(list(p) if p is not None else [], 0, pos, g, fl, nxt)
        if op is C.ATOMIC_GROUP:
            r = self.seq(list(av), 0, pos, g, fl, lambda e, gg: (e, gg))
            return None if r is None else nxt(*r)
        raise EngineError("regex op %s" % op)

    def single(self, op, av, pos, fl):
        if pos >= self.n:
            return False
        if op is C.ANY:
            if fl & re.S:
                return True
            return self.test("any", fl, lambda: (lambda v: v != 10), pos)
        if op is C.LITERAL:
            if not fl & re.I:
                return decide(ch_eq(self.cs[pos], av))
            return self.test(("l", av), fl, lambda: (lambda v: av in _variants(v, fl)), pos)
        if op is C.NOT_LITERAL:
            return self.test(("n", av), fl, lambda: (lambda v: av not in _variants(v, fl)), pos)
        return self.test(("in", id(av)), fl, lambda: _in_pred(av, fl), pos)

    def repeat(self, p, lo, hi, pos, g, fl, greedy, k):
        if len(p) == 1 and p[0][0] in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            op, av = p[0]
            n = 0
            while n < lo:
                if not self.single(op, av, pos + n, fl):
                    return None
                n += 1
            if greedy:
                while (hi is C.MAXREPEAT or n < hi) and self.single(op, av, pos + n, fl):
                    n += 1
                while n >= lo:
                    r = k(pos + n, g)
                    if r is not None:
                        return r
                    n -= 1
                return None
            while True:
                r = k(pos + n, g)
                if r is not None:
                    return r
                if not (hi is C.MAXREPEAT or n < hi) or not self.single(op, av, pos + n, fl):
                    return None
                n += 1

        def step(count, at, gg):
            if count < lo:
                return self.seq(p, 0, at, gg, fl, lambda e, g2: step(count + 1, e, g2))
            more = lambda: (self.seq(p, 0, at, gg, fl, lambda e, g2: step(count + 1, e, g2) if e != at else None)
                            if (hi is C.MAXREPEAT or count < hi) else None)
            if greedy:
                r = more()
                return r if r is not None else k(at, gg)
            r = k(at, gg)
            return r if r is not None else more()
        return step(0, pos, g)

    def isword(self, i, fl):
        a = bool(fl & re.A)
        return self.test("word", fl & re.A, lambda: (lambda v: _word(v, a)), i)

    def at(self, av, pos, fl):
        n = self.n
        if av is C.AT_BEGINNING:
            if pos == 0:
                return True
            return bool(fl & re.M) and decide(ch_eq(self.cs[pos - 1], 10))
        if av is C.AT_BEGINNING_STRING:
            return pos == 0
        if av is C.AT_END:
            if pos == n:
                return True
            if fl & re.M:
                return decide(ch_eq(self.cs[pos], 10))
            return pos == n - 1 and decide(ch_eq(self.cs[pos], 10))
        if av is C.AT_END_STRING:
            return pos == n
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            if n == 0:
                return False
            a = self.isword(pos - 1, fl) if pos > 0 else False
            b = self.isword(pos, fl) if pos < n else False
            return (a != b) == (av is C.AT_BOUNDARY)
        raise EngineError("regex anchor %s" % av)

    def match_at(self, pos, full=False, must_advance=False):
        def final(e, g):
            if full and e != self.n:
                return None
            if must_advance and e == pos:
                return None
            return (e, g)
        return self.seq(list(self.tree), 0, pos, {}, self.flags, final)


_PREDS = {}


class SymMatch:
    def __init__(self, pat, string, cs, start, end, g):
        self.re, self.string, self._cs = pat, string, cs
        self._g = {k: v for k, v in g.items() if k != "last"}
        self._g[0] = (start, end)
        self.lastindex = g.get("last")
        self.pos, self.endpos = 0, len(cs)

    def _idx(self, i):
        if isinstance(i, str):
            return self.re.groupindex[concretize(i)]
        i = i.__index__()
        if i > self.re.groups:
            raise IndexError("no such group")
        return i

    def _one(self, i, default=None):
        sp = self._g.get(self._idx(i))
        return default if sp is None else mkstr(self._cs[sp[0]:sp[1]])

    def group(self, *a):
        if not a:
            return self._one(0)
        if len(a) == 1:
            return self._one(a[0])
        return tuple(self._one(i) for i in a)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(i, default) for n, i in self.re.groupindex.items()}

    def start(self, i=0):
        return self._g.get(self._idx(i), (-1, -1))[0]

    def end(self, i=0):
        return self._g.get(self._idx(i), (-1, -1))[1]

    def span(self, i=0):
        return self._g.get(self._idx(i), (-1, -1))

    def expand(self, template):
        return _expand(self.re, template, self)


def _scan(m, string, pos=0):
    must = False
    while pos <= m.n:
        found = None
        s = pos
        while s <= m.n:
            r = m.match_at(s, must_advance=must and s == pos)
            if r is not None:
                found = (s, r[0], r[1])
                break
            s += 1
        if found is None:
            return
        s, e, g = found
        yield SymMatch(m.pat, string, m.cs, s, e, g)
        pos = e
        must = e == s


def _expand(pat, repl, mt):
    parts = P.parse_template(repl, pat)
    out = []
    for p in parts:
        if isinstance(p, int):
            out.append(mt._one(p, ""))
        else:
            out.append(p)
    return core.str_join("", out)


def pattern_method(pat, name, a, k):
    a = list(a)
    names = {"match": ("string", "pos", "endpos"), "fullmatch": ("string", "pos", "endpos"),
             "search": ("string", "pos", "endpos"), "findall": ("string", "pos", "endpos"),
             "finditer": ("string", "pos", "endpos"), "split": ("string", "maxsplit"),
             "sub": ("repl", "string", "count"), "subn": ("repl", "string", "count")}.get(name)
    if names is None:
        raise EngineError("pattern.%s with symbolic arguments" % name)
    args = dict(zip(names, a), **k)
    s = args["string"]
    if type(s) not in (str, SymStr):
        if isinstance(s, str):
            raise EngineError("regular expression on opaque text")
        raise TypeError("expected string or bytes-like object, got '%s'" % core.pytype(s).__name__)
    cs = chars(s)
    pos = args.get("pos", 0)
    pos = pos.__index__()
    if "endpos" in args:
        cs = cs[:args["endpos"].__index__()]
    m = Matcher(pat, cs)
    if name in ("match", "fullmatch"):
        r = m.match_at(pos, full=name == "fullmatch")
        return None if r is None else SymMatch(pat, s, cs, pos, r[0], r[1])
    if name == "search":
        for mt in _scan(m, s, pos):
            return mt
        return None
    if name == "finditer":
        return _scan(m, s, pos)
    if name == "findall":
        out = []
        for mt in _scan(m, s, pos):
            if pat.groups == 0:
                out.append(mt.group())
            elif pat.groups == 1:
                out.append(mt._one(1, ""))
            else:
                out.append(mt.groups(""))
        return out
    if name == "split":
        mx = args.get("maxsplit", 0)
        out, last, n = [], 0, 0
        for mt in _scan(m, s):
            if mx and n >= mx:
                break
            out.append(mkstr(cs[last:mt.start()]))
            out.extend(mt.groups())
            last = mt.end()
            n += 1
        out.append(mkstr(cs[last:]))
        return out
    # sub / subn
    repl = args["repl"]
    cnt = args.get("count", 0)
    out, last, n = [], 0, 0
    for mt in _scan(m, s):
        if cnt and n >= cnt:
            break
        out.append(mkstr(cs[last:mt.start()]))
        if callable(repl):
            from . import rt
            out.append(rt.call(repl, mt))
        else:
            out.append(_expand(pat, concretize(repl), mt))
        last = mt.end()
        n += 1
    out.append(mkstr(cs[last:]))
    r = core.str_join("", out)
    return (r, n) if name == "subn" else r
