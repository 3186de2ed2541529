"""self test of the encoding: many Python idioms, symbolic result == native result on every path"""
import io
import struct
import bisect
import enum
import os

import orjson
import collections
import contextlib
import copy
import dataclasses
import functools
import heapq
import itertools
import operator
import re
import json
import datetime
from collections import Counter, OrderedDict, defaultdict, deque, namedtuple
from typing import NamedTuple

from symx.env import harness
from mabel.utils import text, dates
from mabel.data.internals.dictset import DictSet


@harness("Z99")
def smoke_sanitize(env, case):
    s = env.str("s", "aZ9/ .\\-é_", 0, 3)
    r = text.sanitize(s)
    env.observe("r", r)
    env.check("/" not in r, "noslash")


@harness("Z99")
def smoke_select(env, case):
    rows = [{"a": env.int("a%d" % i, 0, 100), "b": env.str("b%d" % i, "xyz", 0, 1)} for i in range(3)]
    ds = DictSet(iter(rows))
    r = ds.filter(lambda x: x["a"] > 50).collect_list("a")
    env.observe("r", r)
    env.check(env.eq(r, [x["a"] for x in rows if x["a"] > 50]), "filter")


@dataclasses.dataclass
class DC:
    a: int
    b: str = ""


NT = namedtuple("NT", "x y")


class NT2(NamedTuple):
    a: int
    b: int = 3


def gen(xs):
    try:
        for x in xs:
            y = yield x
    finally:
        pass


class Ctx:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return True


def swallow(x):
    try:
        if x > 2:
            raise ValueError(x)
        return 1
    except:
        return 2


def swallow2(x):
    try:
        if x > 2:
            raise ValueError(x)
        return 1
    except BaseException as e:
        return 3


IDIOMS = {
    "map": lambda v, s: list(map(lambda x: x + 1, v)),
    "map_str": lambda v, s: list(map(str, v)),
    "map_op": lambda v, s: list(map(operator.mul, v, v)),
    "filter": lambda v, s: list(filter(lambda x: x > 1, v)),
    "filter_none": lambda v, s: list(filter(None, v)),
    "zip": lambda v, s: list(zip(v, reversed(v))),
    "enum": lambda v, s: [(i, x) for i, x in enumerate(v, 1)],
    "sorted": lambda v, s: sorted(v),
    "sorted_rev": lambda v, s: sorted(v, reverse=True),
    "sorted_key": lambda v, s: sorted([{"k": x} for x in v], key=lambda r: r["k"]),
    "sorted_ig": lambda v, s: sorted([{"k": x} for x in v], key=operator.itemgetter("k")),
    "sort": lambda v, s: (lambda l: (l.sort(), l)[1])(list(v)),
    "reduce": lambda v, s: functools.reduce(lambda a, b: a + b, v, 0),
    "reduce_op": lambda v, s: functools.reduce(operator.add, v),
    "accum": lambda v, s: list(itertools.accumulate(v)),
    "chain": lambda v, s: list(itertools.chain(v, v)),
    "chain_from": lambda v, s: list(itertools.chain.from_iterable([v, v])),
    "islice": lambda v, s: list(itertools.islice(iter(v), 2)),
    "takewhile": lambda v, s: list(itertools.takewhile(lambda x: x < 3, v)),
    "dropwhile": lambda v, s: list(itertools.dropwhile(lambda x: x < 3, v)),
    "groupby": lambda v, s: [(k, len(list(g))) for k, g in itertools.groupby(v)],
    "product": lambda v, s: list(itertools.product(v, "ab"))[:3],
    "any": lambda v, s: any(x > 2 for x in v),
    "all": lambda v, s: all(x > 2 for x in v),
    "minmax": lambda v, s: (min(v), max(v), sum(v), min(v[0], 2), max(1, v[1]), min(v, default=3)),
    "minkey": lambda v, s: min(v, key=lambda x: -x),
    "counter": lambda v, s: sorted(Counter(v).items()),
    "counter_str": lambda v, s: sorted(Counter(s).items()),
    "defdict": lambda v, s: (lambda d: ([d[x].append(i) for i, x in enumerate(v)], sorted(d.items()))[1])(defaultdict(list)),
    "defint": lambda v, s: (lambda d: ([d.__setitem__(x, d[x] + 1) for i, x in enumerate(v)], sorted(d.items()))[1])(defaultdict(int)),
    "odict": lambda v, s: list(OrderedDict((x, 1) for x in v)),
    "odict_move": lambda v, s: (lambda d: (d.move_to_end("a"), list(d))[1])(OrderedDict([("a", v[0]), ("b", v[1])])),
    "deque": lambda v, s: (lambda d: (d.append(v[0]), d.popleft(), list(d))[2])(deque(v, maxlen=2)),
    "heap": lambda v, s: heapq.nsmallest(2, v),
    "heap2": lambda v, s: heapq.nlargest(2, v),
    "heapify": lambda v, s: (lambda h: (heapq.heapify(h), heapq.heappop(h)))(list(v)),
    "bisect": lambda v, s: bisect.bisect_left([1, 3], v[0]),
    "dict": lambda v, s: {x: 1 for x in v} == dict.fromkeys(v, 1),
    "dict_kw": lambda v, s: dict(a=v[0], **{"b": v[1]}),
    "dict_or": lambda v, s: {"a": 1} | {"b": v[0]},
    "dict_get": lambda v, s: {1: "x", 2: "y"}.get(v[0], "z"),
    "dict_sym": lambda v, s: {v[0]: "x", v[1]: "y"}.get(v[2], "z"),
    "dict_pop": lambda v, s: (lambda d: (d.pop(v[0], None), d))({1: 2, 2: 3}),
    "dict_setdef": lambda v, s: (lambda d: (d.setdefault(v[0], []).append(1), d.setdefault(v[1], []).append(2), sorted(d.items())))({}),
    "set": lambda v, s: sorted(set(v)),
    "set_ops": lambda v, s: sorted({v[0], v[1]} & {v[1], v[2]}),
    "set_ops2": lambda v, s: sorted({v[0], v[1]} - {v[1], v[2]} | {9}),
    "set_aug": lambda v, s: _setaug(v),
    "set_cmp": lambda v, s: ({v[0]} == {v[1]}, {v[0]} != {1}, {v[0]} < {1, 2}, {v[0], v[1]} >= {1}),
    "dict_eq": lambda v, s: ({v[0]: 1} == {v[1]: 1}, {"a": v[0]} == {"a": 1}, [v[0], {"x": s}] != [1, {"x": "a"}]),
    "views": lambda v, s: sorted({v[0]: 1, v[1]: 2}.keys() - {1}),
    "lru": lambda v, s: [_lru(x) for x in v],
    "setobj": lambda v, s: sorted(sorted(x) for x in {frozenset([v[0]]), frozenset([v[1]])}),
    "odpop": lambda v, s: (lambda d: (d.popitem(last=False), list(d.items())))(OrderedDict([(v[0], 1), (v[1] + 10, 2)])),
    "nan": lambda v, s: float("inf") > v[0],
    "floatcmp": lambda v, s: (v[0] == 1.0, v[0] < 1.5, 0.5 <= v[0], v[0] + 0.5),
    "mixcmp": lambda v, s: (v[0] == s, v[0] != None, s == None, s != 1),
    "typeerr": lambda v, s: v[0] < s,
    "typeerr2": lambda v, s: s + v[0],
    "typeerr3": lambda v, s: len(v[0]),
    "keyerr": lambda v, s: {1: 2}[v[0]],
    "valerr": lambda v, s: int(s),
    "floaterr": lambda v, s: float(s),
    "zerodiv": lambda v, s: 4 // v[0],
    "zerodiv2": lambda v, s: 4 / v[0],
    "set_sub": lambda v, s: {v[0]} <= {1, 2} or {v[0]}.issubset({3}) or not {v[0]}.isdisjoint([0]),
    "set_add": lambda v, s: (lambda t: (t.add(v[0]), t.add(v[1]), t.discard(v[2]), sorted(t)))(set()),
    "frozen": lambda v, s: frozenset(v) == frozenset([1, 2]),
    "tuplekey": lambda v, s: len({(v[0], s): 1, (v[1], s): 2}),
    "in_list": lambda v, s: v[0] in [1, 2],
    "in_tuple": lambda v, s: v[0] in (1, v[1]),
    "in_set": lambda v, s: v[0] in {1, 2},
    "in_str": lambda v, s: "a" in s,
    "index": lambda v, s: v.index(v[1]),
    "count": lambda v, s: v.count(1),
    "list_eq": lambda v, s: v == [1, 2, 3],
    "list_lt": lambda v, s: v < [1, 2, 3],
    "tup_lt": lambda v, s: (v[0], 1) < (v[1], 0),
    "slice": lambda v, s: v[: v[0]] if v[0] >= 0 else v[1:],
    "range": lambda v, s: [i for i in range(v[0], 3)],
    "range_step": lambda v, s: [i for i in range(3, v[0], -1)],
    "divmod": lambda v, s: divmod(v[0], 3) + (v[0] // -2, v[0] % -2, v[0] / 2, -v[0] // 2),
    "pow": lambda v, s: (v[0] ** 2, 2 ** abs(v[0]), pow(v[0], 2)),
    "bits": lambda v, s: (abs(v[0]) & 1, abs(v[0]) | 4, ~v[0], v[0] << 1, v[0] >> 1),
    "round": lambda v, s: (round(v[0] / 2), round(v[0] * 0.3, 1), int(v[0] / 2)),
    "float": lambda v, s: (float(v[0]), v[0] * 1.5, float(v[0]).is_integer()),
    "int_str": lambda v, s: int(str(v[0])),
    "bool": lambda v, s: (bool(v[0]), not v[0], v[0] or "z", v[0] and "y", v[0] is None),
    "isinst": lambda v, s: (isinstance(v[0], int), isinstance(s, str), isinstance(v[0], (str, bytes)), type(s) is str, type(v[0]) == int, isinstance(s, collections.abc.Iterable), isinstance(s, collections.abc.Hashable)),
    "fstr": lambda v, s: f"{v[0]}-{s}-{v[0]:03d}-{s:>4}-{s!r}",
    "percent": lambda v, s: "%s-%d-%03d" % (s, v[0], v[1]),
    "format": lambda v, s: "{}-{:02d}-{x}".format(s, v[0], x=v[1]),
    "join": lambda v, s: ",".join(str(x) for x in v) + "".join([s, s]),
    "upper": lambda v, s: (s.upper(), s.lower(), s.title(), s.swapcase(), s.capitalize()),
    "strip": lambda v, s: (s.strip(), s.lstrip("a"), s.rstrip("b "), s.strip("ab")),
    "split": lambda v, s: (s.split(), s.split("a"), s.split("a", 1), s.rsplit("a", 1), s.partition("b"), s.rpartition("b"), s.splitlines()),
    "replace": lambda v, s: (s.replace("a", "b"), s.replace("a", "xx", 1), s.replace("ab", "")),
    "starts": lambda v, s: (s.startswith("a"), s.endswith(("a", "b")), s.find("b"), s.rfind("b"), s.count("a")),
    "isx": lambda v, s: (s.isdigit(), s.isalpha(), s.isalnum(), s.isspace(), s.isupper(), s.islower(), s.isnumeric(), s.isidentifier()),
    "pad": lambda v, s: (s.zfill(4), s.ljust(4, "."), s.rjust(4), s.center(5, "*")),
    "trans": lambda v, s: s.translate(str.maketrans("ab", "xy")),
    "removeprefix": lambda v, s: (s.removeprefix("a"), s.removesuffix("b")),
    "idx": lambda v, s: (s[0] if s else None, s[-1:], s[::-1], s[1:], len(s)),
    "iter_str": lambda v, s: [c for c in s] + list(s) + [*s],
    "ord": lambda v, s: [ord(c) for c in s] + [chr(ord("a") + abs(v[0]))],
    "encode": lambda v, s: (s.encode("utf8").decode()),
    "re_sub": lambda v, s: re.sub(r"[ab]+", "-", s),
    "re_match": lambda v, s: bool(re.match(r"^a.*b$", s)),
    "re_comp": lambda v, s: re.compile("a|b ").findall(s),
    "re_grp": lambda v, s: (lambda m: m.groups() if m else None)(re.search("(a)(.)?", s)),
    "unpack": lambda v, s: (lambda a, *b: (a, b))(*v),
    "star": lambda v, s: [*v, *v][:4],
    "dc": lambda v, s: (lambda d: (d.a, d.b, d == DC(v[0], s), dataclasses.asdict(d), dataclasses.replace(d, a=1).a))(DC(v[0], s)),
    "nt": lambda v, s: (lambda n: (n.x, n[1], n._replace(x=1), n._asdict(), n == (v[0], v[1])))(NT(v[0], v[1])),
    "nt2": lambda v, s: NT2(v[0]),
    "copy": lambda v, s: (copy.copy({"a": v[0]}), copy.deepcopy([v, {"s": s}])),
    "partial": lambda v, s: functools.partial(lambda a, b: a - b, v[0])(v[1]),
    "partial_kw": lambda v, s: functools.partial(sorted, reverse=True)(v),
    "attrg": lambda v, s: operator.attrgetter("x")(NT(v[0], 2)),
    "methc": lambda v, s: operator.methodcaller("upper")(s),
    "opcmp": lambda v, s: (operator.lt(v[0], v[1]), operator.eq(v[0], 1), operator.ge(v[0], 1), operator.ne(s, "a"), operator.contains(s, "a"), operator.not_(v[0]), operator.getitem(v, 0), operator.truth(v[0])),
    "walrus": lambda v, s: [y for x in v if (y := x + 1) > 2],
    "cond": lambda v, s: "p" if v[0] > 0 else "n",
    "chaincmp": lambda v, s: 0 < v[0] < 3 <= v[1] + 2,
    "swallow": lambda v, s: (swallow(v[0]), swallow2(v[1])),
    "suppress": lambda v, s: (lambda r: r)([swallow(x) for x in v]),
    "genx": lambda v, s: list(gen(v)),
    "next": lambda v, s: next((x for x in v if x > 1), None),
    "iter2": lambda v, s: (lambda it: [next(it, 0), next(it, 0), list(it)])(iter(v)),
    "bits": lambda v, s: (v[0] << 2 | (v[1] & 3), v[0] * 8 ^ abs(v[1]), v[2] & 6, v[0] & -2, abs(v[0]) | abs(v[1]), v[0] & 5, (v[0] << 4) | 9),
    "shift": lambda v, s: functools.reduce(lambda a, b: (a << 8) | (b & 255), v, 0),
    "bytes_of": lambda v, s: (lambda b: (list(b), b[1], b[-1], int.from_bytes(b[1:3], "big"), int.from_bytes(b, "little"), int.from_bytes(b, "big"), struct.unpack(">HH", b), functools.reduce(lambda a, c: a << 8 | c, b)))((abs(v[0]) * 70000 + abs(v[1])).to_bytes(4, "big")),
    "iter_call": lambda v, s: (lambda l: list(iter(l.pop, v[2])) if v[2] in l else 0)([9, v[2]] + v[:2]),
    "iter_read": lambda v, s: list(iter(io.BytesIO(b"ab\ncd").readline, b"")),
    "json": lambda v, s: json.dumps({"a": v[0], "s": s}),
    "date": lambda v, s: datetime.date(2020, 1, 1 + abs(v[0])).isoformat(),
    "delta": lambda v, s: (datetime.datetime(2020, 2, 27) + datetime.timedelta(days=v[0])).strftime("%Y-%m-%d"),
    "hash": lambda v, s: hash(v[0]) == hash(v[1]),
    "id_": lambda v, s: v[0] is v[0],
    "str_mul": lambda v, s: s * 2 + "-" * abs(v[0]),
    "list_mul": lambda v, s: [v[0]] * abs(v[0]),
    "cmp_str": lambda v, s: (s < "ab", s == "ab", s >= "b", sorted([s, "b", "a"])),
    "bytes": lambda v, s: (bytes([abs(v[0])]) + bytearray(b"x")) == b"\x01x",
    "to_bytes": lambda v, s: abs(v[0]).to_bytes(2, "big"),
    "hexs": lambda v, s: (hex(v[0]), bin(abs(v[0])), str(v[0])),
    "sumgen": lambda v, s: sum(1 for x in v if x) + sum(x * x for x in v),
    "try_int": lambda v, s: int(s) if s.isdigit() else None,
    "getattr": lambda v, s: getattr(NT(v[0], 1), "x", None),
    "match_s": lambda v, s: _match(v[0], s),
    "late_del": lambda v, s: (lambda l: (l.remove(l[0]), l.pop(), l.insert(0, v[2]), l.extend(v), l.reverse(), l))(list(v)),
    "nested": lambda v, s: [[a * b for a in v if a] for b in v[:2]],
    "while_": lambda v, s: _while(v[0]),
    "zip_longest": lambda v, s: list(itertools.zip_longest(v, s)),
    "pairwise": lambda v, s: list(itertools.pairwise(v)),
    "starmap": lambda v, s: list(itertools.starmap(lambda a, b: a + b, zip(v, v))),
    "compress": lambda v, s: list(itertools.compress(v, v)),
    "cycle": lambda v, s: list(itertools.islice(itertools.cycle(v), 4)),
    "tee": lambda v, s: [list(x) for x in itertools.tee(iter(v), 2)],
    "singledispatch": lambda v, s: str(v) + repr(s) + repr({"a": v[0]}),
    "set_comp": lambda v, s: len({x % 2 for x in v}),
    "exc": lambda v, s: _exc(v[0]),
    "is_bool": lambda v, s: (v[0] > 1) is True,
    "eq_bool": lambda v, s: (v[0] > 1) == True,
    "xor": lambda v, s: (v[0] > 1) ^ (v[1] > 1),
    "bool_sum": lambda v, s: sum([v[0] > 1, v[1] > 1]),
    "dictview": lambda v, s: (lambda d: (list(d.keys()), list(d.values()), list(d.items()), "a" in d, s in d, s in d.keys(), {"a"} & d.keys()))({"a": v[0], "b": s}),
    "upd": lambda v, s: (lambda d: (d.update({s: 1}), d.update(a=v[0]), sorted(d.items(), key=lambda t: t[0])))({}),
    "maxkey": lambda v, s: max({"a": v[0], "b": v[1]}.items(), key=lambda kv: kv[1])[0],
    "str_idx": lambda v, s: "abcdef"[abs(v[0])],
    "list_idx": lambda v, s: [5, 6, 7, 8][v[0]],
    "negidx": lambda v, s: v[-1] + v[-2],
    "sliceassign": lambda v, s: (lambda l: (l.__setitem__(slice(0, 1), [9, 9]), l))(list(v)),
    "finditer": lambda v, s: [(m.start(), m.end(), m.group()) for m in re.finditer("a|b", s)],
    "re_subf": lambda v, s: re.sub("(a)|b", lambda m: "<" + m.group(0) + ">", s),
    "fullmatch": lambda v, s: (bool(re.fullmatch("[ab]*", s)), re.split("a", s)),
    "re_named": lambda v, s: (lambda m: m and m.groupdict())(re.match("(?P<x>a)(?P<y>.)?", s)),
    "chainmap": lambda v, s: dict(collections.ChainMap({"a": v[0]}, {"a": 1, "b": s})),
    "insort": lambda v, s: (lambda l: (bisect.insort(l, v[0]), bisect.insort(l, v[1]), l))([1, 2]),
    "merge": lambda v, s: list(heapq.merge(sorted(v), [0, 2])),
    "zipstrict": lambda v, s: list(zip(v, [1, 2, 3], strict=True)),
    "batched": lambda v, s: list(itertools.batched(v, 2)),
    "tuplekeysort": lambda v, s: sorted([{"a": v[0]}, {"a": None}, {"a": v[1]}], key=lambda r: (r["a"] is None, r["a"] or 0), reverse=True),
    "cmp_to_key": lambda v, s: sorted(v, key=functools.cmp_to_key(lambda a, b: b - a)),
    "maxtuple": lambda v, s: max((x, i) for i, x in enumerate(v)),
    "format_map": lambda v, s: "{a}-{b}".format_map({"a": v[0], "b": s}),
    "fdebug": lambda v, s: f"{s!s:>6}|{v[0]:>5}|{v[0]:<4}|{v[0]:+d}",
    "template": lambda v, s: __import__("string").Template("$a-$b").substitute(a=v[0], b=s),
    "math": lambda v, s: (__import__("math").floor(v[0] / 2), __import__("math").ceil(v[0] / 2), __import__("math").isclose(v[0], 1)),
    "mean": lambda v, s: sum(v) / len(v),
    "ctx": lambda v, s: _ctx(v),
    "send": lambda v, s: _send(v),
    "yieldfrom": lambda v, s: list(_yf(v)),
    "nonlocal": lambda v, s: _nl(v),
    "cachedprop": lambda v, s: (lambda o: (o.p, o.p, o.q, o.zz))(_Obj(v)),
    "ospath": lambda v, s: (os.path.join("x", s.strip() or "q"), os.path.basename("a/" + s), os.path.splitext(s + ".x"), os.path.split("p/" + s), os.path.dirname("p/" + s)),
    "purepath": lambda v, s: __import__("pathlib").PurePosixPath("a/b." + (s.strip() or "q")).suffix,
    "formatter": lambda v, s: [f for _, f, _, _ in __import__("string").Formatter().parse("a{x}b{y}")],
    "dt": lambda v, s: (lambda d: (d.date().isoformat(), d.replace(hour=3).isoformat(), datetime.datetime.combine(d.date(), datetime.time.min).isoformat(), d.toordinal(), d.weekday(), d.isocalendar()[1], d.timetuple().tm_yday))(datetime.datetime(2020, 2, 28, 5) + datetime.timedelta(days=v[0])),
    "td": lambda v, s: (lambda t: (t // datetime.timedelta(hours=1), t.days, t.seconds, t.total_seconds(), t / datetime.timedelta(days=1), -t < t, abs(t) == t, t % datetime.timedelta(hours=5) == datetime.timedelta(hours=1)))(datetime.timedelta(days=v[0], hours=v[1])),
    "strp": lambda v, s: datetime.datetime.strptime("2020-01-%02d" % (2 + v[0]), "%Y-%m-%d").isoformat(),
    "fromiso": lambda v, s: datetime.datetime.fromisoformat("2020-01-%02dT03:00:00" % (2 + v[0])).day,
    "monthrange": lambda v, s: __import__("calendar").monthrange(2020, 2 + v[0])[1],
    "mview": lambda v, s: bytes(memoryview(bytes([1, abs(v[0]), 3]))[1:]),
    "bytesio": lambda v, s: (lambda b: (b.write(bytes([abs(v[0])])), b.write(b"x"), b.getvalue()))(io.BytesIO()),
    "stringio": lambda v, s: (lambda b: (b.write(s), b.write("x"), b.getvalue()))(io.StringIO()),
    "bytesjoin": lambda v, s: b"\n".join([s.encode(), b"x", str(v[0]).encode()]) + b"%d" % v[0],
    "bsplit": lambda v, s: s.encode().split(b"a") + s.encode().splitlines(),
    "orj": lambda v, s: orjson.loads(orjson.dumps({"a": v, "s": s})),
    "urlq": lambda v, s: __import__("urllib.parse").parse.quote(s),
    "enumv": lambda v, s: _E(abs(v[0]) % 2).name,
    "dcfac": lambda v, s: (lambda o: (o.items.append(v[0]), o.items, o.n))(_DF(n=s)),
    "slots": lambda v, s: (lambda o: (setattr(o, "a", v[0]), o.a, hasattr(o, "b")))(_SL()),
    "dictmerge": lambda v, s: {**{"a": v[0]}, **{s: 1}},
    "setdef_chain": lambda v, s: functools.reduce(lambda d, x: {**d, x: d.get(x, 0) + 1}, v, {}),
    "any_in": lambda v, s: any(c in "a " for c in s) or not set(s) - set("ab"),
    "issub": lambda v, s: set(s) <= set("ab"),
    "trans2": lambda v, s: s.translate({ord("a"): None, ord("b"): "c"}),
    "filterstr": lambda v, s: "".join(filter("ab".__contains__, s)),
    "mapget": lambda v, s: list(map({1: "x"}.get, v)),
    "genexc": lambda v, s: next(iter([x for x in v if x == 5]), "none"),
    "unpackd": lambda v, s: (lambda a, *, b=2, **k: (a, b, k))(v[0], **{"b": s, "c": v[1]}),
    "revrange": lambda v, s: [v[i] for i in reversed(range(len(v)))],
    "delslice": lambda v, s: _dels(list(v)),
    "augidx": lambda v, s: _aug({"a": v[0]}, [s]),
    "intdiv": lambda v, s: [x // 2 * 2 == x for x in v],
    "strcmpkey": lambda v, s: sorted([s, "ab", "b"], key=str.lower) + sorted([s, "aaa"], key=len),
    "isdisj": lambda v, s: {1, 2}.isdisjoint(v),
    "typeof": lambda v, s: (type(v[0]).__name__, type(s).__name__, type(None) is type(s), isinstance(True, type(v[0]))),
    "callable": lambda v, s: [f(v[0]) for f in (str, bool, float, abs, lambda x: x)],
    "sentinel": lambda v, s: (lambda o: {"a": v[0]}.get("a", o) is o)(object()),
    "numpyless": lambda v, s: [sum(t) for t in zip(*[v, v])],
    "vars": lambda v, s: vars(_DF(n=s))["n"],
    "hasattrs": lambda v, s: (hasattr(s, "upper"), hasattr(v[0], "items"), callable(s), hasattr(v, "__iter__")),
}


@contextlib.contextmanager
def _manager(log):
    log.append("in")
    try:
        yield log
    finally:
        log.append("out")


def _ctx(v):
    log = []
    with contextlib.suppress(KeyError), _manager(log) as l:
        l.append(v[0])
        {}[v[1]]
    with contextlib.ExitStack() as st:
        st.enter_context(_manager(log))
        st.callback(log.append, v[2])
    return log


def _send(v):
    def g():
        t = 0
        while True:
            x = yield t
            if x is None:
                return
            t += x
    c = g()
    next(c)
    return [c.send(x) for x in v]


def _yf(v):
    r = yield from (x + 1 for x in v)
    yield r


def _nl(v):
    n = 0

    def add(x):
        nonlocal n
        n += x
        return n
    return [add(x) for x in v]


class _Obj:
    def __init__(self, v):
        self.v = v

    @functools.cached_property
    def p(self):
        self.v = self.v[1:]
        return self.v

    @property
    def q(self):
        return self.v[0]

    def __getattr__(self, name):
        if name == "zz":
            return 7
        raise AttributeError(name)


class _E(enum.Enum):
    NO = 0
    YES = 1


@dataclasses.dataclass
class _DF:
    n: str
    items: list = dataclasses.field(default_factory=list)


class _SL:
    __slots__ = ("a", "b")


def _dels(l):
    del l[0]
    del l[-1:]
    return l


def _aug(d, l):
    d["a"] += 2
    l[0] += "x"
    l += [1]
    return d, l



@functools.lru_cache(4)
def _lru(x):
    return x + 1


def _setaug(v):
    a = {v[0]}
    a |= {v[1]}
    b = a
    b -= {v[2]}
    c = 7
    c -= v[0]
    c &= 3
    d = frozenset(a)
    d ^= {1}
    return sorted(a), c, sorted(d)


def _exc(x):
    try:
        try:
            if x > 1:
                raise KeyError("k")
            elif x > 0:
                [][5]
            return "none"
        finally:
            y = 1
    except (KeyError, IndexError) as e:
        return type(e).__name__
    else:
        return "else"


def _while(n):
    r = []
    while n > 0:
        r.append(n)
        n -= 1
        if n == 1:
            continue
    else:
        r.append("done")
    return r


def _match(x, s):
    match x:
        case 0:
            r = "zero"
        case 1 | 2:
            r = "low"
        case int() if x > 2:
            r = "hi"
        case _:
            r = "neg"
    match s:
        case "ab":
            return r + "!"
        case str():
            return r


@harness("Z99", cases=[c for c in sorted(IDIOMS) if c in __import__("os").environ.get("IDI",c).split(",")])
def idiom(env, case):
    v = [env.int("v%d" % i, -1, 3) for i in range(3)]
    s = env.str("s", "ab ", 0, 2)
    r = env.catch(IDIOMS[case], v, s)
    env.observe("r", r)
    env.check(True, "ok")
