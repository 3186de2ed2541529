"""in memory data sets: relational operations, storage classes, distinct, grouping, sorting, aggregates"""
from decimal import Decimal

from symx.env import harness

from mabel.data.internals.collected_set import CollectedSet
from mabel.data.internals.dictset import STORAGE_CLASS, DictSet
from mabel.data.internals.group_by import GroupBy

NONE, MEM, DISK, COMP = (STORAGE_CLASS.NO_PERSISTANCE, STORAGE_CLASS.MEMORY, STORAGE_CLASS.DISK,
                         STORAGE_CLASS.COMPRESSED_MEMORY)
CLASSES = {"none": NONE, "list": NONE, "memory": MEM, "disk": DISK, "compressed": COMP}


def small_batches(env):
    """the size limits of the storage classes, small enough to be crossed"""
    env.constant("mabel.data.internals.storage_classes.storage_class_compressed_memory", "BATCH_SIZE", 250, 2)
    env.constant("mabel.data.internals.storage_classes.storage_class_disk", "BUFFER_SIZE", 16 * 1024 * 1024, env.int("buffer", 0, 60))


class Source:
    """an iterator which counts what was taken from it"""

    def __init__(self, rows):
        self.rows, self.taken = rows, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.taken >= len(self.rows):
            raise StopIteration()
        self.taken += 1
        return self.rows[self.taken - 1]


def make(env, storage, rows):
    rows = [dict(r) for r in rows]
    if storage == "list":
        return DictSet(rows)
    if storage == "none":
        return DictSet(r for r in rows)
    return DictSet((r for r in rows), storage_class=CLASSES[storage])


def rows_ab(env, n, lo=0, hi=9, nulls=True):
    """rows of an integer field a (null or missing, too) and a row number"""
    out = []
    for i in range(n):
        r = {"n": i}
        kind = env.choice("kind%d" % i, ["int", "null", "missing"]) if nulls else "int"
        if kind == "int":
            r["a"] = env.int("a%d" % i, lo, hi)
        elif kind == "null":
            r["a"] = None
        out.append(r)
    return out


# ---------------------------------------------------------------- D01
def d01_cases(tier):
    sizes = (3,) if tier == "quick" else (0, 4)
    return [[s, op, n] for s in ("none", "list", "memory", "disk", "compressed") for n in sizes
            for op in ("select", "filter", "take", "chain", "collect")]


@harness("D01", cases=d01_cases, reach=["checked"],
         bounds="3 rows (thorough 0 and 4) with an integer 0..9, a null or no value in the field, row number beside it; any threshold; "
                "any number of rows to take; each storage class (compressed batches of 2, disk buffer 0, 40 or 16M)")
def relational(env, case):
    storage, op, n = case
    if storage in ("disk", "compressed"):
        small_batches(env)
    rows = rows_ab(env, n)

    def ds():
        return make(env, storage, rows)
    env.reach("checked")
    if op == "select":
        got = list(ds().select(["a", "z"]))
        env.check(env.eq(got, [{"a": r.get("a"), "z": None} for r in rows]), "select keeps every row, reduced to the columns, nulls for missing ones")
        env.check([list(r.keys()) for r in got] == [["a", "z"]] * n, "select gives the columns in the order asked for")
        env.check(env.eq(list(ds().select("a")), [{"a": r.get("a")} for r in rows]), "one column")
        env.check(env.eq(list(ds()["a", "n"]), [{"a": r.get("a"), "n": r["n"]} for r in rows]), "select by index")
        env.check(env.eq(list(ds().select("*")), rows), "select *")
        env.check(env.eq(list(ds().select(["*"])), rows), "select [*]")
        env.check(env.eq(list(ds().select(["*", "a"])), rows), "every column and one again")
        env.check(env.eq(list(ds().project(["a"])), [{"a": r.get("a")} for r in rows]), "project is select")
        env.check(env.eq(list(ds().select(("n", "y", "z"))), [{"n": r["n"], "y": None, "z": None} for r in rows]), "several columns no row has")
        env.check(ds().select(["a", "z"]).count() == (-1 if storage in ("none", "list") else n), "a selection is kept as the data set is")
    elif op == "filter":
        t = env.int("t", -1, 10)
        want = [r for r in rows if r.get("a") is not None and r["a"] > t]
        got = [list(ds().filter(lambda r: r.get("a") is not None and r["a"] > t)),
               list(ds().filter(("a", ">", t))), list(ds().filter([("a", ">", t)]))]
        env.observe("got", got)
        env.check(env.eq(list(ds().filter(lambda r: r.get("a"))), [r for r in rows if r.get("a") is not None and r["a"] != 0]), "a function may answer by any value which is true or false")
        if storage == "none":
            env.check(env.eq(list(ds().filter("a > 4")), [r for r in rows if r.get("a") is not None and r["a"] > 4]), "filter by a text")
        env.check(ds().filter(lambda r: True).count() == (-1 if storage in ("none", "list") else n), "what a filter keeps is kept as the data set is")
        env.check(env.eq(got[0], want), "filter by a function keeps exactly the rows it accepts, in order")
        env.check(env.eq(got[1], want), "filter by a predicate keeps exactly the rows which satisfy it, in order")
        env.check(env.eq(got[2], want), "filter by a list of predicates keeps exactly the rows which satisfy them, in order")
    elif op == "take":
        k = env.pin(env.int("k", 0, n + 1))
        env.check(env.eq(list(ds().take(k)), rows[:k]), "take returns the first rows")
        env.check(env.eq(list(ds().itake(k)), rows[:k]), "itake returns the first rows")
        env.check(ds().take(k).count() == (-1 if storage in ("none", "list") else min(k, n)), "what is taken is kept as the data set is")
        if storage == "none":
            src = Source(rows)
            d = DictSet(src)
            head = list(d.itake(k))
            env.check(src.taken == min(k, n), "taking rows consumes no more rows than that")
            env.check(env.eq(head + list(d), rows), "the rest of the rows are still there")
        f = ds().first()
        env.check(env.eq(f, rows[0] if rows else None), "first is the first row, or nothing")
        loc = [i for i in range(n) if env.bool("pick%d" % i)] if storage in ("none", "list", "memory") else [0, n - 1][:n]
        env.check(env.eq(list(ds().get_items(*loc)), [rows[i] for i in loc]), "get_items returns the rows at these places")
    elif op == "collect":
        env.check(env.eq(ds().collect_list(), rows), "collect_list returns every row")
        env.check(env.eq(ds().collect_list("a"), [r["a"] for r in rows if "a" in r]), "collect_list returns the values of the field")
        want = ["n"] if rows else []
        if any("a" in r for r in rows):
            want = want + ["a"]
        env.check(ds().keys() == want, "keys are the fields of all of the rows, in order of appearance")
        shapes = [env.choice("shape%d" % i, [["b"], ["n", "c"], ["n"], []]) for i in range(n)] if storage in ("none", "memory") else []
        fields = []
        for s in shapes:
            fields = fields + [f for f in s if f not in fields]
        env.check(make(env, storage, [{f: 0 for f in s} for s in shapes]).keys() == fields, "keys of rows with different fields")
        if n:
            env.check(ds().keys(1) == list(rows[0].keys()), "keys of the first row only")
        c = ds().count()
        env.check(c == (-1 if storage == "none" else n), "count of the rows")
    else:
        t = env.int("t", -1, 10)
        k = env.pin(env.int("k", 1, 2))
        want = [{"a": r["a"]} for r in rows if r.get("a") is not None and r["a"] <= t]
        got = list(ds().filter(("a", "<=", t)).select(["a"]).take(k))
        env.check(env.eq(got, want[:k]), "operations can be chained")


@harness("D01", cases=lambda tier: [["none", 2], ["memory", 2]] if tier == "quick" else [["none", 3], ["memory", 3], ["list", 3]],
         reach=["kept", "left out", "all"],
         bounds="2 rows (thorough 3), any random bytes, fraction one of 1/50, 0.25, 0.5, 0.75, 1")
def sampling(env, case):
    storage, n = case
    env.urandom()
    rows = [{"n": i} for i in range(n)]
    f = env.choice("fraction", [0.02, 0.25, 0.5, 0.75, 1.0])
    got = [r["n"] for r in make(env, storage, rows).sample(f)]
    env.observe("got", got)
    if len(got):
        env.reach("kept")
    if len(got) < n:
        env.reach("left out")
    env.check(all(got[i] < got[i + 1] for i in range(len(got) - 1)), "a sample is some of the rows, in order, each once")
    if f == 1.0:
        env.reach("all")
        env.check(got == list(range(n)), "a sample of everything is everything")



# ---------------------------------------------------------------- D02
KINDS = ["int", "str", "bool", "null", "nested", "empty"]


def d02_cases(tier):
    return [[s, k, n] for s in ("memory", "disk", "compressed") for k in KINDS for n in ((3,) if tier == "quick" else (0, 1, 3, 5))] + ([[s, "int", 0] for s in ("memory", "disk", "compressed")] if tier == "quick" else [])


@harness("D02", cases=d02_cases, reach=["iterated"],
         bounds="0 or 3 rows (thorough 0..5) with an integer, string of length 0..2 over {a quote newline e-acute}, boolean, null, nested "
                "value or no fields; compressed batches of 2, disk buffer 0..60 bytes")
def storage(env, case):
    storage, kind, n = case
    small_batches(env)
    rows = []
    for i in range(n):
        if kind == "int":
            v = env.int("v%d" % i, -(10 ** 6), 10 ** 6)
        elif kind == "str":
            v = env.str("v%d" % i, "a\"\n\u00e9", 0, 2)
        elif kind == "bool":
            v = env.bool("v%d" % i)
        elif kind == "null":
            v = None
        else:
            v = {"k": [env.int("v%d" % i, 0, 9), None, {"m": "x"}]}
        rows.append({"n": i, "v": v} if kind != "empty" or env.bool("full%d" % i) else {})
    ds = make(env, storage, rows)
    env.check(ds.count() == n, "count is the number of rows")
    first = list(ds)
    env.observe("rows", first)
    env.reach("iterated")
    env.check(env.eq(first, rows), "the rows stored are the rows given, in order")
    env.check(env.eq(list(ds), rows), "and again")
    env.check(env.eq([r for r in ds], rows), "and in a loop")
    copy = [dict(r) for r in rows]
    other = DictSet(copy, storage_class=CLASSES[storage])
    del copy[1:]
    env.check(env.eq(list(other), rows) and other.count() == n, "a list which changes afterwards does not change what is stored")
    if n:
        env.check(env.eq(ds.first(), rows[0]), "first is the first row")
        nxt = next(ds)
        loc = [i for i in range(n) if env.bool("pick%d" % i)] if kind in ("int", "empty") else [0, n - 1] if n > 1 else [0]
        env.check(env.eq(list(ds.get_items(*loc)), [rows[i] for i in loc]), "get_items returns the rows at these places")
    env.check(env.eq(list(ds), rows), "reading does not change what is stored")


@harness("D02", cases=["memory", "disk", "compressed"], reach=["iterated"], bounds="a loop over 1..3 rows within a loop over the same data set")
def loop_in_a_loop(env, storage):
    n = env.pin(env.int("n", 1, 3))
    ds = make(env, storage, [{"n": i} for i in range(n)])
    pairs = [(r["n"], s["n"]) for r in ds for s in ds]
    env.reach("iterated")
    env.check([b for a, b in pairs if a == 0] == list(range(n)), "a loop within a loop gives every row")
    ended = len(pairs) == n and n > 1  # by the loop within
    env.check(pairs == [(i, j) for i in range(n) for j in range(n)], "loops within loops do not disturb each other", known=("KF-D02-nested-loops", ended))


# ---------------------------------------------------------------- D03
VALUES = ["1", "a", "11", ""]


def dvalue(env, name, tier="quick"):
    k = env.choice(name + ".kind", ["int", "str", "null", "missing"])
    if k == "int":
        return env.int(name + ".i", 0, 11)
    if k == "str":
        return env.str(name + ".s", "1,a", 0, 2)
    if k == "null":
        return None
    return "missing"


def put(r, k, v):
    if not (type(v) is str and v == "missing"):
        r[k] = v


def same_value(env, x, y, k):
    if (k in x) != (k in y):
        return False
    if k not in x:
        return True
    a, b = x[k], y[k]
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) != isinstance(b, str):
        return False
    return a == b


@harness("D03", cases=lambda tier: [["none", 2, "columns"], ["memory", 2, "one"], ["none", 2, "rows"]] if tier == "quick" else
         [["none", 2, "columns"], ["memory", 3, "one"], ["none", 2, "rows"], ["none", 3, "few"]],
         reach=["duplicate", "different"],
         bounds="2..3 rows, two fields each an integer 0..11, a string of length 0..2 over {1 , a}, null or missing")
def distinct(env, case):
    storage, n, kind = case
    rows = []
    for i in range(n):
        r = {}
        put(r, "a", dvalue(env, "a%d" % i))
        if kind in ("columns", "rows"):
            put(r, "b", dvalue(env, "b%d" % i))
        if kind != "rows":
            r["n"] = i
        if kind == "rows" and env.bool("swap%d" % i):
            r = {k: r[k] for k in reversed(list(r))}
        rows.append(r)
    cols = {"columns": ["a", "b"], "one": ["a"], "few": ["a"], "rows": ["a", "b"]}[kind]
    got = list(make(env, storage, rows).distinct(*([] if kind == "rows" else cols)))
    want = []
    for r in rows:
        if any(all(same_value(env, r, w, k) for k in cols) for w in want):
            env.reach("duplicate")
        else:
            want.append(r)
    if len(want) > 1:
        env.reach("different")
    env.observe("got", got)
    env.check(env.eq(got, want), "distinct keeps exactly the first row of each different combination of values")


@harness("D03", cases=["one", "rows"], reach=["duplicate", "different"],
         bounds="2 rows with one of 12 values which look alike (1, '1', 1.5, true, 'True', null, 'None', none, '', [], '[]', -1)")
def alike(env, case):
    rows = []
    for i in range(2):
        v = env.choice("v%d" % i, [1, "1", 1.5, True, "True", None, "None", "missing", "", [], "[]", -1])
        r = {"a": v} if v != "missing" else {}
        rows.append(r if case == "rows" else dict(r, n=i))
    got = list(DictSet(rows).distinct(*(["a"] if case == "one" else [])))
    kinds = [(type(r["a"]), r["a"]) if "a" in r else None for r in rows]
    same = kinds[0] == kinds[1]
    env.reach("duplicate" if same else "different")
    env.check(got == rows[:1 if same else 2], "values which only look alike are different")


@harness("D03", cases=[[1], [3], [7]], reach=["many"], bounds="up to 140 rows in which 1, 3 or 7 values recur, in an order of any offset and step")
def distinct_many(env, case):
    m, = case
    start, step = env.pin(env.int("start", 0, 2)), env.pin(env.int("step", 1, 2))
    rows = [{"a": (start + i * step) % m, "b": "x%d" % ((start + i * step) % m), "n": i} for i in range(20 * m)]
    env.reach("many")
    want = list({r["a"]: r for r in reversed(rows)}.values())
    want.sort(key=lambda r: r["n"])
    env.check(env.eq(list(DictSet(rows).distinct("a")), want), "of values which recur again and again the first row is kept")
    env.check(env.eq(list(DictSet(rows).distinct("b", "a")), want), "and of several columns")
    env.check(env.eq(list(DictSet(rows).distinct()), rows), "rows which differ all stay")


# ---------------------------------------------------------------- D04
def groups_of(rows, cols):
    """[(key, rows)] - missing and null are alike"""
    out = []
    for r in rows:
        k = {c: r.get(c) for c in cols}
        for kk, rr in out:
            if all(same_value(None, k, kk, c) for c in cols):
                rr.append(r)
                break
        else:
            out.append((k, [r]))
    return out


AGGS = {"count": [("COUNT", "*")], "max": [("MAX", "v")], "min": [("MIN", "v")], "sum": [("SUM", "v")], "avg": [("AVG", "v")],
        "mixed": [("AVG", "v"), ("SUM", "v"), ("COUNT", "*"), ("COUNT", "v")]}


@harness("D04", cases=lambda tier: [[a, n, k] for a in AGGS for n, k in (((2, "two"), (2, "one"), (3, "few")) if tier == "quick" else ((3, "two"), (2, "one"), (4, "few")))] +
         ([["count", 3, "one"]] if tier != "quick" else []),
         reach=["one group", "several groups", "nulls"],
         bounds="2..3 rows (thorough 2..4), grouped by one field with values as in D03 (3 and more rows: a text, a number or null) or two fields with choices of text and numbers, aggregated field an integer -3..3, null or missing")
def grouping(env, case):
    agg, n, kind = case
    rows = []
    for i in range(n):
        r = {}
        if kind == "two":
            r["g"] = env.choice("g%d" % i, ["a", "ab", 1, None])
            r["h"] = env.choice("h%d" % i, ["bc", "c", "1", "a", None])
        elif kind == "few":
            r["g"] = env.choice("g%d" % i, ["a", 1, None])
        else:
            put(r, "g", dvalue(env, "g%d" % i))
        if agg != "count":
            k = env.choice("k%d" % i, ["int"] if kind == "two" else ["int", "null", "missing"])
            if k == "int":
                r["v"] = env.int("v%d" % i, -3, 3)
            elif k == "null":
                r["v"] = None
                env.reach("nulls")
        else:
            env.reach("nulls")
        rows.append(r)
    cols = ["g", "h"] if kind == "two" else ["g"]
    want = []
    gs = groups_of(rows, cols)
    env.reach("one group" if len(gs) == 1 else "several groups")
    if agg != "count" and not any("v" in r and r["v"] is None for r in rows) and kind == "two":
        env.reach("nulls")
    for k, members in gs:
        vs = [r["v"] for r in members if r.get("v") is not None]
        w = dict(k)
        for f, c in AGGS[agg]:
            if f == "COUNT":
                w["COUNT(%s)" % c] = len(members) if c == "*" else len(vs)
            elif not vs:
                w["%s(v)" % f] = None
            elif f == "MAX":
                w["MAX(v)"] = max(vs)
            elif f == "MIN":
                w["MIN(v)"] = min(vs)
            elif f == "SUM":
                w["SUM(v)"] = sum(vs)
            else:
                w["AVG(v)"] = [sum(vs), len(vs)]
        want.append(w)
    gb = make(env, env.choice("storage", ["memory"]), rows).group_by(cols if kind == "two" else "g")
    asked = list(AGGS[agg])
    if agg == "mixed":
        got = list(gb.aggregate(asked))
    else:
        got = list({"count": lambda: gb.count(), "max": lambda: gb.max("v"), "min": lambda: gb.min("v"), "sum": lambda: gb.sum("v"),
                    "avg": lambda: gb.average("v")}[agg]())
    env.observe("groups", len(got))
    env.check(len(got) == len(want), "one row for each group")
    env.check(asked == AGGS[agg], "the request is left as it was")
    for w in want:
        hit = [x for x in got if all(same_value(env, x, w, c) for c in cols)]
        env.check(len(hit) == 1, "each group has one row")
        x = hit[0]
        for k in w:
            if k in cols:
                continue
            if k.startswith("AVG") and w[k] is not None:
                env.check(x[k] is not None and x[k] * w[k][1] == w[k][0], "the average is the sum of the values by their number")
            elif w[k] is None:
                env.check(x[k] is None, "%s of no values is null" % k)
            else:
                env.check(x[k] is not None and x[k] == w[k], "%s of the group" % k)


@harness("D04", cases=[2], reach=["grouped"],
         bounds="2 rows, aggregated fields a text of up to one letter, a boolean, an integer or null; several columns asked for, or one by its name")
def values_of_any_kind(env, case):
    rows = []
    for i in range(case):
        k = env.choice("k%d" % i, ["str", "bool", "int", "null"])
        v = env.str("s%d" % i, "ab", 0, 1) if k == "str" else env.bool("b%d" % i) if k == "bool" else env.int("i%d" % i, -1, 1) if k == "int" else None
        rows.append({"g": 1, "v": v, "ww": env.int("w%d" % i, -3, 3)})
    env.reach("grouped")
    got = list(DictSet(rows).group_by("g").aggregate([("COUNT", "v")]))
    env.check(len(got) == 1 and got[0]["COUNT(v)"] == len([r for r in rows if r["v"] is not None]), "every value which is not null is counted")
    ws = [r["ww"] for r in rows]
    if rows[0]["v"] is not None and rows[1]["v"] is not None and isinstance(rows[0]["v"], str) == isinstance(rows[1]["v"], str):
        lo, hi = rows[0]["v"], rows[1]["v"]
        if lo > hi:
            lo, hi = hi, lo
        got = list(DictSet(rows).group_by("g").min(["v", "ww"]))
        env.check(len(got) == 1 and got[0]["MIN(v)"] == lo and got[0]["MIN(ww)"] == min(ws), "the least of several columns")
        got = list(DictSet(rows).group_by(["g"]).max(("v", "ww")))
        env.check(len(got) == 1 and got[0]["MAX(v)"] == hi and got[0]["MAX(ww)"] == max(ws), "the greatest of several columns")
    got = list(DictSet(rows).group_by("g").sum(["ww"]))
    env.check(len(got) == 1 and got[0]["SUM(ww)"] == sum(ws), "the sum of a list of one column")
    got = list(DictSet(rows).group_by("g").average("ww"))
    env.check(len(got) == 1 and got[0]["AVG(ww)"] * len(ws) == sum(ws), "the average of one column")


@harness("D04", cases=lambda tier: [2, 3], reach=["grouped"], bounds="2..3 rows, group field as in D03; groups() lists each group once")
def group_names(env, case):
    rows = []
    for i in range(case):
        r = {"n": i}
        put(r, "g", dvalue(env, "g%d" % i))
        rows.append(r)
    want = [k for k, _ in groups_of(rows, ["g"])]
    got = list(GroupBy(rows, "g").groups())
    env.observe("got", got)
    env.reach("grouped")
    env.check(env.eq(got, want), "groups lists each different value once")


# ---------------------------------------------------------------- D05
@harness("D05", cases=lambda tier: [[s, n] for s in ("memory", "none") for n in ((3,) if tier == "quick" else (4,))] + ([["none", 4]] if tier == "quick" else [["none", 5]]),
         reach=["cut", "all"],
         bounds="3..4 rows (thorough 4..5), sorted field an arbitrary integer, null or missing (5 rows: integers), any number to take 0..n, both directions")
def sorting(env, case):
    storage, n = case
    rows = rows_ab(env, n, -2, 2, nulls=n < 4 or env.tier != "quick" and n < 5)
    take = env.pin(env.int("take", 0, n))
    desc = env.bool("descending")
    got = list(make(env, storage, rows).sort_and_take("a", take, desc))
    env.reach("cut" if take < n else "all")
    env.observe("got", got)
    env.check(len(got) == min(take, n), "as many rows as asked for, or all")
    order = [r["n"] for r in got]

    def before(x, y):
        """x sorts strictly before y"""
        if desc:
            x, y = y, x
        if x.get("a") is None:
            return y.get("a") is not None
        return y.get("a") is not None and x["a"] < y["a"]
    env.check(len(set(order)) == len(order), "each row at most once")
    env.check(all(not before(got[i + 1], got[i]) for i in range(len(got) - 1)), "the rows are in order, nulls lowest")
    left = [r for r in rows if r["n"] not in order]
    env.check(all(not before(x, got[-1]) for x in left) if got else True, "no row which was left out sorts before one returned")


# ---------------------------------------------------------------- D06
@harness("D06", cases=lambda tier: [["none", 3], ["memory", 3]] if tier == "quick" else [["none", 4], ["memory", 4], ["disk", 3], ["compressed", 3]],
         reach=["values", "none"],
         bounds="3 rows (thorough 4), field an integer +-100, null or missing, at least one value for all but sum")
def aggregates(env, case):
    storage, n = case
    rows = []
    for i in range(n):
        r = {"n": i}
        has = env.choice("has%d" % i, [0, 1, 2])
        if has:
            r["a"] = env.int("a%d" % i, -100, 100) if has == 1 else None
        rows.append(r)
    vs = [r["a"] for r in rows if r.get("a") is not None]

    def ds():
        return make(env, storage, rows)
    s = ds().sum("a")
    env.check(s == sum(vs), "sum")
    if not vs:
        env.reach("none")
        return
    env.reach("values")
    lo, hi = ds().min("a"), ds().max("a")
    env.observe("lo,hi", [lo, hi])
    env.check(env.all([lo <= v for v in vs] + [env.any([lo == v for v in vs])]), "min")
    env.check(env.all([hi >= v for v in vs] + [env.any([hi == v for v in vs])]), "max")
    mm = ds().min_max("a")
    env.check(len(mm) == 2 and mm[0] == lo and mm[1] == hi, "min_max is min and max")
    m = ds().mean("a")
    d = m * len(vs) - sum(vs)
    env.check(env.all([d < 0.000001, d > -0.000001]), "mean")


@harness("D06", cases=[["none"], ["memory"]], reach=["spread"],
         bounds="2..4 rows, field one of -2, 0, 1, 3 or missing, at least two values")
def spread(env, case):
    vs = [v for v in [env.choice("v%d" % i, [-2, 0, 1, 3, "none"]) for i in range(3)] if v != "none"] + [1]
    env.assume(len(vs) >= 2)
    env.reach("spread")
    rows = [{"a": v} for v in vs] + [{"b": 1}, {"a": None}]
    n = len(vs)
    want = (n * sum([v * v for v in vs]) - sum(vs) ** 2) / (n * (n - 1))
    got = make(env, case[0], rows).variance("a")
    env.check(abs(got - want) < 1e-9, "variance is the sum of the squares of the distances from the mean by one less than their number")
    got = make(env, case[0], rows).standard_deviation("a")
    env.check(got >= 0 and abs(got * got - want) < 1e-9, "standard deviation is the root of it")


# ---------------------------------------------------------------- D07
@harness("D07", cases=lambda tier: [[2, False], [3, False], [2, True]] if tier == "quick" else [[3, False], [4, False], [3, True]],
         reach=["one", "several"],
         bounds="2..3 rows (thorough 3..4), collected by an integer 0..3, a string, null or missing; with and without removing duplicates")
def collections(env, case):
    n, dedupe = case
    rows = []
    for i in range(n):
        r = {}
        g = env.choice("k%d" % i, ["int", "a", "null", "missing"])
        if g == "int":
            r["g"] = env.int("g%d" % i, 0, 3)
        elif g == "a":
            r["g"] = "a"
        elif g == "null":
            r["g"] = None
        r["v"] = env.int("v%d" % i, 0, 2)
        if not dedupe:
            r["n"] = i
            if i == 0 and env.bool("null"):
                r["v"] = None
        rows.append(r)
    gs = groups_of(rows, ["g"])
    env.reach("one" if len(gs) == 1 else "several")
    given = [dict(r) for r in rows]
    ds = make(env, "memory", rows)
    cs = ds.collect_set("g", dedupe=dedupe)
    env.check(env.eq(list(ds), given), "the rows collected are left as they were")
    env.check(len(cs) == len(gs), "one collection for each value")
    counts = cs.count()
    for k, members in gs:
        key = k["g"]
        mine = [{x: y for x, y in r.items() if x != "g"} for r in members]
        if dedupe:
            seen = []
            for m in mine:
                if not any(m["v"] == s["v"] for s in seen):
                    seen.append(m)
            mine = seen
        env.check(key in cs, "the value has a collection")
        env.check(counts[key] == len(mine), "count of a collection")
        if key is not None:
            env.check(cs.count(key) == len(mine), "count of one collection")
        env.check(env.eq(list(cs[key].values.collect_list()), mine), "the collection holds the rest of its rows, in order")
        env.check(env.eq(cs[key]["v"], [m["v"] for m in mine]), "the values of a field")
        some = [m["v"] for m in mine if m["v"] is not None]
        env.check(env.eq(cs.aggregate("v", sum)[key], sum(some)), "an aggregation")
        env.check(cs.aggregate("v", len)[key] == len(some), "an aggregation is given every value which is not null")
        env.check(cs.apply(len)[key] == len(mine), "a function applied")
        env.check(env.eq(cs[key]["v", "z"], [{"v": m["v"], "z": None} for m in mine]), "several fields of a collection")
        env.check(env.eq(cs[key].get("v"), [m["v"] for m in mine]) and cs[key].get("z") is None and len(cs[key]) == len(mine), "get gives the values of a field, or nothing")
        env.check(env.eq([r for k2, r in cs.items() if type(k2) is type(key) and k2 == key], mine), "items gives the rows beside their value")
    env.check(cs.count("1") == 0 and cs.count(99) == 0 and "1" not in cs, "a value no row has")
    if len(gs) > 1:
        a, b = gs[0][0]["g"], gs[1][0]["g"]
        two = cs[[b, "1", a]]
        env.check(len(two) == 2 and two.count() == {a: counts[a], b: counts[b]}, "several collections can be selected by a list")
        two = cs[a, b]
        env.check(len(two) == 2 and two.count() == {a: counts[a], b: counts[b]}, "several collections can be selected")
    env.check(len(list(cs.items())) == sum(counts.values()), "items lists every row with its value")


@harness("D07", cases=["kinds", "field missing or null"], reach=["collected"],
         bounds="three rows without duplicates, of values of any kind (numbers, text, booleans, lists, dictionaries, null)")
def collections_of_kinds(env, case):
    env.reach("collected")
    if case == "kinds":
        rows = [{"g": "a", "v": env.choice("v%d" % i, [1, "1", None, [1], [1, 2], {"x": [1]}, "[1]"])} for i in range(3)]
        want = []
        for r in rows:
            if not any(type(r["v"]) is type(w) and r["v"] == w for w in want):
                want.append(r["v"])
        cs = make(env, "memory", rows).collect_set("g", dedupe=True)
        env.check([i["v"] for k, i in cs.items()] == want and cs.count() == {"a": len(want)} and len(cs["a"]) == len(want), "each different row once, whatever its values")
        return
    rows = [env.choice("r%d" % i, [{"g": None, "v": [1]}, {"v": [1]}, {"g": 1, "v": [1]}]) for i in range(3)]
    none, one = [r for r in rows if r.get("g") is None], [r for r in rows if r.get("g") == 1]
    cs = make(env, "memory", rows).collect_set("g", dedupe=True)
    env.check(sorted(repr(i) for i in cs.items()) == sorted(repr(i) for i in ([(None, {"v": [1]})] if none else []) + ([(1, {"v": [1]})] if one else [])), "each once")


# ---------------------------------------------------------------- D08
@harness("D08", cases=lambda tier: [["none", 2], ["memory", 2], ["compressed", 2]] if tier == "quick" else [["none", 3], ["memory", 3], ["disk", 3], ["compressed", 3]],
         reach=["hashed"],
         bounds="2 rows (thorough 3) of arbitrary integers, strings or nulls, any order of the rows and of the fields of each")
def order_free_hash(env, case):
    storage, n = case
    rows = []
    for i in range(n):
        rows.append({"a": env.int("a%d" % i, 0, 99), "A": env.choice("b%d" % i, ["x", "", None])})
    perm = env.choice("order", list(perms(n)))
    other = []
    for i in perm:
        r = rows[i]
        other.append({"A": r["A"], "a": r["a"]} if env.bool("swap%d" % i) else dict(r))
    h = make(env, storage, rows).__hash__()
    g = make(env, storage, other).__hash__()
    env.reach("hashed")
    env.check(h == g, "the hash does not depend on the order of rows or fields")
    if n == 2:
        x = make(env, storage, rows[:1]).__hash__()
        y = make(env, storage, rows[1:]).__hash__()
        env.check(env.implies(x == y, env.eq(rows[0], rows[1])), "rows which differ have different hashes")


def perms(n):
    if n == 0:
        yield []
        return
    for p in perms(n - 1):
        for i in range(n):
            yield p[:i] + [n - 1] + p[i:]


# ---------------------------------------------------------------- D09
VALUE_KINDS = ["int", "float", "str", "bool", "list", "null", "missing"]


@harness("D09", cases=lambda tier: [[s, n] for s in ("memory", "compressed", "none") for n in ((1, 2, 3) if s == "memory" else (2,) if s == "compressed" else (1, 2))] +
         ([] if tier == "quick" else [["memory", 4], ["disk", 3], ["compressed", 3]]),
         reach=["one kind", "numeric", "mixed", "empty"],
         bounds="1..3 rows (thorough 4), a field each an arbitrary integer, fraction, text, boolean, list, null or missing; the kinds of all of the rows or of the first 1..n")
def kinds(env, case):
    storage, n = case
    small_batches(env)
    rows, seen = [], []
    for i in range(n):
        k = env.choice("kind%d" % i, VALUE_KINDS)
        r = {"n": i}
        if k == "int":
            r["v"] = env.int("v%d" % i, -5, 5)
        elif k == "float":
            r["v"] = env.int("v%d" % i, -5, 5) / 2
        elif k == "str":
            r["v"] = env.str("v%d" % i, "1a", 0, 1)
        elif k == "bool":
            r["v"] = env.bool("v%d" % i)
        elif k == "list":
            r["v"] = []
        elif k == "null":
            r["v"] = None
        rows.append(r)
        seen.append(k)
    first = env.pin(env.int("first", 1, n))
    ds = make(env, storage, rows)
    got = ds.types(first)
    env.observe("types", got)
    present = [k for k in seen[:first] if k != "missing"]
    found = set(k for k in present if k != "null")
    want = {"n": "int"}
    if present:
        want["v"] = "empty" if not found else list(found)[0] if len(found) == 1 else "numeric" if found == {"int", "float"} else "mixed"
        env.reach({"empty": "empty", "numeric": "numeric", "mixed": "mixed"}.get(want["v"], "one kind"))
    env.check(got == want, "the kind of each column is that of its values, numeric, mixed or empty")
