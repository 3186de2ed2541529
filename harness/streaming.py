"""stream writer: routing, conservation under schedules, pool eviction, containment"""
import datetime
import string

import orjson

from harness.common import CommitFailed, Sched, Store, mem_writer, models, no_del, no_random, payload, ticking_clock, wrap
from symx.env import SchedLock, SchedRLock, harness

from mabel.data import StreamWriter
from mabel.data.writers.internals.blob_writer import BlobWriter
from mabel.data.writers.internals.writer_pool import WriterPool

DAY = "2024-02-29"
SAFE = string.ascii_letters + string.digits + string.whitespace
COLUMNS = [{"name": "n", "type": "INTEGER"}, {"name": "v", "type": "VARCHAR"}]


class Wait(BaseException):
    """the attendant went to sleep"""


def setup(env):
    no_del(env)
    ticking_clock(env)
    no_random(env)
    env.patch("threading.Thread.start", lambda self: None)
    env.patch("threading.Lock", SchedLock)
    env.patch("threading.RLock", SchedRLock)
    return Store()


def stream(env, store, dataset="bucket/data", fmt="jsonl", **kw):
    kw.setdefault("schema", False)
    return StreamWriter(dataset=dataset, format=fmt, inner_writer=mem_writer(store), **kw)


def clean(v):
    return "".join([c for c in str(v) if c in SAFE])


def squash(folder):
    """empty path segments vanish"""
    return "/".join([p for p in folder.split("/") if p != ""])


def rows(blob):
    return [orjson.loads(x) for x in blob.split(b"\n")[:-1]]


def split_name(name):
    i = name.rfind("/")
    return name[:i], name[i + 1:]


# ---------------------------------------------------------------- W04
TEMPLATES = {
    "none": ("bucket/data", [], "bucket/data/year_2024/month_02/day_29"),
    "one": ("bucket/data/by_{p}", ["p"], "bucket/data/by_{p}/year_2024/month_02/day_29"),
    "two": ("bucket/data/{p}/q_{q}", ["p", "q"], "bucket/data/{p}/q_{q}/year_2024/month_02/day_29"),
    "same": ("bucket/{p}/data/{p}", ["p"], "bucket/{p}/data/{p}/year_2024/month_02/day_29"),
}
KINDS = ["str", "list", "int", "none", "missing", "empty", "mixed"]


def field_value(env, name, kind, hi):
    if kind == "str":
        return env.str(name, "aB-1", 0, hi)
    if kind == "list":
        return [env.str(name + "x", "aB-1", 0, hi), env.str(name + "y", "aB-1", 0, 1)]
    if kind == "int":
        return env.int(name, -12, 12)
    if kind == "mixed":
        return [env.int(name, -3, 3), env.str(name + "y", "1-3", 0, 2), None]
    if kind == "empty":
        return []
    return None


def w04_cases(tier):
    out = [["none", [], False], ["none", [], True]]
    out += [["one", [k], s] for k in KINDS for s in (False, True)]
    out += [["same", [k], False] for k in ("str", "list")]
    two = [("str", "str"), ("list", "int"), ("missing", "str"), ("list", "empty"), ("list", "list")]
    if tier != "quick":
        two += [(a, b) for a in KINDS for b in KINDS if (a, b) not in two]
    out += [["two", list(k), False] for k in two]
    return out


@harness("W04", cases=w04_cases, reach=["placed", "several partitions", "backout"],
         bounds="one record; templates with 0..2 field placeholders; field values: symbolic strings of length 0..2 over "
                "{a,B,-,1} (lists of two), integers -12..12, null, missing, empty list, mixed list; with a schema the record "
                "conforms or not (choice)")
def routing(env, case):
    tname, kinds, with_schema = case
    dataset, names, folder = TEMPLATES[tname]
    store = setup(env)
    hi = 2 if env.tier != "quick" or len(names) < 2 else 1
    good = True
    kw = {}
    if with_schema:
        kw["schema"] = COLUMNS + [{"name": n, "type": "VARCHAR"} for n in names]
        good = env.bool("conforms")
    record = {"n": 1 if good else "x", "v": "a"}
    values = {}
    for nm, kind in zip(names, kinds):
        v = field_value(env, nm, kind, hi)
        if kind != "missing":
            record[nm] = v
        values[nm] = v if kind in ("list", "mixed", "empty") else [v]
    if with_schema and not (kinds == [] or kinds[0] in ("str", "none")):
        good = False        # not a VARCHAR
    w = stream(env, store, dataset, date=DAY, **kw)
    w.append(dict(record))
    w.finalize()
    suffix = "" if good else "/BACKOUT"
    want = set()
    combos = [{}]
    for nm in names:
        combos = [dict(c, **{nm: clean(v)}) for c in combos for v in values[nm]]
    for c in combos:
        f = folder
        for k, v in c.items():
            f = f.replace("{" + k + "}", v)
        want.add(squash(f) + suffix)
    got = [split_name(n)[0] for n, _ in store.writes]
    env.observe("folders", sorted(got))
    env.reach("placed")
    if not good:
        env.reach("backout")
    if len(want) > 1:
        env.reach("several partitions")
    env.check(len(set(got)) == len(got), "one blob per partition")
    env.check(set(got) == want, "the record goes to the partitions its values name, and no others")
    env.check(all(len(rows(b)) == 1 and rows(b)[0] == record for _, b in store.writes), "each partition gets the record once, unchanged")


@harness("W04", cases=["jsonl", "zstd"], reach=["placed"],
         bounds="one record, a dictionary or a model (pydantic, or with the methods of its first version), with or without a schema it conforms to; template with one field")
def models_are_placed(env, case):
    store = setup(env)
    schema = env.choice("schema", [False, COLUMNS])
    w = stream(env, store, "bucket/data/by_{v}", fmt=case, date=DAY, schema=schema)
    w.append(models(1, "a")[env.choice("kind", [0, 1, 2])])
    w.finalize()
    env.reach("placed")
    env.check([split_name(n)[0] for n, _ in store.writes] == ["bucket/data/by_a/year_2024/month_02/day_29"], "a model is placed by its fields")


@harness("W04", cases=[["team", "user"], ["user", "team"], ["a", "b"], ["b", "a"], ["zone", "area"], ["kind", "c"], ["c", "b", "a"], ["a", "b", "c"], ["team", "area", "user"], ["x", "xx"]],
         reach=["placed"], bounds="ten orders of two or three fields in the template; one or two values in one of the fields")
def several_fields(env, case):
    store = setup(env)
    at = env.choice("two values", [None] + list(range(len(case))))
    w = stream(env, store, "bucket/data/" + "/".join(["{%s}" % c for c in case]), fmt="jsonl", date=DAY)
    r = {}
    for i, c in enumerate(case):
        r[c] = ["v%d" % i, "w%d" % i] if i == at else "v%d" % i
    w.append(dict(r))
    w.finalize()
    env.reach("placed")
    want = ["bucket/data/" + "/".join(["%s%d" % (k if i == at else "v", i) for i in range(len(case))]) + "/year_2024/month_02/day_29"
            for k in ("vw" if at is not None else "v")]
    got = sorted(split_name(n)[0] for n, _ in store.writes)
    env.observe("got", got)
    env.check(got == want, "each field's value is where the template names the field")


BAD = [{"n": "x", "v": "a"}, {"n": 1, "v": 2}, {"n": 1.5, "v": "b"}, {"v": "b"}, {"n": 1, "v": "a", "z": 1}]


@harness("W04", cases=lambda tier: [[f, n] for f in ("jsonl", "zstd", "parquet") for n in ((2,) if tier == "quick" else (2, 3))], reach=["placed", "backout"],
         bounds="2 records (thorough 3) which conform to the schema or break it in one of five ways, in JSON lines, zstandard and Parquet")
def dead_letters_kept(env, case):
    import io
    import pyarrow.parquet as pq
    fmt, n = case
    store = setup(env)
    w = stream(env, store, "bucket/data/by_{v}", fmt=fmt, date=DAY, schema=COLUMNS)
    want = {}
    for i in range(n):
        bad = env.choice("bad%d" % i, [-1, 0, 1, 2, 3, 4])
        r = {"n": i, "v": "ab"[i % 2]} if bad < 0 else BAD[bad]
        env.reach("placed" if bad < 0 else "backout")
        w.append(dict(r))
        want.setdefault("bucket/data/by_%s/year_2024/month_02/day_29%s" % (r["v"], "" if bad < 0 else "/BACKOUT"), []).append(r)
    w.finalize()
    got = {}
    for name, b in store.writes:
        kept = pq.read_table(io.BytesIO(b)).to_pylist() if name.endswith("parquet") else rows(payload("zstd" if name.endswith("zstd") else "jsonl", b))
        env.check(len(kept) > 0, "no blob is empty")
        got.setdefault(split_name(name)[0], []).extend(kept)
    env.observe("got", sorted(got))
    env.check(env.eq(got, want), "each record is in the folder of its values, in the dead letters of it if it breaks the schema")


@harness("W04", cases=lambda tier: [2, 3] if tier == "quick" else [2, 3, 4], reach=["shared", "separate"],
         bounds="2..3 records (thorough 4), each at an arbitrary second of one day crossing midnight, template with day, hour, "
                "minute and second parts")
def time_routing(env, case):
    store = setup(env)
    base = env.dt.datetime(2023, 12, 31, 23, 59, 50)
    t = {"n": 0}

    def now():
        return base + env.dt.timedelta(seconds=t["n"])
    env.clock(now)
    w = stream(env, store, "bucket/data", partitions=["{yyyy}-{mm}-{dd}/{HH}/{MM}-{SS}"])
    want = {}
    for i in range(case):
        t["n"] = env.pin(env.int("second%d" % i, 0, 15))
        d = datetime.datetime(2023, 12, 31, 23, 59, 50) + datetime.timedelta(seconds=t["n"])
        w.append({"n": i})
        want.setdefault(d.strftime("bucket/data/%Y-%m-%d/%H/%M-%S"), []).append(i)
    w.finalize()
    got = {}
    for n, b in store.writes:
        got.setdefault(split_name(n)[0], []).extend(r["n"] for r in rows(b))
    env.observe("got", sorted(got.items()))
    env.reach("shared" if len(got) < case else "separate")
    env.check(got == want, "each record goes to the folder of the time it was appended")


@harness("W04", cases=["text", "text with time", "date", "datetime", "none"], reach=["shared", "separate"],
         bounds="three records with one of six values which differ in capitals, spaces or length, appended over two days, for a date given as text, "
                "date or datetime, or without one")
def several_records(env, case):
    store = setup(env)
    now = [datetime.datetime(2024, 3, 1, 23, 59, 59)]
    env.clock(lambda: now[0])
    date = {"text": "2024-02-29", "text with time": "2024-02-29T13:05:06", "date": datetime.date(2024, 2, 29),
            "datetime": datetime.datetime(2024, 2, 29, 13, 5, 6), "none": None}[case]
    hour = {"text with time": "13", "datetime": "13"}.get(case, "00")
    w = stream(env, store, "bucket/data/by_{p}", date=date, partitions=["{yyyy}/{mm}/{dd}/{HH}"])
    want = {}
    for i in range(3):
        v = env.choice("p%d" % i, ["a", "A", "aa", "a a", "1", 1])
        w.append({"n": i, "p": v})
        f = "2024/02/29/" + hour if case != "none" else now[0].strftime("%Y/%m/%d/%H")
        want.setdefault("bucket/data/by_%s/%s" % (v, f), []).append(i)
        now[0] = now[0] + datetime.timedelta(seconds=1)
    w.finalize()
    got = {}
    for n, b in store.writes:
        got.setdefault(split_name(n)[0], []).extend(r["n"] for r in rows(b))
    env.observe("got", sorted(got.items()))
    env.reach("separate" if len(got) > 1 else "shared")
    env.check(got == want, "each record goes to the partition its value and date name")


@harness("W04", reach=["apart"], bounds="two stream writers at once with templates of their own, four records in an arbitrary order with one of two values")
def stream_writers_apart(env, case):
    store = setup(env)
    ws = [stream(env, store, "bucket/%s/{p}" % d, date=DAY) for d in ("data", "more")]
    want = {}
    for i in range(4):
        k, v = env.choice("writer%d" % i, [0, 1]), env.choice("p%d" % i, ["a", "b"])
        ws[k].append({"n": i, "p": v})
        want.setdefault("bucket/%s/%s/year_2024/month_02/day_29" % (("data", "more")[k], v), []).append(i)
    for w in ws:
        w.finalize()
    got = {}
    for n, b in store.writes:
        got.setdefault(split_name(n)[0], []).extend(r["n"] for r in rows(b))
    env.reach("apart")
    env.observe("got", sorted(got.items()))
    env.check(got == want, "each writer stores its own records")


# ---------------------------------------------------------------- W10
W10_ALPHABET = "a./\\~-{ \n\u00e9\u2024"


@harness("W10", cases=lambda tier: [[t, k] for t in ("one", "two", "same") for k in ("str", "list")],
         reach=["contained"],
         bounds="one record, field values symbolic strings of length 0..3 (thorough 0..4, lists 0..2) over letters, '.', '/', "
                "'\\\\', '~', '-', '{', space, newline and two non ascii characters")
def containment(env, case):
    tname, kind = case
    dataset, names, folder = TEMPLATES[tname]
    store = setup(env)
    hi = (3 if env.tier == "quick" else 4) if kind == "str" else 2
    if len(names) > 1 or tname == "same":
        hi -= 1
    w = stream(env, store, dataset, date=DAY)
    rec = {"n": 1}
    for nm in names:
        v = env.str(nm, W10_ALPHABET, 0, hi)
        rec[nm] = v if kind == "str" else [v, "a"]
    w.append(rec)
    w.finalize()
    env.observe("names", sorted(split_name(n)[0] for n, _ in store.writes))
    parts = folder.split("/")
    for name, _ in store.writes:
        env.reach("contained")
        got = split_name(name)[0].split("/")
        env.check(all(p not in (".", "..") for p in got), "no relative path segment in a blob name")
        env.check("\\" not in name and "~" not in name, "no other path syntax in a blob name")
        fixed = [p for p in parts if "{" not in p]
        env.check(len(got) <= len(parts) and [p for p in got if p in fixed][:1] == ["bucket"] and got[0] == "bucket"
                  and got[-3:] == parts[-3:], "the record stays in its dataset, under its date")
        if len(got) == len(parts):
            for g, p in zip(got, parts):
                if "{" in p:
                    i = p.index("{")
                    env.check(g.startswith(p[:i]), "only the named segment varies")
                else:
                    env.check(g == p, "only the named segment varies")


# ---------------------------------------------------------------- W06
POOLED = ["bucket/p/", "bucket/P/", "bucket/p", "bucket/p/p/", "bucket/pp/", "bucket/p /", "bucket/q/"]


@harness("W06", cases=lambda tier: [[n, k] for n in range(0, 5 if tier == "quick" else 7) for k in range(0, n + 1)],
         reach=["evict", "keep"],
         bounds="pool of 0..4 writers (thorough 6), then 0..n re-accesses of an arbitrary one; capacity 1..5 and the gaps "
                "between accesses (0..100 s, in quarter seconds) symbolic")
def nominate(env, case):
    n, again = case
    store = setup(env)
    t = {"now": 1_700_000_000}
    env.patch("time.time", lambda: t["now"])
    cap = env.int("capacity", 1, 5)
    pool = WriterPool(cap, inner_writer=mem_writer(store), format="jsonl", schema=False)
    last = {}
    for i in range(n):
        t["now"] = t["now"] + env.int("gap%d" % i, 0, 400) * 0.25
        pool.get_writer(POOLED[i])
        last[POOLED[i]] = t["now"]
    for k in range(again):
        t["now"] = t["now"] + env.int("gap%d" % (n + k), 0, 400) * 0.25
        i = env.choice("again%d" % k, list(range(n)))
        w = pool.get_writer(POOLED[i])
        env.check(w is pool.get_writer(POOLED[i]), "one writer per partition")
        last[POOLED[i]] = t["now"]
    env.check(len(pool.writers) == n, "one writer per partition")
    out = list(pool.nominate_writers_to_evict())
    env.observe("evict", out)
    excess = env.ite(n > cap, n - cap, 0)
    env.check(len(out) <= excess, "never more than the excess is evicted")
    env.check(env.any([excess == 0, len(out) > 0]), "a pool over capacity shrinks")
    env.check(len(set(out)) == len(out) and all(o in last for o in out), "only pooled writers are nominated")
    env.reach("evict" if out else "keep")
    for o in out:
        for k in last:
            if k not in out:
                env.check(last[o] <= last[k], "the least recently used go first")


@harness("W06", cases=lambda tier: list(range(1, 4 if tier == "quick" else 6)), reach=["stale", "fresh"],
         bounds="pool of 1..3 writers (thorough 5), arbitrary access gaps 0..100 s (in quarter seconds) and idle limit 0..150 s")
def staleness(env, case):
    store = setup(env)
    t = {"now": 1_700_000_000}
    env.patch("time.time", lambda: t["now"])
    pool = WriterPool(5, inner_writer=mem_writer(store), format="jsonl", schema=False)
    last = {}
    for i in range(case):
        t["now"] = t["now"] + env.int("gap%d" % i, 0, 400) * 0.25
        pool.get_writer(POOLED[i])
        last[POOLED[i]] = t["now"]
    i = env.choice("again", list(range(case)))
    t["now"] = t["now"] + env.int("gap", 0, 400) * 0.25
    pool.get_writer(POOLED[i])
    last[POOLED[i]] = t["now"]
    t["now"] = t["now"] + env.int("wait", 0, 400) * 0.25
    limit = env.int("limit", 0, 150)
    out = pool.get_stale_writers(limit)
    env.observe("stale", out)
    env.reach("stale" if out else "fresh")
    for k in last:
        env.check((k in out) == (t["now"] - last[k] > limit), "stale means idle for longer than the limit")
    env.check(len(out) == len(set(out)), "no writer twice")


@harness("W06", cases=[1, 2, 3, 4], reach=["closed"], bounds="pool of 1..4 writers with 0..2 records each, capacity 1..4, closed")
def close_pool(env, n):
    store = setup(env)
    pool = WriterPool(env.choice("capacity", [1, 2, 4]), inner_writer=mem_writer(store), format="jsonl", schema=False)
    want = []
    for i in range(n):
        w = pool.get_writer(POOLED[i])
        for k in range(env.choice("records%d" % i, [0, 1, 2])):
            w.append({"n": 10 * i + k})
            want.append(10 * i + k)
    pool.close()
    env.reach("closed")
    env.check(sorted(r["n"] for _, b in store.writes for r in rows(b)) == want and not pool.writers, "a closed pool has stored every record, once")


@harness("W06", cases=lambda tier: [[n, a, f] for n in range(1, 4 if tier == "quick" else 5) for a in (1, 2) for f in (False, True)],
         reach=["removed", "kept"],
         bounds="pool of 1..3 writers (thorough 4) with one record each; 1..2 attendant rounds, stale or not, capacity 1..4; with "
                "failures every commit may fail")
def attendant_round(env, case):
    n, rounds, may_fail = case
    store = setup(env)
    env.patch("time.sleep", _sleep)
    w = stream(env, store, "bucket/data/{p}", date=DAY, writer_pool_capacity=env.pin(env.int("capacity", 1, 4)),
               idle_timeout_seconds=env.choice("idle", [-1, 10 ** 9]))
    for i in range(n):
        w.append({"n": i, "p": "p%d" % i})
    if may_fail:
        store.fail = lambda k: env.bool("fail%d" % k)
    for _ in range(rounds):
        try:
            w.pool_attendant()
        except (Wait, CommitFailed):
            pass
        pooled = [i["writer"] for i in w.writer_pool.writers]
        waiting = [r["n"] for b in pooled for r in rows(bytes(b.buffer))]
        stored = [r["n"] for _, b in store.writes for r in rows(b)]
        env.check(sorted(waiting + stored) == list(range(n)), "a record is either stored or still in the pool")
        env.reach("removed" if len(pooled) < n else "kept")
    store.fail = None
    w.finalize()
    env.check(sorted(r["n"] for _, b in store.writes for r in rows(b)) == list(range(n)), "every record is stored in the end")


def _sleep(*a):
    raise Wait()


# ---------------------------------------------------------------- W05
def w05_cases(tier):
    out = []
    for budget in ((1, 2) if tier == "quick" else (1, 2, 3)):
        for main, other, rounds in ([(2, 0, 1), (1, 1, 1)] if tier == "quick" else [(2, 0, 1), (1, 1, 1), (2, 1, 1), (2, 2, 0)]):
            out.append([main, other, rounds, budget])
    return out


@harness("W05", cases=w05_cases, reach=["preempted", "evicted"], quick=250, steps=2000000,
         bounds="one appender with 1..2 records, a second one with 0..1 (thorough 2), 0..1 rounds of the pool attendant and finalize; "
                "every schedule with at most 2 preemptions (thorough 3) at lock operations, pool operations, buffer appends and "
                "commits (a preempting operation runs to completion); each record to one of two partitions, blob size "
                "limit symbolic, idle limit exceeded or not, pool capacity 1 or 10")
def no_loss_under_schedules(env, case):
    n_main, n_other, rounds, budget = case
    store = setup(env)
    env.patch("time.sleep", _sleep)
    waits = {"n": 0}

    def ev_wait(self, timeout=None):
        waits["n"] += 1
        if waits["n"] % 2 == 0:
            raise Wait()
        return False
    env.patch("threading.Event.wait", ev_wait)
    limit = env.int("blob_size", 0, 60)
    w = stream(env, store, "bucket/data/{p}", date=DAY, blob_size=limit,
               writer_pool_capacity=env.choice("capacity", [1, 10]), idle_timeout_seconds=env.choice("idle", [-1, 10 ** 9]))
    sched = Sched(env, budget)
    acked = {}

    def append(i):
        p = env.choice("p%d" % i, ["a", "b"])

        def op():
            w.append({"n": i, "p": p})
            acked[i] = p
        return op

    def attend():
        try:
            w.pool_attendant()
        except Wait:
            pass
    sched.threads = [[append(i) for i in range(n_main)],
                     [append(10 + i) for i in range(n_other)],
                     [attend for i in range(rounds)]]
    SchedLock.hook = lambda ev, lk: sched.point()
    for cls, name in ((WriterPool, "get_writer"), (WriterPool, "remove_writer"), (BlobWriter, "text_append"), (BlobWriter, "commit"),
                      (BlobWriter, "open_buffer"), (WriterPool, "get_stale_writers"), (WriterPool, "nominate_writers_to_evict")):
        if hasattr(cls, name):
            wrap(env, sched, cls, name)
    while sched.threads[0]:
        sched.run(0)
    while sched.threads[1]:     # appends have to be over before finalize is called
        sched.run(1)
    sched.threads[0] = [w.finalize]
    if len(store.writes) > 0:
        env.reach("evicted")
    sched.run(0)
    while sched.threads[2]:
        sched.run(2)
    SchedLock.hook = None
    if sched.budget < budget:
        env.reach("preempted")
    got = sorted((r["n"], split_name(n)[0].split("/")[2]) for n, b in store.writes for r in rows(b))
    env.observe("got", got)
    env.check(got == sorted(acked.items()), "every accepted record is stored once, in its partition")
    env.check(len(store.blobs) == len(store.writes), "no blob overwrites another")


@harness("W05", cases=lambda tier: [1, 2, 3] if tier == "quick" else [1, 2, 3, 4], reach=["failed", "retried", "all stored"],
         bounds="1..3 appends (thorough 4) to one of two partitions, one attendant round after an arbitrary append, every commit may "
                "fail, finalize called up to twice, second time without failures")
def no_loss_with_failures(env, case):
    store = setup(env)
    env.patch("time.sleep", _sleep)
    w = stream(env, store, "bucket/data/{p}", date=DAY, blob_size=env.int("blob_size", 0, 60), idle_timeout_seconds=-1)
    store.fail = lambda k: env.bool("fail%d" % k)
    acked, refused = [], []
    at = env.choice("round", list(range(case)))
    for i in range(case):
        try:
            w.append({"n": i, "p": env.choice("p%d" % i, ["a", "b"])})
            acked.append(i)
        except CommitFailed:
            env.reach("failed")
            refused.append(i)
        if i == at:
            try:
                w.pool_attendant()
            except (Wait, CommitFailed):
                pass
    try:
        w.finalize()
        done = True
    except CommitFailed:
        done = False
        env.reach("failed")
    if not done:
        store.fail = None
        w.finalize()
        env.reach("retried")
    env.reach("all stored")
    ids = sorted(r["n"] for _, b in store.writes for r in rows(b))
    env.observe("ids", ids)
    env.check(len(set(ids)) == len(ids), "no record is stored twice")
    env.check(all(i in ids for i in acked), "once finalize succeeded every accepted record is stored")


@harness("W05", cases=lambda tier: [[n, f] for n in ((4,) if tier == "quick" else (4, 5)) for f in ("jsonl", "zstd")], reach=["finalized before", "evicted", "all stored"],
         bounds="any sequence of four (thorough five) appends to one of three partitions, rounds of the attendant and finalizations, finalized at the end; "
                "idle limit exceeded or not, pool capacity 1 or 10, blob size limit 0 or large")
def stream_histories(env, case):
    n, fmt = case
    store = setup(env)
    env.patch("time.sleep", _sleep)
    w = stream(env, store, "bucket/data/{p}", fmt=fmt, date=DAY, blob_size=env.pin(env.choice("blob_size", [0, 1 << 20])),
               idle_timeout_seconds=env.choice("idle", [-1, 10 ** 9]), writer_pool_capacity=env.choice("capacity", [1, 10]))

    def stored():
        return sorted((r["n"], split_name(nm)[0].split("/")[2]) for nm, b in store.writes for r in rows(payload(fmt, b)))
    sent = []
    for i in range(n):
        do = env.choice("do%d" % i, ["a", "b", "c", "attend", "finalize"] if i < n - 1 else ["a", "b", "attend"])
        if do == "attend":
            before = len(store.writes)
            try:
                w.pool_attendant()
            except Wait:
                pass
            if len(store.writes) > before:
                env.reach("evicted")
        elif do == "finalize":
            w.finalize()
            env.reach("finalized before")
            env.check(stored() == sent, "whenever finalize returns, all which was appended is stored, once, in its partition")
        else:
            w.append({"n": i, "p": do})
            sent.append((i, do))
    w.finalize()
    env.reach("all stored")
    got = stored()
    env.observe("got", got)
    env.check(got == sent, "every record is stored once, in its partition")
