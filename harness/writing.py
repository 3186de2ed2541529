"""write path: conservation of records, blob sizes, completion flags, naming"""
import datetime

import orjson

from harness.common import (CommitFailed, failure, Sched, Store, join, line, mem_reader, mem_writer, models, no_del, no_random, payload, ticking_clock)
from symx.env import SchedLock, harness

from mabel.data import BatchWriter, Reader, Writer
from mabel.data.writers.database_writer import DatabaseWriter
from mabel.data.writers.internals import base_inner_writer
from mabel.data.writers.internals.blob_writer import BlobWriter

FORMATS = ["jsonl", "zstd", "text", "flat"]
DAY = datetime.date(2024, 2, 29)
COLUMNS = [{"name": "n", "type": "INTEGER"}, {"name": "v", "type": "VARCHAR"}]


def make_record(env, fmt, i, hi, kind="str"):
    t = env.text("size%d" % i, 0, hi)
    if fmt == "text":
        return t if kind == "str" else t.encode()
    if kind == "nested":
        return {"n": i, "o": {"v": t, "k": [1, 2]}}
    return {"n": i, "v": t}


def setup(env):
    no_del(env)
    ticking_clock(env)
    no_random(env)
    return Store()


def new_writer(env, store, fmt, limit, cls=Writer, **kw):
    if fmt == "parquet":
        kw["schema"] = COLUMNS
    else:
        kw["schema"] = False
    return cls(dataset="bucket/data", format=fmt, inner_writer=mem_writer(store), blob_size=limit, date=DAY, **kw)


# ---------------------------------------------------------------- W01
def w01_cases(tier):
    n = 4 if tier == "quick" else 8
    out = [[f, k, "str"] for f in FORMATS for k in range(0, n + 1)]
    out += [["text", 3, "bytes"], ["jsonl", 3, "nested"], ["zstd", 3, "nested"]]
    return out


@harness("W01", cases=w01_cases, reach=["several blobs", "one blob"],
         bounds="0..4 appends (thorough 8); record payload 0..3000 bytes each and blob size limit 0..9000, all symbolic; "
                "formats jsonl, zstd, text (str and bytes), flat; every commit succeeds")
def conserve(env, case):
    fmt, n, kind = case
    store = setup(env)
    limit = env.int("blob_size", 0, 9000)
    w = new_writer(env, store, fmt, limit)
    sent = []
    for i in range(n):
        r = make_record(env, fmt, i, 3000, kind)
        w.append(r)
        sent.append(line(fmt, r))
    w.finalize()
    got = join([payload(fmt, b) for _, b in store.writes])
    env.observe("blobs", len(store.writes))
    if len(store.writes) > 1:
        env.reach("several blobs")
    if len(store.writes) == 1:
        env.reach("one blob")
    env.check(env.eq(got, join(sent)), "stored bytes are the appended records, once each, in order")
    env.check(len(store.blobs) == len(store.writes), "no blob overwrites another")
    env.check(all(len(payload(fmt, b)) > 0 for _, b in store.writes), "no empty blob")


def ids_of(fmt, blob):
    """the record numbers in a stored blob, in order"""
    if fmt == "parquet":
        import io
        import pyarrow.parquet as pq
        return pq.read_table(io.BytesIO(blob)).column("n").to_pylist()
    return [orjson.loads(x)["n"] for x in payload(fmt, blob).split(b"\n")[:-1]]


def stored_ids(fmt, store):
    return [i for name, b in store.writes if not name.endswith("frame.complete") for i in ids_of(fmt, b)]


def w01_fail_cases(tier):
    n = 3 if tier == "quick" else 5
    return [[f, k] for f in ("jsonl", "zstd", "flat", "parquet") for k in range(1, n + 1)]


@harness("W01", cases=w01_fail_cases, reach=["append failed", "finalize failed", "all stored"],
         bounds="1..3 appends (thorough 5), every commit attempt may fail with an error (of one kind per format), finalize called up to twice; "
                "blob size limit symbolic (text formats 0..9000, payloads 0..3000; parquet 0..400 with fixed rows)")
def conserve_with_failures(env, case):
    fmt, n = case
    store = setup(env)
    limit = env.int("blob_size", 0, 400 if fmt == "parquet" else 9000)
    kind = {"jsonl": CommitFailed, "zstd": FileNotFoundError, "flat": ConnectionError, "parquet": ValueError}[fmt]
    store.fail = lambda k: kind if env.bool("fail%d" % k) else None
    w = new_writer(env, store, fmt, limit)
    acked, refused = [], []
    for i in range(n):
        r = {"n": i, "v": "x" * (10 * i)} if fmt == "parquet" else make_record(env, fmt, i, 3000)
        try:
            w.append(r)
            acked.append(i)
        except kind:
            env.reach("append failed")
            refused.append(i)
    done = False
    for _ in range(2):
        try:
            w.finalize()
            done = True
            break
        except kind:
            env.reach("finalize failed")
    ids = stored_ids(fmt, store)
    env.observe("ids", ids)
    env.check(len(set(ids)) == len(ids), "no record is stored twice")
    env.check(all(i in acked or i in refused for i in ids), "nothing else is stored")
    mine = [i for i in ids if i in acked]
    if done:
        env.reach("all stored")
        env.check(mine == acked, "after a successful finalize every accepted record is stored, in order")
    else:
        env.check(mine == acked[: len(mine)], "what is stored is a prefix of what was accepted")
    env.check(len(store.blobs) == len(store.writes), "no blob overwrites another")


@harness("W01", cases=[[c, f, s] for c in ("Writer", "BatchWriter") for f in ("jsonl", "zstd", "flat", "parquet") for s in (False, True) if s or f != "parquet"], reach=["stored"],
         bounds="three records, each a dictionary or a model (pydantic, or with the methods of its first version), with or without a schema")
def models_are_records(env, case):
    cls, fmt, schema = case
    store = setup(env)
    env.clock(lambda: datetime.datetime(2024, 3, 1, 12, 0, 0))
    w = (Writer if cls == "Writer" else BatchWriter)(dataset="bucket/data", format=fmt, inner_writer=mem_writer(store), schema=COLUMNS if schema else False)
    for i in range(3):
        w.append(models(i, "a")[env.choice("kind%d" % i, [0, 1, 2])])
    w.finalize()
    env.reach("stored")
    env.check(stored_ids(fmt, store) == [0, 1, 2], "a model is stored as its fields")


class Mini(dict):
    """a record which knows its serialised form"""
    mini = b'{"n":1,"v":"' + b"x" * 5000 + b'"}'


TEXT_RECORDS = [" a\t", "a\n", "\n", "", "a\r\n", "\u00e9\u2028", b" a \n", b"", b"\n\n", 5, 1.5, None, True, DAY, ["x", 1], {"n": "1"}]
FLAT_RECORDS = [({"a": {"b": 1}}, {"a.b": 1}), ({"a": {"b": {"c": "x"}}, "d": None}, {"a.b.c": "x", "d": None}), ({"a": [1, {"b": 2}]}, {"a.0": 1, "a.1.b": 2}),
                ({"a": 1, "b.c": 2}, {"a": 1, "b.c": 2})]
JSON_RECORDS = [({"n": 2 ** 64}, b'{"n": 18446744073709551616}\n'), ({"n": 2 ** 63}, b'{"n":9223372036854775808}\n'), (Mini(n=1), Mini.mini + b"\n"),
                ([1, "a"], b'[1,"a"]\n'), ({"d": datetime.datetime(2024, 2, 29, 1, 2, 3)}, b'{"d":"2024-02-29T01:02:03"}\n')]


@harness("W01", cases=["text", "flat", "jsonl", "zstd"], reach=["stored", "several blobs"],
         bounds="two records of any kind the format takes (text: strings and bytes with line ends and spaces around, numbers, dates, lists; flat: nested "
                "records; JSON: numbers beyond 64 bits, records with a serialised form of their own), blob size limit 0..9000 symbolic")
def forms_of_records(env, case):
    store = setup(env)
    w = new_writer(env, store, case, env.int("blob_size", 0, 9000))
    sent = []
    for i in range(2):
        if case == "text":
            r = env.choice("record%d" % i, TEXT_RECORDS)
            sent.append(line("text", r))
        elif case == "flat":
            r, flat = env.choice("record%d" % i, FLAT_RECORDS)
            sent.append(line("flat", flat))
        else:
            r, text = env.choice("record%d" % i, JSON_RECORDS)
            sent.append(text)
        w.append(r)
    w.finalize()
    env.reach("stored")
    if len(store.writes) > 1:
        env.reach("several blobs")
    got = join([payload(case, b) for _, b in store.writes])
    env.observe("got", got)
    env.check(env.eq(got, join(sent)), "stored bytes are the appended records, as the format serialises them")


@harness("W01", cases=[[c, f] for c in ("Writer", "BatchWriter") for f in ("jsonl", "zstd", "flat", "text")], reach=["refused", "stored"],
         bounds="three records, each of which may be one the format cannot serialise")
def refused_records(env, case):
    cls, fmt = case
    store = setup(env)
    env.clock(lambda: datetime.datetime(2024, 3, 1, 12, 0, 0))

    class Odd:
        def __str__(self):
            raise ValueError("no text")
    w = {"Writer": Writer, "BatchWriter": BatchWriter}[cls](dataset="bucket/data", format=fmt, inner_writer=mem_writer(store), schema=False)
    want = []
    for i in range(3):
        if env.bool("odd%d" % i):
            r = env.catch(w.append, Odd() if fmt == "text" else {"n": Odd()})
            env.reach("refused")
            env.check(r[0] == "exc", "a record which cannot be serialised is refused with an error")
        else:
            r = {"n": i}
            w.append("%d" % i if fmt == "text" else r)
            want.append(line(fmt, "%d" % i if fmt == "text" else r))
    w.finalize()
    env.reach("stored")
    flag = [n for n in store.blobs if n.endswith("frame.complete")]
    env.check(join([payload(fmt, b) for n, b in store.writes if n not in flag]) == join(want), "the other records are stored")
    env.check(len(flag) == (1 if cls == "BatchWriter" and want else 0), "only a frame with records is marked complete")


@harness("W01", cases=["jsonl", "zstd"], reach=["stored", "refused"],
         bounds="two records, each with a field whose name is a text, a number, a truth value, null, a date, a tuple or bytes, or a value beyond 64 bits")
def field_names(env, fmt):
    store = setup(env)
    w = new_writer(env, store, fmt, 1 << 20)
    want = []
    for i in range(2):
        k = env.choice("key%d" % i, ["b", 1, 2.5, True, None, (1, 2), b"c", datetime.date(2024, 2, 29), "big"])
        r = {"n": i, k: 1 << 70 if k == "big" else "x"}
        got = env.catch(w.append, dict(r))
        env.reach("stored" if got[0] == "ok" else "refused")
        env.check(got[0] == "ok" or type(k) not in (str, int), "a record with a name of text or a number is accepted")
        if got[0] == "ok":
            want.append(r)
    w.finalize()
    import json
    got = [json.loads(x) for _, b in store.writes for x in payload(fmt, b).split(b"\n")[:-1]]
    env.check(len(got) == len(want) and all(len(g) == len(r) and list(g.values()) == list(r.values()) for g, r in zip(got, want)), "a record which is accepted is stored with all of its fields")


@harness("W01", cases=lambda tier: [[c, f] for c in ("Writer", "BatchWriter") for f in FORMATS + ["parquet"]], reach=["stored", "finalized before"],
         bounds="any sequence of five appends and finalizations (thorough seven), finalized at the end and then collected; blob size limit 0, 30 or large")
def histories(env, case):
    cls, fmt = case
    collected = vars(BlobWriter).get("__del__")
    store = setup(env)
    w = {"Writer": Writer, "BatchWriter": BatchWriter}[cls](
        dataset="bucket/data", format=fmt, inner_writer=mem_writer(store), date=DAY, schema=[{"name": "n", "type": "INTEGER"}] if fmt == "parquet" else False,
        blob_size=env.pin(env.choice("blob_size", [0, 30, 1 << 20])))
    sent = []
    for i in range(5 if env.tier == "quick" else 7):
        if env.pin(env.bool("append%d" % i)):
            w.append('{"n":%d}' % i if fmt == "text" else {"n": i})
            sent.append(i)
        else:
            w.finalize()
            env.reach("finalized before")
            env.check(stored_ids(fmt, store) == sent, "whenever a writer is finalized, what was appended is stored")
    w.finalize()
    if collected:
        collected(w.blob_writer)
    env.reach("stored")
    ids = stored_ids(fmt, store)
    env.observe("ids", ids)
    env.check(ids == sent, "each record is stored once, in order")
    env.check(len(store.blobs) == len([n for n, _ in store.writes if not n.endswith("frame.complete")]) + len(set(n for n, _ in store.writes if n.endswith("frame.complete"))), "no blob overwrites another")


@harness("W01", cases=lambda tier: [[f, c] for f in FORMATS + ["parquet"] for c in (("same", "other") if f == "jsonl" or tier != "quick" else ("other",))],
         reach=["apart", "several blobs"],
         bounds="two writers at work at once, of one or two data sets, four appends in an arbitrary order, blob size limit 0, 30 or large")
def writers_apart(env, case):
    fmt, which = case
    store = setup(env)
    limit = env.choice("blob_size", [0, 30, 1 << 20])
    folders = ["bucket/data", "bucket/data" if which == "same" else "bucket/more"]
    ws = [Writer(dataset=d, format=fmt, inner_writer=mem_writer(store), blob_size=limit, date=DAY, schema=COLUMNS if fmt == "parquet" else False) for d in folders]
    sent = [[], []]
    for i in range(4):
        k = env.choice("writer%d" % i, [0, 1])
        ws[k].append("%d" % i if fmt == "text" else {"n": i, "v": "ab"})
        sent[k].append(i)
    for w in ws:
        w.finalize()

    def ids(names):
        return [i for n in names for i in ([int(x) for x in store.blobs[n].split(b"\n")[:-1]] if fmt == "text" else ids_of(fmt, store.blobs[n]))]
    names = [n for n, _ in store.writes]
    if len(names) > 2:
        env.reach("several blobs")
    env.check(len(store.blobs) == len(names), "no blob overwrites another")
    if which == "same":
        env.check(sorted(ids(names)) == [0, 1, 2, 3], "the records of both writers are stored, once each")
    else:
        env.reach("apart")
        for d, want in zip(folders, sent):
            env.check(ids([n for n in names if n.startswith(d + "/")]) == want, "each writer stores its own records, in order")
    env.reach("apart")


# ---------------------------------------------------------------- W02
def w02_cases(tier):
    n = 4 if tier == "quick" else 8
    return [["jsonl", n], ["zstd", n], ["flat", n], ["text", n]]


@harness("W02", cases=w02_cases, reach=["several blobs"],
         bounds="4 appends (thorough 8); payloads 0..3000 bytes, blob size limit 0..9000, both symbolic")
def blob_size_discipline(env, case):
    fmt, n = case
    store = setup(env)
    limit = env.int("blob_size", 0, 9000)
    w = new_writer(env, store, fmt, limit)
    sizes = []
    for i in range(n):
        r = make_record(env, fmt, i, 3000)
        w.append(r)
        sizes.append(len(line(fmt, r)))
    w.finalize()
    groups = [payload(fmt, b).split(b"\n")[:-1] for _, b in store.writes]
    env.observe("groups", [len(g) for g in groups])
    env.check(sum(len(g) for g in groups) == n, "all records stored")
    pos = 0
    for j, g in enumerate(groups):
        mine = sizes[pos: pos + len(g)]
        pos += len(g)
        env.check(sum(mine[:-1]) <= limit, "a blob exceeds the limit by at most its last record")
        if j < len(groups) - 1:
            env.reach("several blobs")
            env.check(sum(mine) > limit, "a blob is closed only when it is over the limit")


@harness("W02", cases=["jsonl", "zstd", "text", "flat"], reach=["several blobs"],
         bounds="three records of 1..4 letters of one, two, three or four bytes; blob size limit 0..60 symbolic")
def blob_size_in_bytes(env, fmt):
    store = setup(env)
    limit = env.int("blob_size", 0, 60)
    w = new_writer(env, store, fmt, limit)
    sizes = []
    for i in range(3):
        t = env.choice("text%d" % i, ["a", "\u00e9\u00e9", "\u20ac\u20ac\u20ac", "\U0001f600" * 4])
        r = t if fmt == "text" else {"n": i, "v": t}
        w.append(r)
        sizes.append(len(line(fmt, r)))
    w.finalize()
    pos = 0
    for j, (_, b) in enumerate(store.writes):
        k = len(payload(fmt, b).split(b"\n")) - 1
        mine = sizes[pos: pos + k]
        pos += k
        env.check(sum(mine[:-1]) <= limit, "a blob exceeds the limit by at most its last record")
        if j < len(store.writes) - 1:
            env.reach("several blobs")
            env.check(sum(mine) > limit, "a blob is closed only when it is over the limit")
    env.check(pos == 3, "all records stored")


@harness("W02", cases=lambda tier: [3] if tier == "quick" else [3, 5], reach=["several blobs"],
         bounds="parquet: 3 fixed rows (thorough 5), blob size limit 0..400 symbolic")
def blob_size_parquet(env, case):
    import orso
    from mabel.data.validator import schema_loader
    n = case
    store = setup(env)
    limit = env.int("blob_size", 0, 400)
    w = new_writer(env, store, "parquet", limit)
    rows = [{"n": i, "v": "x" * (10 * i)} for i in range(n)]
    for r in rows:
        w.append(r)
    w.finalize()
    groups = [ids_of("parquet", b) for _, b in store.writes]
    env.observe("groups", groups)
    env.check([i for g in groups for i in g] == list(range(n)), "all rows stored in order")
    for j, g in enumerate(groups):
        def nbytes(ids):
            df = orso.DataFrame(rows=[], schema=schema_loader(COLUMNS))
            for i in ids:
                df.append(rows[i])
            return df.nbytes()
        env.check(nbytes(g[:-1]) <= limit if len(g) > 1 else True, "a blob exceeds the limit by at most its last record")
        if j < len(groups) - 1:
            env.reach("several blobs")
            env.check(nbytes(g) > limit, "a blob is closed only when it is over the limit")


# ---------------------------------------------------------------- W03
@harness("W03", cases=lambda tier: [[f, k, a] for f in (["jsonl", "zstd"] if tier == "quick" else ["jsonl", "zstd", "flat", "parquet"])
                                    for k in range(0, 3 if tier == "quick" else 4)
                                    for a in (False, True)],
         reach=["complete", "not complete", "commit failed"],
         bounds="0..2 appends (thorough 3) of symbolic size and blob size limit, 3 finalize calls each with an arbitrary "
                "failure flag, every commit attempt may fail")
def completion_flag(env, case):
    fmt, n, always = case
    store = setup(env)
    limit = env.int("blob_size", 0, 400 if fmt == "parquet" else 6000)
    w = new_writer(env, store, fmt, limit, cls=BatchWriter, always_complete=always)
    nfails = [0]

    def fail(k):
        if env.bool("fail%d" % k):
            nfails[0] += 1
            return True
        return False
    store.fail = fail
    acked = []
    for i in range(n):
        r = {"n": i, "v": "x" * (10 * i)} if fmt == "parquet" else make_record(env, fmt, i, 3000)
        try:
            w.append(r)
            acked.append(i)
        except CommitFailed:
            env.reach("commit failed")
    flagged = False

    def flags():
        return [i for i, (name, b) in enumerate(store.writes) if name.endswith("frame.complete")]
    env.check(not flags(), "no completion flag before finalize")
    for k in range(3):
        failure = env.bool("failure%d" % k)
        before = len(flags())
        kw = {"has_failure": failure} if k else ({"has_failure": True} if failure else {})
        if failure:
            flagged = True
        try:
            w.finalize(**kw)
            ok = True
        except CommitFailed:
            ok = False
        now = flags()
        new = len(now) > before
        if new:
            env.reach("complete")
            env.check(not flagged, "a frame with a flagged failure is never marked complete")
            env.check(len(acked) > 0 or always, "an empty frame is not marked complete unless asked for")
            stored = stored_ids(fmt, store)
            env.check([i for i in stored if i in acked] == acked, "the frame is marked complete only after all its data is stored")
            name = store.writes[now[-1]][0]
            folder = name[: -len("frame.complete")]
            env.check(all(nm.startswith(folder) and "/" not in nm[len(folder):] for nm, _ in store.writes),
                      "the flag is in the folder of the data")
            env.check("year_2024/month_02/day_29/as_at_" in folder, "the frame is in the folder of its date")
        else:
            env.reach("not complete")
            if ok and not flagged and (len(acked) > 0 or always):
                env.check(False, "a finished frame without failures is marked complete")
    env.observe("writes", [nm[-14:] == "frame.complete" for nm, _ in store.writes])


@harness("W03", cases=[["split", None], ["split", "default"], ["alone", None], ["alone", "default"]], reach=["complete"],
         bounds="a frame written by one writer, or by two which share its name, with or without partitions; has_failure given as any true or false value")
def frames_of_split_jobs(env, case):
    shape, partitions = case
    store = setup(env)
    env.clock(lambda: datetime.datetime(2024, 3, 1, 12, 0, 0))
    kw = {} if partitions else {"partitions": None}
    folder = None
    if shape == "split":
        folder = "bucket/data/%sas_at_20240229-010203/" % ("year_2024/month_02/day_29/" if partitions else "")
        kw["frame_id"] = folder[:-1]
    ws = [BatchWriter(dataset="bucket/data", format="jsonl", inner_writer=mem_writer(store), date=DAY, schema=False, **kw) for _ in range(2 if shape == "split" else 1)]
    for i, w in enumerate(ws):
        w.append({"n": i})
    failure = env.choice("failure", [None, False, 0, "", True, 1, "yes"])
    for i, w in enumerate(ws):
        w.finalize(**({"has_failure": failure} if i == len(ws) - 1 and failure is not None else {}))
        flags = [n for n in store.blobs if n.endswith("frame.complete")]
        if i == len(ws) - 1 and shape == "alone":
            env.check(len(flags) == (0 if failure else 1), "a frame with a flagged failure is not marked complete, and others are")
    if flags:
        env.reach("complete")
    if folder is None:
        name = [n for n in store.blobs][0]
        folder = name[:name.rindex("/") + 1]
        want = "bucket/data/%sas_at_20240301-120000/" % ("year_2024/month_02/day_29/" if partitions else "")
        env.check(folder == want, "the frame is in the folder of its date, and carries the time it was written")
    env.check(all(n.startswith(folder) and "/" not in n[len(folder):] for n in store.blobs), "all of the frame is in its folder")
    if flags:
        q = {} if partitions else {"partitions": None}
        got = sorted(r["n"] for r in Reader(inner_reader=mem_reader(store), dataset="bucket/data", start_date=DAY, end_date=DAY, **q))
        env.check(got == list(range(len(ws))), "the records of all its writers are read")


# ---------------------------------------------------------------- W07
@harness("W07", cases=lambda tier: [2, 3] if tier == "quick" else [2, 3, 4], reach=["named"],
         bounds="2..3 commits (thorough 4) by one or two writers of a process; clock readings arbitrary in a 16 s window, "
                "they may repeat or go backwards")
def names_in_process(env, case):
    store = setup(env)
    base = 0x17A0000000000000
    n = [0]

    def clock():
        n[0] += 1
        return base + env.int("clock%d" % n[0], 0, 0x3FFFFFFFF)
    env.patch("time.time_ns", clock)
    two = env.bool("two_writers")
    cls = mem_writer(store)
    ws = [cls(dataset="bucket/data/day_01", format="jsonl")]
    ws.append(cls(dataset="bucket/data/day_01", format="jsonl") if two else ws[0])
    names = []
    for i in range(case):
        name = ws[i % 2].commit(b"x")
        env.check(all(name != m for m in names), "two commits never use the same name")
        env.check(name.startswith("bucket/data/day_01/") and "/" not in name[len("bucket/data/day_01/"):], "blob is in its folder")
        names.append(name)
    env.reach("named")


@harness("W07", reach=["named"],
         bounds="two processes (arbitrary host ids below 2^48 and process ids below 2^22, not both equal), one commit each at "
                "arbitrary, possibly equal, clock readings")
def names_across_processes(env, case):
    store = setup(env)
    base = 0x17A0000000000000
    host = [env.int("host%d" % i, 0x100000000000, 0xFFFFFFFFFFFF) for i in range(2)]
    pid = [env.int("pid%d" % i, 1, 4194304) for i in range(2)]
    env.assume(env.any([host[0] != host[1], pid[0] != pid[1]]))
    names = []
    for i in range(2):
        env.new_process()
        env.patch("uuid.getnode", lambda: host[i])
        env.patch("os.getpid", lambda: pid[i])
        env.patch("time.time_ns", lambda: base + env.int("clock%d" % i, 0, 0x3FFFFFFFF))
        w = mem_writer(store)(dataset="bucket/data/day_01", format="jsonl")
        names.append(w.commit(b"x"))
    env.check(names[0] != names[1], "two processes never use the same name")
    env.reach("named")


@harness("W07", cases=[1, 2], reach=["named"],
         bounds="a process which forks after one or two commits: parent and child go on with the same writer, or each with a new one, one or two commits each, three pairs of process ids, arbitrary clock readings in a window of 4 ns")
def names_after_fork(env, case):
    store = setup(env)
    pid = env.choice("pids", [(21, 22), (0xABC, 0xAB), (4194304, 1)])
    env.patch("uuid.getnode", lambda: 0x123456789ABC)
    n = [0]

    def clock():
        n[0] += 1
        return 0x17A0000000000000 + env.int("clock%d" % n[0], 0, 4)
    env.patch("time.time_ns", clock)
    env.patch("os.getpid", lambda: pid[0])
    cls = mem_writer(store)
    w = cls(dataset="bucket/data/day_01", format="jsonl")
    new = env.bool("new_writers")
    names = [w.commit(b"x") for _ in range(case)]
    # what the child finds in memory is what its parent had there when it forked
    state = {k: (list(v) if type(v) is list else dict(v) if type(v) is dict else v) for k, v in vars(base_inner_writer).items()
             if type(v) in (int, float, str, list, dict, type(None)) and not k.startswith("__")}
    for side in range(2):
        for k, v in state.items():
            setattr(base_inner_writer, k, list(v) if type(v) is list else dict(v) if type(v) is dict else v)
        env.patch("os.getpid", lambda: pid[side])
        mine = cls(dataset="bucket/data/day_01", format="jsonl") if new else w
        for _ in range(1 + env.choice("more%d" % side, [0, 1])):
            name = mine.commit(b"x")
            env.check(all(name != m for m in names), "no two commits of a process and its child use the same name")
            names.append(name)
    env.reach("named")


@harness("W07", cases=[1, 2], reach=["named", "preempted"], steps=2000000,
         bounds="two threads with one and one or two commits each, one may run to completion at every lock operation and clock reading of the "
                "other (at most 2 preemptions); clock readings arbitrary in a window of 4 ns")
def names_of_threads(env, case):
    store = setup(env)
    sched = Sched(env, 2)
    n = [0]

    def clock():
        n[0] += 1
        now = 0x17A0000000000000 + env.int("clock%d" % n[0], 0, 4)
        sched.point()
        return now
    env.patch("time.time_ns", clock)
    cls = mem_writer(store)
    ws = [cls(dataset="bucket/data/day_01", format="jsonl") for _ in range(2)]
    names = []

    def commit(w):
        return lambda: names.append(w.commit(b"x"))
    sched.threads = [[commit(ws[0])], [commit(ws[1]) for _ in range(case)]]
    SchedLock.hook = lambda ev, lk: sched.point()
    try:
        while sched.threads[0]:
            sched.run(0)
        if sched.budget < 2:
            env.reach("preempted")
        while sched.threads[1]:
            sched.run(1)
    finally:
        SchedLock.hook = None
    env.reach("named")
    for i in range(len(names)):
        for j in range(i):
            env.check(names[i] != names[j], "two threads never use the same name")


@harness("W07", reach=["named"], bounds="two commits of a process, the second up to 36 years after the first, to the nanosecond")
def names_over_years(env, case):
    store = setup(env)
    readings = [0x1600000000000000, 0x1600000000000000 + env.int("later", 0, 0x0FFFFFFFFFFFFFFF)]
    env.patch("time.time_ns", lambda: readings.pop(0))
    w = mem_writer(store)(dataset="bucket/data/day_01", format="jsonl")
    names = [w.commit(b"x") for _ in range(2)]
    env.reach("named")
    env.check(names[0] != names[1], "two commits never use the same name")


# ---------------------------------------------------------------- W08
GOOD = [{"n": 1, "v": "a"}, {"n": None, "v": "a"}, {"n": -5, "v": ""}]
BAD = [{"n": "x", "v": "a"}, {"n": 1, "v": 2}, {"n": 1.5, "v": "a"}, {"n": 1}, {"n": [1], "v": "a"}, {"n": 1, "v": b"b"},
       {"n": 1, "w": "a"}]


@harness("W08", cases=lambda tier: [[c, f, n] for c in ("Writer", "BatchWriter") for f in ("jsonl", "zstd", "parquet")
                                    for n in ((2,) if tier == "quick" else (2, 3))],
         reach=["accepted", "refused"],
         bounds="2 appends (thorough 3), each a choice of 3 conforming and 7 non-conforming records of a 2 column schema")
def schema_gate(env, case):
    cls, fmt, n = case
    store = setup(env)
    w = {"Writer": Writer, "BatchWriter": BatchWriter}[cls](
        dataset="bucket/data", format=fmt, inner_writer=mem_writer(store), date=DAY, schema=COLUMNS)
    want = []
    for i in range(n):
        r = dict(env.choice("rec%d" % i, GOOD + BAD))
        good = r in GOOD
        res = env.catch(w.append, dict(r))
        if good:
            env.reach("accepted")
            env.check(res[0] == "ok", "a conforming record is accepted")
            want.append(r)
        else:
            env.reach("refused")
            env.check(res[0] == "exc", "a record which breaks the schema is refused with an error")
    w.finalize()
    got = []
    for name, b in store.writes:
        if name.endswith("frame.complete"):
            continue
        if fmt == "parquet":
            import io
            import pyarrow.parquet as pq
            got += pq.read_table(io.BytesIO(b)).to_pylist()
        else:
            got += [orjson.loads(x) for x in payload(fmt, b).split(b"\n")[:-1]]
    env.observe("got", got)
    env.check(got == want, "only conforming records are stored")


TYPED = [{"name": c, "type": t} for c, t in [("i", "INTEGER"), ("d", "DOUBLE"), ("t", "TIMESTAMP"), ("y", "DATE"), ("b", "BOOLEAN"), ("s", "VARCHAR"), ("l", "ARRAY"), ("x", "BLOB")]]
VALUES = {"i": [2 ** 31, -2 ** 63, 2 ** 63 - 1, 0], "d": [0.1, 1e300, -5e-324, 16777217.0],
          "t": [datetime.datetime(2024, 2, 29, 23, 59, 59, 999999), datetime.datetime(1969, 12, 31, 1, 0, 0, 1), datetime.datetime(2262, 5, 1)],
          "y": [datetime.date(2024, 2, 29), datetime.date(1969, 12, 31)], "b": [True, False], "s": ["", "\u00e9\n"], "l": [["a", ""], []], "x": [b"", b"\xff\x00"]}


def exact(v):
    return v.isoformat() if hasattr(v, "isoformat") else repr(v)


@harness("W08", cases=[[f, c] for f in ("parquet", "jsonl", "zstd") for c in VALUES if f == "parquet" or c != "x"], reach=["stored"],
         bounds="two records with a value (or none) in one of the columns of all types: integers to 63 bits, floats, timestamps to the microsecond, dates, "
                "booleans, texts, lists, bytes (Parquet only); the schema given as columns, JSON text, or a dictionary of fields or columns")
def column_types(env, case):
    fmt, col = case
    store = setup(env)
    schema = env.choice("schema", ["list", "json", "json columns", "fields", "columns"])
    given = {"list": lambda: TYPED, "json": lambda: orjson.dumps(TYPED).decode(), "json columns": lambda: orjson.dumps({"columns": TYPED}).decode(),
             "fields": lambda: {"fields": TYPED}, "columns": lambda: {"name": "t", "columns": TYPED}}[schema]()
    w = Writer(dataset="bucket/data", format=fmt, inner_writer=mem_writer(store), date=DAY, schema=given)
    want = []
    for i in range(2):
        r = dict.fromkeys(VALUES)
        r[col] = env.choice("value%d" % i, VALUES[col] + [None])
        w.append(dict(r))
        want.append(r)
    bad = dict.fromkeys(VALUES)
    bad[col] = object()
    env.check(env.catch(w.append, bad)[0] == "exc", "a record which breaks the schema is refused with an error")
    w.finalize()
    env.reach("stored")
    if fmt != "parquet":
        want = [orjson.loads(orjson.dumps(r)) for r in want]
    got = list(Reader(inner_reader=mem_reader(store), dataset="bucket/data", start_date=DAY, end_date=DAY))
    env.observe("got", [repr(r[col]) for r in got])
    env.check(len(got) == 2 and all([exact(a[c]) == exact(b[c]) for a, b in zip(got, want) for c in VALUES]), "what conforms is stored, to the last digit")


@harness("W08", cases=["Writer", "BatchWriter"], reach=["accepted", "refused"], bounds="three records, each with a value, a null, or without the field, under an expectation that it is not null")
def expectations(env, case):
    store = setup(env)
    w = {"Writer": Writer, "BatchWriter": BatchWriter}[case](dataset="bucket/data", format="jsonl", inner_writer=mem_writer(store), date=DAY, schema=False,
                                                              set_of_expectations=[{"expectation": "expect_column_values_to_not_be_null", "column": "n"}])
    want = []
    for i in range(3):
        r = env.choice("rec%d" % i, [{"n": i}, {"n": None}, {"v": i}])
        got = env.catch(w.append, dict(r))
        good = r.get("n") is not None
        env.reach("accepted" if good else "refused")
        env.check((got[0] == "ok") == good, "a record is refused when it breaks an expectation, and only then")
        if good:
            want.append(r)
    w.finalize()
    env.check([orjson.loads(x) for n, b in store.writes if n.endswith("jsonl") for x in b.split(b"\n")[:-1]] == want, "only records which were accepted are stored")


# ---------------------------------------------------------------- W09
class Table:
    """what a database inner writer received"""

    def __init__(self):
        self.events = []
        self.failures = []


def db_writer(env, table, may_fail):
    from mabel.adapters.database.base_database_writer import BaseDatabaseWriter
    n = [0]

    class Db(BaseDatabaseWriter):
        def commit(self, dataframe):
            n[0] += 1
            if may_fail and env.bool("fail%d" % n[0]):
                table.failures.append(n[0])
                raise failure(n[0])()
            table.events.append([tuple(r)[0] for r in dataframe])
    return Db


@harness("W09", reach=["sent"], bounds="two database writers at work at once, five rows in an arbitrary order, batches of 1 or 2")
def database_writers_apart(env, case):
    setup(env)
    env.patch("mabel.data.writers.database_writer.DatabaseWriter.__del__", lambda self: None)
    env.constant("mabel.data.writers.database_writer", "BATCH_SIZE", 100, env.choice("batch", [1, 2]))
    ts = [Table(), Table()]
    ws = [DatabaseWriter(schema=COLUMNS, dataset="t%d" % k, inner_writer=db_writer(env, t, False), finalizer=lambda w: None) for k, t in enumerate(ts)]
    sent = [[], []]
    for i in range(5):
        k = env.choice("writer%d" % i, [0, 1])
        ws[k].append({"n": i, "v": "a"})
        sent[k].append(i)
    counts = [w.finalize() for w in ws]
    env.reach("sent")
    for k in range(2):
        env.check([i for b in ts[k].events for i in b] == sent[k] and counts[k] == len(sent[k]), "each writer sends its own rows")


@harness("W09", cases=[2], reach=["sent"], bounds="two rows, each a dictionary or a model (pydantic, or with the methods of its first version)")
def models_are_rows(env, case):
    setup(env)
    env.patch("mabel.data.writers.database_writer.DatabaseWriter.__del__", lambda self: None)
    t = Table()
    w = DatabaseWriter(schema=COLUMNS, dataset="t", inner_writer=db_writer(env, t, False), finalizer=lambda w: None)
    for i in range(case):
        w.append(models(i, "a")[env.choice("kind%d" % i, [0, 1, 2])])
    w.finalize()
    env.reach("sent")
    env.check([i for b in t.events for i in b] == [0, 1], "a model is sent as its fields")


@harness("W09", cases=lambda tier: [[k, f] for k in range(0, 7 if tier == "quick" else 10) for f in (False, True) if not f or k < 6],
         reach=["several batches", "finalized", "failed"],
         bounds="0..6 appends (thorough 9), batch size 1..7 symbolic (constant 100 in the code, stubbed); with failures 0..5 "
                "appends and every batch commit may fail")
def database_batches(env, case):
    n, may_fail = case
    collected = vars(DatabaseWriter).get("__del__")
    setup(env)
    env.patch("mabel.data.writers.database_writer.DatabaseWriter.__del__", lambda self: None)
    size = env.int("batch", 1, 7)
    size = env.constant("mabel.data.writers.database_writer", "BATCH_SIZE", 100, size)
    t = Table()
    fin = lambda w: t.events.append("final")
    w = DatabaseWriter(schema=COLUMNS, dataset="t", inner_writer=db_writer(env, t, may_fail), finalizer=fin)
    acked = []
    for i in range(n):
        try:
            w.append({"n": i, "v": "a"})
            acked.append(i)
        except CommitFailed:
            env.reach("failed")
    done = False
    for _ in range(2):
        try:
            count = w.finalize()
            done = True
            break
        except Exception:
            env.reach("failed")
    if done and not may_fail:
        # finalized again, then collected
        w.finalize()
        if collected:
            collected(w)
    env.observe("events", list(t.events))
    batches = [e for e in t.events if e != "final"]
    ids = [i for b in batches for i in b]
    env.check(len(set(ids)) == len(ids), "no row is sent twice")
    mine = [i for i in ids if i in acked]
    if len(batches) > 1:
        env.reach("several batches")
    if done:
        env.reach("finalized")
        env.check(mine == acked, "every accepted row reaches the database, in order")
        if not may_fail:
            env.check(count == n, "the number of rows is returned")
        env.check(t.events.count("final") == 1 and t.events[-1] == "final", "the finalizer runs once, after all rows")
    else:
        env.check(mine == acked[: len(mine)], "rows sent are a prefix of rows accepted")
        env.check("final" not in t.events, "the finalizer does not run before all rows are sent")
    env.check(env.all([len(b) <= size + len(t.failures) for b in batches]), "no batch is larger than the batch size, but for rows which came while it failed")
    if not may_fail:
        env.check(env.all([len(b) == size for b in batches[:-1]]), "only the last batch is short")
        env.check(all(len(b) > 0 for b in batches), "no empty batch")
