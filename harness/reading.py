"""read path: round trip, frame selection, date ranges, cursors, adapters, per record pipeline"""
import datetime
import json as _json

import orjson
import zstandard

from harness.common import Store, mem_reader, mem_writer, no_del, no_random, ticking_clock
from symx.env import harness

from mabel.data import BatchWriter, Reader, StreamWriter, Writer
from mabel.data.internals.dictset import STORAGE_CLASS

COLUMNS = [{"name": "n", "type": "INTEGER"}, {"name": "v", "type": "VARCHAR"}]
DAY = datetime.date(2024, 2, 29)
FOLDER = "bucket/data/year_2024/month_02/day_29"


def setup(env):
    no_del(env)
    ticking_clock(env)
    no_random(env)
    return Store()


def read(store, **kw):
    kw.setdefault("dataset", "bucket/data")
    kw.setdefault("start_date", DAY)
    kw.setdefault("end_date", DAY)
    return Reader(inner_reader=mem_reader(store), **kw)


def names(env, fn):
    """the records read; None when there was nothing to read"""
    r = env.catch(lambda: list(fn()))
    if r == ("exc", "DataNotFoundError"):
        return []
    assert r[0] == "ok", r
    return r[1]


def jsonl(records):
    return b"".join([orjson.dumps(r) + b"\n" for r in records])


# ---------------------------------------------------------------- R01
def field(env, name, kind):
    if kind == "int":
        return env.int(name, -(10 ** 6), 10 ** 6)
    if kind == "str":
        return env.str(name, "a\"\\\n\r\u00e9\u2028,", 0, 2)
    if kind == "bool":
        return env.bool(name)
    if kind == "null":
        return None
    if kind == "list":
        return [env.int(name + "0", -9, 9), env.str(name + "1", "b\n", 0, 1), None]
    if kind == "dict":
        return {"k": env.int(name + "k", -9, 9), "l": {"m": env.str(name + "m", "c\n", 0, 1)}}
    return 0.5


KINDS = ["int", "str", "bool", "null", "list", "dict", "float", "no fields"]


def r01_cases(tier):
    out = []
    for w in ("Writer", "BatchWriter"):
        for f in ("jsonl", "zstd"):
            for k in KINDS:
                out.append([w, f, k, 1])
            out.append([w, f, "int", 2])
            out.append([w, f, "no fields", 2])
            if tier != "quick":
                out.append([w, f, "int", 3])
                out.append([w, f, "str", 2])
    return out


@harness("R01", cases=r01_cases, reach=["read back"],
         bounds="1..2 records (thorough 3), one field each: integer +-10^6, string of length 0..2 over {a \" \\\\ newline CR e-acute "
                "U+2028 comma}, boolean, null, nested list, nested dict or float, or no field at all; blob size limit 0..40; jsonl and zstd, Writer and "
                "BatchWriter; parquet separately")
def round_trip(env, case):
    wname, fmt, kind, n = case
    store = setup(env)
    cls = {"Writer": Writer, "BatchWriter": BatchWriter}[wname]
    w = cls(dataset="bucket/data", format=fmt, inner_writer=mem_writer(store), date=DAY, schema=False,
            blob_size=env.int("blob_size", 0, 40))
    sent = []
    for i in range(n):
        r = {"n": i, "v": field(env, "v%d" % i, kind)}
        if kind == "no fields":
            r = env.choice("record%d" % i, [{}, {"": None}, {"v": {}}])
        sent.append(r)
        w.append(dict(r))
    w.finalize()
    got = list(read(store))
    env.observe("got", got)
    env.reach("read back")
    env.check(env.eq(got, sent), "the records read are the records written, in order")


@harness("R01", cases=lambda tier: [["BatchWriter", 2], ["Writer", 1]] if tier == "quick" else [["BatchWriter", 3], ["Writer", 3]],
         reach=["read back"],
         bounds="parquet: 1..2 rows (thorough 3), values from {int, negative, null} x {text, empty, null}, blob size limit 0 or large")
def round_trip_parquet(env, case):
    wname, n = case
    store = setup(env)
    cls = {"Writer": Writer, "BatchWriter": BatchWriter}[wname]
    w = cls(dataset="bucket/data", format="parquet", inner_writer=mem_writer(store), date=DAY, schema=COLUMNS,
            blob_size=env.choice("blob_size", [0, 1 << 20]))
    sent = []
    for i in range(n):
        r = {"n": env.choice("n%d" % i, [7, -1, None]), "v": env.choice("v%d" % i, ["a", "", None])}
        sent.append(r)
        w.append(dict(r))
    w.finalize()
    got = list(read(store))
    env.observe("got", got)
    env.reach("read back")
    env.check(got == sent, "the records read are the records written, in order")


@harness("R01", cases=lambda tier: [["Writer", None], ["BatchWriter", None], ["Writer", "hour"]], reach=["found", "not found"],
         bounds="one record written for an arbitrary date in windows of 7 days around four month and year ends (thorough 32 days; any hour too, with an hour partition), read for "
                "an arbitrary day or hour at most two away")
def same_folder(env, case):
    wname, part = case
    store = setup(env)
    dt = env.dt
    base = dt.datetime(*env.choice("month end", [(2023, 12, 28), (2024, 2, 26), (2025, 2, 26), (2099, 12, 30)]))
    d = base
    if part is None:
        d = d + dt.timedelta(days=env.int("day", 0, 6 if env.tier == "quick" else 31))
    kw = {}
    if part is not None:
        d = d + dt.timedelta(hours=env.int("hour", 68, 76))
        kw["partitions"] = ["{yyyy}/{mm}/{dd}/h_{HH}"]
    cls = {"Writer": Writer, "BatchWriter": BatchWriter}[wname]
    env.clock(lambda: dt.datetime(2024, 5, 5, 12, 0, 0))
    w = cls(dataset="bucket/data", format="jsonl", inner_writer=mem_writer(store), date=d, schema=False, **kw)
    w.append({"n": 1})
    w.finalize()
    off = env.int("off", -2, 2)
    q = d + (dt.timedelta(days=off) if part is None else dt.timedelta(hours=off))
    got = names(env, lambda: read(store, start_date=q, end_date=q, **kw))
    env.observe("got", got)
    env.reach("found" if got else "not found")
    env.check((len(got) == 1) == (off == 0), "records are found under the date they were written for, and no other")


@harness("R01", cases=["Writer", "BatchWriter", "StreamWriter"], reach=["found", "not found"],
         bounds="one record written without a date at an arbitrary hour of 29 February 2024, read without dates at once, or one or thirteen hours later; the local time is ahead of UTC")
def written_today(env, case):
    store = setup(env)
    dt = env.dt
    start = env.int("hour", 0, 23)
    t = [start]
    env.clock(lambda: dt.datetime(2024, 2, 29) + dt.timedelta(hours=t[0], minutes=20))
    if case == "StreamWriter":
        env.patch("threading.Thread.start", lambda self: None)
    w = {"Writer": Writer, "BatchWriter": BatchWriter, "StreamWriter": StreamWriter}[case](dataset="bucket/data", format="jsonl", inner_writer=mem_writer(store), schema=False)
    w.append({"n": 1})
    w.finalize()
    t[0] = start + env.choice("later", [0, 1, 13])
    got = names(env, lambda: read(store, start_date=None, end_date=None))
    same = True if start // 24 == t[0] // 24 else False
    env.observe("got", got)
    env.reach("found" if got else "not found")
    env.check((len(got) == 1) == same, "what was written today is read today, and not tomorrow")


@harness("R01", cases=["jsonl", "zstd"], reach=["read back"],
         bounds="one record with an integer around the limits of 63 and 64 bits and between")
def big_integers(env, fmt):
    store = setup(env)
    n = env.choice("n", [2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, 2 ** 63, 2 ** 64 - 1, 2 ** 64 + 1, -2 ** 63 - 1])
    w = Writer(dataset="bucket/data", format=fmt, inner_writer=mem_writer(store), date=DAY, schema=False)
    w.append({"n": n})
    w.finalize()
    got = list(read(store))
    env.reach("read back")
    env.observe("got", repr(got))
    env.check(got == [{"n": n}], "an integer is read as it was written", known=("KF-R01-big-integers", n >= 2 ** 64 or n < -2 ** 63))


@harness("R01", cases=["Writer", "BatchWriter"], reach=["found", "not found"],
         bounds="one record written for a date and time given as text, date or datetime, with hour folders, with the layouts of the dataset name which are "
                "kept for compatibility, or without partitions, read for that time or an hour or a day later")
def kinds_of_dates(env, case):
    store = setup(env)
    env.clock(lambda: datetime.datetime(2024, 5, 5, 12, 0, 0))
    cls = {"Writer": Writer, "BatchWriter": BatchWriter}[case]
    hour = env.choice("hour", [0, 13])
    date = env.choice("date", ["text", "text of day", "datetime", "date"])
    if date in ("text of day", "date"):
        hour = 0
    when = {"text": "2024-02-29T%02d:05:06" % hour, "text of day": "2024-02-29", "datetime": datetime.datetime(2024, 2, 29, hour, 5, 6), "date": DAY}[date]
    layout = env.choice("layout", ["days", "hours", "hour folders", "short"] + (["datefolders", "datefolders_short", "raw", "none"] if case == "Writer" else []))
    kw, rk, dataset = {}, {}, "bucket/data"
    if layout == "hours":
        kw["partitions"] = rk["partitions"] = ["{yyyy}/{mm}/{dd}/h_{HH}"]
    elif layout == "hour folders":
        kw["partitions"] = ["year_{yyyy}/month_{mm}/day_{dd}", "by_hour/hour={HH}"]
    elif layout == "short":
        kw["partitions"] = rk["partitions"] = ["{yyyy}/{mm}", "{dd}"]
    elif layout == "datefolders":
        dataset += "/{datefolders}"
    elif layout == "datefolders_short":
        dataset += "/{datefolders_short}"
        rk["partitions"] = ["{yyyy}/{mm}/{dd}"]
    elif layout == "raw":
        kw["raw_path"] = env.choice("raw", [True, "TRUE", "true"])
        rk["partitions"] = None
    elif layout == "none":
        kw["partitions"] = rk["partitions"] = None
    w = cls(dataset=dataset, format="jsonl", inner_writer=mem_writer(store), date=when, schema=False, **kw)
    w.append({"n": 1})
    w.finalize()
    later = env.choice("later", [datetime.timedelta(0), datetime.timedelta(hours=1), datetime.timedelta(days=1)])
    q = datetime.datetime(2024, 2, 29, hour, 30) + later
    got = names(env, lambda: read(store, start_date=q, end_date=q, **rk))
    env.observe("got", got)
    env.reach("found" if got else "not found")
    same = layout in ("raw", "none") or (not later.days and (not later or layout != "hours"))
    env.check((len(got) == 1) == same, "records are found under the date they were written for, and no other")


@harness("R01", reach=["read back"], bounds="text files of two lines: the content is read, a file as one record")
def text_files(env, case):
    store = setup(env)
    w = Writer(dataset="bucket/data", format="text", inner_writer=mem_writer(store), date=DAY, schema=False)
    lines = [env.choice("line%d" % i, ["a", "", "b\nc", " \u00e9 "]) for i in range(2)]
    for i in lines:
        w.append(i)
    w.finalize()
    got = list(read(store))
    env.reach("read back")
    env.check(got == ["".join(i + "\n" for i in lines).encode()], "the text which was written is read")


# ---------------------------------------------------------------- R02
@harness("R02", cases=["second", "hour", "day"], reach=["read"],
         bounds="two frames of a day, written at five times of three days, the second 1..61 seconds, 1..25 hours or 1..32 days later: the later one is read")
def latest_written(env, case):
    store = setup(env)
    dt = env.dt
    base = dt.datetime(*env.choice("base", [(2024, 2, 28), (2023, 12, 30), (2024, 9, 30)]))
    first = env.choice("first", [0, 3599, 43199, 46800, 86399])
    later = {"second": lambda: dt.timedelta(seconds=env.choice("seconds", [1, 59, 60, 61])), "hour": lambda: dt.timedelta(hours=env.choice("hours", [1, 10, 11, 12, 13, 25])),
             "day": lambda: dt.timedelta(days=env.choice("days", [1, 2, 3, 31, 32]))}[case]()
    now = [base + dt.timedelta(seconds=first)]
    env.clock(lambda: now[0])
    for i in range(2):
        w = BatchWriter(dataset="bucket/data", format="jsonl", inner_writer=mem_writer(store), date=DAY, schema=False)
        w.append({"n": i})
        w.finalize()
        now[0] = now[0] + later
    got = list(read(store))
    env.reach("read")
    env.observe("got", got)
    env.check(got == [{"n": 1}], "the frame which was written last is read")


def put_frame(env, store, folder, tag, k, blobs, ids):
    for j in range(blobs):
        store.blobs["%s/%s-%d.jsonl" % (folder, tag, j)] = jsonl([{"f": k, "b": j}])
    complete, ignore = env.bool("complete%s" % tag), env.bool("ignore%s" % tag)
    if complete:
        store.blobs[folder + "/frame.complete"] = b""
    if ignore:
        store.blobs[folder + "/frame.ignore"] = b""
    ids[k] = env.all([complete, env.not_(ignore)])


IDS = ["as_at_20240229-010203", "as_at_20240229-110203", "as_at_20240229-110204"]


def r02_cases(tier):
    n = 3
    return [["plain", n], ["random", 2], ["hours", 2], ["hours", 1], ["few", 2]] + ([["random", 3], ["hours", 3], ["plain", 4]] if tier != "quick" else [])


@harness("R02", cases=r02_cases, reach=["latest", "older", "none"],
         bounds="up to 3 frames (thorough 4) of two blobs each (or two frames of 0..2 blobs) in a day folder, or in each of two hour folders; every combination of "
                "completion and ignore flags; frame names a fixed increasing sequence, or arbitrary distinct names of 1..2 digits "
                "from {0,1,9}; five pairs of hour names (some a prefix or suffix of the other); datasets in a folder named like a partition or a frame too")
def frames(env, case):
    shape, n = case
    store = setup(env)
    dataset = env.choice("dataset", ["bucket/data", "bucket/by_team/data"]) if shape == "hours" else \
        env.choice("dataset", ["bucket/data", "bucket/as_at_home/data", "as_at_/x"]) if shape == "few" else "bucket/data"
    top = FOLDER.replace("bucket/data", dataset)
    folders = [("", "")]
    if shape == "hours":
        h0, h1 = env.choice("hours", [("1", "12"), ("12", "1"), ("01", "02"), ("2", "22"), ("21", "1")])
        folders = [("/by_hour/hour=" + h0, "A"), ("/by_hour/hour=" + h1, "B")]
    expected = []
    sizes = [env.choice("blobs%d" % k, [0, 1, 2]) for k in range(n)] if shape == "few" else None
    for sub, tag in folders:
        usable = {}
        frame_ids = []
        for k in range(n):
            if shape == "random":
                nm = "as_at_" + env.str("id%d" % k, "019", 1, 2)
                env.assume(env.all([nm != o for o in frame_ids]))
            else:
                nm = (IDS + ["as_at_20240301-000000"])[k] if tag != "B" else "as_at_20240229-0%d5959" % k
            frame_ids.append(nm)
            blobs = sizes[k] if sizes else 2
            put_frame(env, store, top + sub + "/" + nm, tag + str(k), tag + str(k), blobs, usable)
        order = sorted(range(n), key=lambda k: frame_ids[k], reverse=True)
        best = None
        for k in order:
            if usable[tag + str(k)]:
                best = k
                break
        env.reach("none" if best is None else "latest" if best == order[0] else "older")
        if best is not None:
            expected += [(tag + str(best), j) for j in range(sizes[best] if sizes else 2)]
    got = names(env, lambda: read(store, dataset=dataset))
    got = sorted((r["f"], r["b"]) for r in got)
    env.observe("got", got)
    env.check(got == sorted(expected), "exactly the latest complete frame which is not ignored is read, per partition")


@harness("R02", cases=lambda tier: [0, 1, 2] if tier == "quick" else [0, 1, 2, 3], reach=["read", "backout"],
         bounds="0..2 blobs (thorough 3) without frames, each may be a dead letter blob or a control file; two levels of 'by' folders")
def dead_letters(env, case):
    store = setup(env)
    want = []
    dataset = env.choice("dataset", ["bucket/data", "bucket/has_at_/least"]) if case == 1 else "bucket/data"
    for j in range(case):
        kind = env.choice("kind%d" % j, ["data", "BACKOUT", "nested", "control", "unknown", "by", "by BACKOUT", "in BACKOUT", "capitals"])
        nm = {"data": "/a%d.jsonl", "BACKOUT": "/BACKOUT/a%d.jsonl", "nested": "/deeper/a%d.jsonl", "control": "/a%d.ignore",
              "unknown": "/a%d.what", "by": "/by_x/x=1/a%d.jsonl",
              "by BACKOUT": "/by_x/x=2/BACKOUT/a%d.jsonl", "in BACKOUT": "/BACKOUT/by_x/x=1/a%d.jsonl", "capitals": "/Some-Data_%d.jsonl"}[kind] % j
        store.blobs[FOLDER.replace("bucket/data", dataset) + nm] = jsonl([{"n": j}])
        if "BACKOUT" in kind:
            env.reach("backout")
        want.append((kind, j))
    by = [j for k, j in want if k == "by"]
    expect = by if by else [j for k, j in want if k in ("data", "nested", "capitals")]
    r = env.catch(lambda: [r["n"] for r in read(store, dataset=dataset)])
    env.observe("read", r)
    env.reach("read")
    if expect:
        env.check(r[0] == "ok" and sorted(r[1]) == expect, "dead letters and control files are not read, data is, once")
    else:
        env.check(r == ("exc", "DataNotFoundError"), "a read without data says so")


# ---------------------------------------------------------------- R03
def as_kind(env, d, kind):
    if kind == "str":
        return d.isoformat()[:10]
    if kind == "date":
        return d.date()
    return d


@harness("R03", cases=lambda tier: [[a, b] for a in ("str", "date", "datetime", "none") for b in ("str", "date", "datetime", "none")],
         reach=["some", "none", "several days"],
         bounds="a dataset with one blob on each of 6 consecutive days across a month end; start and end arbitrary days in a 9 day window "
                "(either order), or left out (= today, arbitrary in the window)")
def day_range(env, case):
    ka, kb = case
    store = setup(env)
    dt = env.dt
    base = dt.datetime(2024, 2, 26)
    today = env.int("today", 0, 8) if "none" in case else 0
    env.clock(lambda: base + dt.timedelta(days=today, hours=13, minutes=5))
    for i in range(6):
        d = datetime.datetime(2024, 2, 27) + datetime.timedelta(days=i)
        store.blobs[d.strftime("bucket/data/year_%Y/month_%m/day_%d/x.jsonl")] = jsonl([{"n": i + 1}])
    a = env.int("start", 0, 8) if ka != "none" else today
    b = env.int("end", 0, 8) if kb != "none" else today
    if ka == kb == "none":
        env.reach("several days")
    kw = dict(start_date=None, end_date=None)
    if ka != "none":
        kw["start_date"] = as_kind(env, base + dt.timedelta(days=a), ka)
    if kb != "none":
        kw["end_date"] = as_kind(env, base + dt.timedelta(days=b), kb)
    got = [r["n"] for r in names(env, lambda: read(store, **kw))]
    env.observe("got", got)
    lo, hi = env.ite(a <= b, a, b), env.ite(a <= b, b, a)
    env.reach("some" if got else "none")
    if len(got) > 1:
        env.reach("several days")
    env.check(sorted(got) == got and len(set(got)) == len(got), "each record once, in date order")
    for n in range(1, 7):
        env.check((n in got) == env.all([lo <= n, n <= hi]), "the records of the days in the range, and no others")


@harness("R03", cases=lambda tier: [["datetime", "day"], ["datetime", "hour"], ["str", "day"]] + ([["str", "hour"]] if tier != "quick" else []), reach=["read"],
         bounds="daily or hourly partitions with one blob in each, start and end at arbitrary minutes and seconds of an hour among {0, 1, 23} (thorough "
                "{0, 1, 12, 22, 23}) of one of two (thorough three) consecutive days, either order, given as datetimes or text")
def time_range(env, case):
    kind, part = case
    store = setup(env)
    dt = env.dt
    base = dt.datetime(2024, 2, 28)
    env.clock(lambda: base)
    hours = [0, 1, 23] if env.tier == "quick" else [0, 1, 12, 22, 23]
    days = 1 if env.tier == "quick" else 2
    for d in range(-1, days + 2):
        t = datetime.datetime(2024, 2, 28) + datetime.timedelta(days=d)
        for h in range(24) if part == "hour" else [0]:
            store.blobs[t.strftime("bucket/data/%Y/%m/%d/") + ("h_%02d/" % h if part == "hour" else "") + "x.jsonl"] = jsonl([{"n": d * 24 + h}])
    at = []
    for e in ("start", "end"):
        at.append((env.choice(e + " day", list(range(days + 1))) * 24 + env.choice(e + " hour", hours), env.int(e + " minute", 0, 59), env.int(e + " second", 0, 59)))
    kw = {}
    for e, (h, m, sec) in zip(("start_date", "end_date"), at):
        t = base + dt.timedelta(hours=h) + dt.timedelta(minutes=m, seconds=sec)
        kw[e] = t if kind == "datetime" else t.isoformat()
    got = [r["n"] for r in names(env, lambda: read(store, partitions=["{yyyy}/{mm}/{dd}" + ("/h_{HH}" if part == "hour" else "")], **kw))]
    env.observe("got", got)
    env.reach("read")
    lo, hi = min(at[0][0], at[1][0]), max(at[0][0], at[1][0])
    want = list(range(lo, hi + 1)) if part == "hour" else [d * 24 for d in range(lo // 24, hi // 24 + 1)]
    env.check(got == want, "exactly the partitions from the first to the last time are read, in order")


@harness("R03", cases=["1d", "3d", "30h"], reach=["refused", "allowed"], bounds="a range of 1..3 days, with data on each of them")
def freshness_of_ranges(env, limit):
    store = setup(env)
    days = env.int("days", 0, 2)
    for d in range(4):
        store.blobs["bucket/data/year_2024/month_02/day_%02d/b.jsonl" % (26 + d)] = jsonl([{"n": 26 + d}])
    last = env.dt.date(2024, 2, 26) + env.dt.timedelta(days=days)
    r = env.catch(lambda: [x["n"] for x in read(store, start_date=env.dt.date(2024, 2, 26), end_date=last, freshness_limit=limit)])
    env.observe("read", r)
    one = True if days == 0 else False
    env.reach("allowed" if one else "refused")
    if one:
        env.check(r == ("ok", [26]), "the day's data is fresh")
    else:
        env.check(r == ("exc", "InvalidCombinationError"), "a range has no freshness limit")


@harness("R03", cases=lambda tier: ["d", "h"], reach=["found", "stale", "fresh"],
         bounds="the only data is 0..5 days old; freshness limit 0..4 days or 0..96 hours")
def freshness(env, case):
    store = setup(env)
    dt = env.dt
    base = dt.datetime(2024, 3, 3)
    env.clock(lambda: base + dt.timedelta(hours=env.hour))
    env.hour = 13
    age = env.pin(env.int("age", 0, 5))
    d = datetime.datetime(2024, 3, 3) - datetime.timedelta(days=age)
    store.blobs[d.strftime("bucket/data/year_%Y/month_%m/day_%d/x.jsonl")] = jsonl([{"n": 1}])
    limit = env.pin(env.int("limit", 0, 4 if case == "d" else 96))
    got = names(env, lambda: read(store, start_date=None, end_date=None, freshness_limit="%d%s" % (limit, case)))
    env.observe("got", got)
    hours = limit * (24 if case == "d" else 1)
    env.reach("found" if got else "stale")
    if age == 0:
        env.reach("fresh")
    env.check((len(got) == 1) == (age * 24 <= hours), "data is found exactly when it is not older than the freshness limit")


# ---------------------------------------------------------------- R04
@harness("R04", cases=lambda tier: [[b, j, f] for b in (1, 2, 3) for j in (False, True) for f in ("none",) + (("dnf", "expr") if b == 2 else ())],
         reach=["start", "middle", "end", "between blobs"],
         bounds="1..3 blobs of 0..2 records (thorough 0..3), interrupted after an arbitrary number of records, twice; the cursor passed as a dictionary "
                "or as JSON text; without filter or with one over arbitrary field values")
def cursors(env, case):
    blobs, as_text, flt = case
    store = setup(env)
    total = []
    for b in range(blobs):
        recs = []
        for i in range(env.pin(env.int("size%d" % b, 0, 2 if env.tier == "quick" else 3))):
            x = env.int("x%d_%d" % (b, i), 0, 9) if flt != "none" else 0
            recs.append({"n": 10 * b + i, "x": x})
        store.blobs[FOLDER + "/b%d.jsonl" % b] = jsonl(recs)
        total += recs
    kw = {}
    if flt == "dnf":
        kw["filters"] = [("x", ">", 4)]
    if flt == "expr":
        kw["filters"] = "x > 4"
    if flt != "none":
        total = [r for r in total if r["x"] > 4]
    got = []
    cursor = None
    for turn in range(2):
        if cursor is not None:
            kw["cursor"] = cursor
        ds = read(store, **kw)
        it = iter(ds)
        take = env.pin(env.int("take%d" % turn, 0, 6 if env.tier == "quick" else 9))
        for _ in range(take):
            r = next(it, None)
            if r is None:
                break
            got.append(r["n"])
        env.reach("start" if take == 0 else "end" if len(got) == len(total) else "middle")
        if len(got) > 0 and len(got) < len(total) and total[len(got)]["n"] // 10 != got[-1] // 10:
            env.reach("between blobs")
        c = ds.cursor
        if c is None:       # nothing was read
            env.check(take == 0, "a cursor is available once reading has started")
            continue
        cursor = str(c) if as_text else (c.get() if hasattr(c, "get") and not isinstance(c, dict) else c)
    if cursor is not None:
        kw["cursor"] = cursor
    rest = [r["n"] for r in read(store, **kw)]
    env.observe("rest", rest)
    env.check(got + rest == [r["n"] for r in total], "resuming from a cursor reads the rest, each record once")


@harness("R06", cases=["iterate", "reversed"], reach=["read"],
         bounds="two readers at once, of two data sets with filters and selections of their own, their rows taken in an arbitrary order of 4 steps, then to the end")
def readers_apart(env, case):
    store = setup(env)
    for k, d in enumerate(("data", "more")):
        for b in range(2):
            store.blobs["bucket/%s/year_2024/month_02/day_29/b%d.jsonl" % (d, b)] = jsonl([{"n": 10 * k + 2 * b + i, "x": i, "t": "ab"[k]} for i in range(2)])
    flt = [env.choice("filter%d" % k, [None, [("x", "==", 1)], "x == 0", [("n", "in", [0, 1, 11, 13])]]) for k in range(2)]
    rs = [read(store, dataset="bucket/" + d, filters=f, select=c) for d, f, c in zip(("data", "more"), flt, ("n, x", "*"))]
    if case == "reversed":
        rs.reverse()
    its = [iter(r) for r in rs]
    got = [[], []]
    for i in range(4):
        k = env.choice("step%d" % i, [0, 1])
        r = next(its[k], None)
        if r is not None:
            got[k].append(r)
    for k in (1, 0):
        got[k] += list(its[k])
    if case == "reversed":
        got.reverse()
    env.reach("read")
    env.observe("got", got)
    for k in range(2):
        rows = [{"n": 10 * k + j, "x": j % 2, "t": "ab"[k]} for j in range(4)]
        keep = {None: lambda r: True, "x == 0": lambda r: r["x"] == 0}.get(flt[k] if not isinstance(flt[k], list) else 0) or \
            (lambda r: r["x"] == 1 if flt[k][0][0] == "x" else r["n"] in [0, 1, 11, 13])
        want = [({"n": r["n"], "x": r["x"]} if k == 0 else r) for r in rows if keep(r)]
        env.check(got[k] == want, "each reader gives the rows of its own request")


# ---------------------------------------------------------------- R06
def blob_bytes(fmt, recs):
    if fmt == "zstd":
        return zstandard.compress(jsonl(recs))
    if fmt == "lzma":
        import lzma
        return lzma.compress(jsonl(recs))
    return jsonl(recs)


@harness("R06", cases=lambda tier: [[s, f] for s in ("*", "a", "a, b", "b, a", "a AS z") for f in ("none", "dnf", "expr")] + [["*", "tuple"], ["*", "nested"]],
         reach=["kept", "dropped"],
         bounds="two blobs of two records (jsonl, zstd, lzma by choice); filtered field arbitrary integers 0..9 or missing")
def per_record(env, case):
    select, flt = case
    store = setup(env)
    total = []
    for b in range(2):
        recs = []
        for i in range(2):
            r = {"a": env.int("a%d%d" % (b, i), 0, 9), "b": 10 * b + i, "c": None}
            if flt != "none" and env.bool("missing%d%d" % (b, i)):
                del r["a"]
            recs.append(r)
        total += recs
        fmt = env.choice("fmt%d" % b, ["jsonl", "zstd", "lzma"]) if flt == "none" and b == 0 else "jsonl"
        store.blobs[FOLDER + "/b%d.%s" % (b, fmt)] = blob_bytes(fmt, recs)
    kw = {"select": select}
    key = "z" if select == "a AS z" else "a"
    if flt == "dnf":
        kw["filters"] = [(key, ">=", 2)]
    if flt == "tuple":
        kw["filters"] = (key, ">=", 2)
    if flt == "nested":
        kw["filters"] = [[(key, ">=", 2)], [(key, ">", 3), (key, "<", 9)]]
    if flt == "expr":
        kw["filters"] = key + " >= 2"

    def keep(r):
        return True if flt == "none" else ("a" in r and r["a"] >= 2)

    def cut(r):
        if select == "*":
            return r
        if select == "a AS z":
            return {"z": r.get("a")}
        return {k.strip(): r.get(k.strip()) for k in select.split(",")}
    want = [cut(r) for r in total if keep(r)]
    if len(want) < len(total):
        env.reach("dropped")
    env.reach("kept")
    got = names(env, lambda: read(store, **kw))
    env.observe("got", got)
    env.check(env.eq(got, want), "exactly the records which match, with exactly the selected fields, in order")


@harness("R06", cases=lambda tier: [2, 3], reach=["bad", "all good"],
         bounds="2..3 blobs, each well formed, truncated zstd, not JSON, empty, or of an unknown type (choice)")
def isolation(env, case):
    store = setup(env)
    want = []
    good = True
    for b in range(case):
        kind = env.choice("kind%d" % b, ["good", "goodz", "trunc", "junk", "empty", "half"])
        nm = FOLDER + "/b%d." % b
        recs = [{"n": 10 * b}, {"n": 10 * b + 1}]
        if kind == "good":
            store.blobs[nm + "jsonl"] = jsonl(recs)
        elif kind == "goodz":
            store.blobs[nm + "zstd"] = zstandard.compress(jsonl(recs))
        elif kind == "trunc":
            store.blobs[nm + "zstd"] = zstandard.compress(jsonl(recs))[:9]
        elif kind == "junk":
            store.blobs[nm + "jsonl"] = b"\xff\xfe nope\n"
        elif kind == "empty":
            store.blobs[nm + "jsonl"] = b""
        else:
            store.blobs[nm + "jsonl"] = orjson.dumps(recs[0]) + b"\n{\"n\": \n"
        if kind in ("good", "goodz"):
            want += [10 * b, 10 * b + 1]
        else:
            good = False
            if kind == "half":
                want.append(10 * b)
    env.reach("all good" if good else "bad")
    got = [r["n"] for r in names(env, lambda: read(store))]
    env.observe("got", got)
    env.check(got == want, "a damaged blob does not affect the records of the others")


# ---------------------------------------------------------------- R08
@harness("R02", cases=[2, 3], reach=["read"],
         bounds="the same one or two records stored by two or three fields, the first of them with up to two values; names of fields "
                "which are a prefix of others")
def several_partitionings(env, case):
    store = setup(env)
    fields = env.choice("fields", [("a", "ab", "b"), ("user_id", "user", "zone"), ("zone", "hour", "user"), ("hour", "hours", "day")])[:case]
    n = env.int("records", 1, 2)
    for i in range(n):
        for f in fields:
            v = env.choice("%s%d" % (f, i), ["1", "2"]) if f == fields[0] else "1"
            store.blobs[FOLDER + "/by_%s/%s=%s/b%d.jsonl" % (f, f, v, i)] = jsonl([{"n": i}])
    got = sorted([r["n"] for r in names(env, lambda: read(store))])
    env.observe("got", got)
    env.reach("read")
    env.check(got == list(range(n)), "data stored by several fields is read once")


@harness("R08", cases=lambda tier: [["one"], ["two"], ["other"], ["longer"]] , reach=["pruned", "ignored"],
         bounds="three blobs partitioned by one or two fields, partition values and the filter value arbitrary strings of length 1..2 "
                "over {1,2}; data without the filter's field is not pruned")
def partition_filter(env, case):
    kind = case[0]
    store = setup(env)
    f = env.str("filter", "12", 1, 2)
    vals = []
    for i in range(3):
        v = env.str("v%d" % i, "12", 1, 2)
        vals.append(v)
        by = {"other": "by_city/city=", "longer": "by_userid/userid="}.get(kind, "by_user/user=")
        store.blobs[FOLDER + "/" + by + v + "/b%d.jsonl" % i] = jsonl([{"n": i}])
        if kind == "two":
            store.blobs[FOLDER + "/by_zone/zone=" + v + "/b%d.jsonl" % i] = jsonl([{"n": i}])
    got = sorted(r["n"] for r in names(env, lambda: read(store, partition_filter=("user", "=", f))))
    env.observe("got", got)
    if kind in ("one", "two"):
        env.reach("pruned")
        want = [i for i in range(3) if vals[i] == f]
    else:
        env.reach("ignored")
        want = [0, 1, 2]
    env.check(got == want, "a partition filter reads exactly the partitions with that value")


@harness("R08", cases=["==", "!=", "<>", "<", ">", "<=", ">=", "in", "like", "is"], reach=["read", "refused"],
         bounds="one blob by a value of length 1..2 over {1,2}, a filter by any such value")
def filter_operators(env, op):
    store = setup(env)
    v, f = env.str("v", "12", 1, 2), env.str("filter", "12", 1, 2)
    store.blobs[FOLDER + "/by_user/user=" + v + "/b.jsonl"] = jsonl([{"n": 0}])
    r = env.catch(lambda: [r["n"] for r in names(env, lambda: read(store, partition_filter=("user", op, f)))])
    env.observe("read", r)
    if op == "==":
        env.reach("read")
        env.check(r == ("ok", [0] if v == f else []), "a partition filter reads exactly the partitions with that value")
    else:
        env.reach("refused")
        env.check(r[0] == "exc", "what isn't done by partition filters is refused")


@harness("R08", cases=lambda tier: [[f, k] for f in ("user", "user_id") for k in ("text", "number", "word")], reach=["found", "not found"],
         bounds="two records written by a stream writer, partitioned by a field (also with an underscore in its name) which is text of length 1..2 over "
                "{1 -}, one of the words the reader looks for in names, or a number +-11, read with a filter on any such value")
def written_partitions(env, case):
    field, kind = case
    store = setup(env)
    env.patch("threading.Thread.start", lambda self: None)
    value = (lambda name: env.str(name, "1-", 1, 2)) if kind == "text" else (lambda name: env.choice(name, ["BACKOUT", "as_at_1", "by_user", "frame.complete", "1"])) \
        if kind == "word" else (lambda name: env.int(name, -11, 11))
    w = StreamWriter(dataset="bucket/data", partitions=["year_{yyyy}/month_{mm}/day_{dd}/by_%s/%s={%s}" % (field, field, field)], schema=False,
                     format="jsonl", date=DAY, inner_writer=mem_writer(store))
    vals = [value("v%d" % i) for i in range(2)]
    for i in range(2):
        w.append({"n": i, field: vals[i]})
    w.finalize()
    f = value("filter")
    clean = lambda v: "".join([c for c in str(v) if c not in "-_."])
    r = env.catch(lambda: sorted([r["n"] for r in names(env, lambda: read(store, partition_filter=(field, "=", f)))]))
    env.observe("read", r)
    env.check(r[0] == "ok", "a value as it was written can be filtered by")
    if r[0] == "ok":
        want = [i for i in range(2) if clean(vals[i]) == clean(f)]
        env.reach("found" if want else "not found")
        env.check(r[1] == want, "the records written to a partition are read by its value")
