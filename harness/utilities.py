"""dates, paths, random numbers, parameter validation, records, tables, configuration"""
import datetime
import os
import types

import orjson

from symx.env import harness

from mabel.data.internals import display, records
from mabel.data.internals.histogram import Histogram
from mabel.errors import InvalidReaderConfigError
import mabel.utils
from mabel.data.readers.internals import parallel_reader
from mabel.utils import dates, entropy, paths
from mabel.utils.common import build_context
from mabel.utils.parameter_validator import get_levenshtein_distance, validate


def truth(x):
    return True if x else False


def two(n):
    """n in two digits"""
    return "%02d" % n


# ---------------------------------------------------------------- U01
@harness("U01", cases=["date", "minutes", "seconds", "fraction", "seconds z", "seconds offset", "colons", "suffixes", "date suffixes"], reach=["a date", "no date"],
         bounds="years 2023, 2024, 1900; months 0..13; days 0, 1, 28..32; hours 0..24, minutes and seconds 0, 7, 59, 60; with blank or T, fractions, Z and offsets")
def iso_dates(env, case):
    y = env.choice("year", [2023, 2024, 1900])
    mo = env.pin(env.int("month", 0, 13)) if case == "date" else 2 if "suffixes" in case else env.choice("month", [2, 12])
    d = env.choice("day", [28, 29, 30] if "suffixes" in case else [0, 1, 28, 29, 30, 31, 32])
    sep = ":" if case == "colons" else "-"
    text = "%04d%s%02d%s%02d" % (y, sep, mo, sep, d)
    h = mi = s = 0
    if case not in ("date", "colons", "date suffixes"):
        h, mi = env.choice("hour", [9] if case == "suffixes" else [0, 9, 23, 24]), env.choice("minute", [7] if case == "suffixes" else [0, 7, 59, 60])
        text += env.choice("sep", ["T", " "]) + "%02d:%02d" % (h, mi)
        if case != "minutes":
            s = env.choice("second", [5] if case == "suffixes" else [0, 59, 60])
            text += ":%02d" % s
    text += {"fraction": ".250", "seconds z": "Z", "seconds offset": "+0000"}.get(case, "")
    if case == "suffixes":
        text += env.choice("suffix", ["Z", "+00:00", "+0000", ".5", ".250", ".250000", ".25Z", ".250000Z", ".250000+00:00", ".250+0000", ".250000000"])
    elif case == "date suffixes":
        text += env.choice("suffix", ["Z", "+00:00", "+0000"])
    leap = y == 2024
    days = 29 if mo == 2 and leap else {2: 28, 4: 30, 6: 30, 9: 30, 11: 30}.get(mo, 31)
    ok = 1 <= mo <= 12 and 1 <= d <= days and h < 24 and mi < 60 and s < 60
    got = dates.parse_iso(text)
    env.observe("got", got)
    env.reach("a date" if ok else "no date")
    if ok:
        env.check(got == datetime.datetime(y, mo, d, h, mi, s), "an ISO date is that date")
    else:
        env.check(got is None, "a date which does not exist is no date")


FORMS = {10: "dddd-dd-dd", 16: "dddd-dd-ddtdd:dd", 19: "dddd-dd-ddtdd:dd:dd"}
EXAMPLE = "2023-11-12T13:14:15"


@harness("U01", cases=lambda tier: [[n, i] for n in (10, 16, 19) for i in range(n)], reach=["a date", "no date"],
         bounds="one character of an ISO date, of minutes or of seconds replaced by any of {0 1 9 - : T blank + x . / _ newline, digits of other scripts}; never an error")
def iso_forms(env, case):
    n, i = case
    c = env.str("c", "019-:T +x./_\n\u0663\u00b2", 1)
    text = EXAMPLE[:i] + c + EXAMPLE[i + 1:n]
    kind = FORMS[n][i]
    r = env.catch(lambda: dates.parse_iso(text))
    env.observe("got", r)
    env.check(r[0] == "ok", "parsing never fails")
    got = r[1]
    if kind == "d":
        digit = truth(env.any([c == "0", c == "1", c == "9"]))
        if digit and n >= 10:
            parts = [text[0:4], text[5:7], text[8:10]] + ([text[11:13], text[14:16]] if n > 10 else []) + ([text[17:19]] if n == 19 else [])
            env.reach("a date")
            want = env.catch(lambda: datetime.datetime(*[int(p) for p in parts]))
            env.check(env.eq(got, want[1]) if want[0] == "ok" else got is None, "the date of its digits")
        elif not truth(c == "+"):  # what follows a plus is taken for an offset
            env.reach("no date")
            env.check(got is None, "a date has digits")
        env.reach("no date")
        env.reach("a date")
        return
    if truth(c == "+"):  # what follows is taken for an offset
        return
    if kind == "-" or kind == ":":
        good = truth(env.any([c == "-", c == ":"]))
    else:
        good = truth(env.any([c == "T", c == " "]))
    env.reach("a date" if good else "no date")
    env.check((got is not None) == good, "a date has its separators in place")


@harness("U01", cases=["date", "datetime", "int", "other", "huge"], reach=["checked"], bounds="dates, datetimes, seconds since 1970 up to 2^31, nulls, lists and numbers too large")
def iso_types(env, case):
    env.reach("checked")
    if case == "date":
        d = datetime.date(2024, env.pin(env.int("m", 1, 12)), 7)
        env.check(dates.parse_iso(d) == datetime.datetime(2024, d.month, 7), "a date is its midnight")
    elif case == "datetime":
        d = datetime.datetime(2024, 2, 29, env.int("h", 0, 23), env.int("mi", 0, 59), 1, 5)
        env.check(dates.parse_iso(d) == d, "a datetime is itself")
    elif case == "int":
        t = env.choice("t", [0, 1, 86399, 86400, 1709164800, 2 ** 31])
        env.check(dates.parse_iso(t) == datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t), "a number is seconds since 1970")
    elif case == "other":
        v = env.choice("v", [None, [], "", "x", "2023-01-0", {}, b"2023-01-01", "+", "Z", "2023-01-01T", "2023-01-01T1", "Z2023-01-01Z", "2023Z-01-01Z", "+2023-01-01-", "2023-01-01 00"])
        r = env.catch(lambda: dates.parse_iso(v))
        env.check(r == ("ok", None), "anything else is no date")
    else:
        v = env.choice("v", [10 ** 12, 10 ** 20, -(10 ** 20), 1e300, float("inf"), float("nan")])
        r = env.catch(lambda: dates.parse_iso(v))
        env.check(r == ("ok", None), "a number too large is no date")


@harness("U01", cases=lambda tier: [0, 1, 2, 3], reach=["hours"], bounds="ranges of up to 49 hours from any hour of two days, given as datetimes, dates or text")
def hour_ranges(env, case):
    if case == 3:
        before = datetime.timedelta(hours=env.pin(env.int("before", 1, 30)), minutes=env.choice("minutes", [0, 59]))
        r = env.catch(lambda: list(dates.date_range(datetime.datetime(2024, 1, 2, 7), datetime.datetime(2024, 1, 2, 7) - before)))
        env.reach("hours")
        env.check(r == ("exc", "ValueError"), "a range which ends before it starts is refused")
        return
    h = env.pin(env.int("start", 0, 47)) if case == 1 else env.choice("start", [0, 13, 23, 47])
    n = env.choice("hours", [0, 1, 23, 24, 48])
    a = datetime.datetime(2024, 2, 28) + datetime.timedelta(hours=h)
    b = a + datetime.timedelta(hours=n, minutes=env.choice("minutes", [0, 59]))
    want_end = b
    if case == 0:
        a = a + env.choice("past the hour", [datetime.timedelta(0), datetime.timedelta(seconds=30), datetime.timedelta(minutes=20, microseconds=5)])
        if n == 0 and b < a:
            b = a
    if case == 1:
        sep = env.choice("separator", ["T", " "])
        a, b = a.isoformat(sep), b.isoformat(sep)
    elif case == 2:
        a = datetime.datetime(2024, 2, 28)
        h = 0
        b = b.date() if env.bool("date") else b.date().isoformat()
        want_end = datetime.datetime.combine(want_end.date(), datetime.time(23))
    got = list(dates.date_range(a, b))
    first = datetime.datetime(2024, 2, 28) + datetime.timedelta(hours=h)
    count = int((want_end - first).total_seconds() // 3600) + 1
    env.reach("hours")
    env.observe("got", len(got))
    env.check(got == [first + datetime.timedelta(hours=i) for i in range(count)], "every hour of the range once, in order")


# ---------------------------------------------------------------- U02
@harness("U02", cases=["d", "h", "m", "s", "dh", "hm", "ms", "ds", "dhms", "", "upper", "junk"], reach=["parsed"],
         bounds="any whole numbers -9999..9999 (with more than two of them -99..99) of days, hours, minutes and seconds, each given or not")
def deltas(env, case):
    units = {"": "", "junk": "", "upper": "dh"}.get(case, case)
    text, want = "", 0
    for u in units:
        most = 9999 if len(units) < 3 else 99
        n = env.int(u, -most, most)
        text = text + str(n) + (u.upper() if case == "upper" else u)
        want = want + n * {"d": 86400, "h": 3600, "m": 60, "s": 1}[u]
    if case == "junk":
        text = env.choice("junk", ["x", "d", "hours", "-", "m5"])
    got = dates.parse_delta(text)
    env.reach("parsed")
    env.check(got.days * 86400 + got.seconds == want, "a delta is the sum of its parts")


# ---------------------------------------------------------------- U03
@harness("U03", cases=["parts", "once", "folder", "bare"], reach=["formatted"],
         bounds="any day of 2023-12-30..2024-03-03 at three hours, templates of date and time parts")
def dated_paths(env, case):
    env.patch("mabel.utils.entropy.random_string", lambda n: "r")
    d = datetime.datetime(2023, 12, 30) + datetime.timedelta(days=env.pin(env.int("day", 0, 4 if case == "parts" else 64)))
    h = env.choice("hour", [0, 5, 23]) if case in ("parts", "folder") else 9
    t = datetime.datetime(d.year, d.month, d.day, h, env.choice("minute", [0, 7, 59]), env.choice("second", [0, 8])) if case == "parts" else datetime.datetime(d.year, d.month, d.day, h)
    env.reach("formatted")
    if case == "parts":
        got = paths.date_format("{yyyy}|{mm}|{dd}|{HH}|{MM}|{SS}|{other}", t)
        want = "%04d|%02d|%02d|%02d|%02d|%02d|{other}" % (t.year, t.month, t.day, t.hour, t.minute, t.second)
    elif case == "once":
        got = paths.build_path("bucket/set/year_{yyyy}/month_{mm}/day_{dd}", t)
        want = "bucket/set/year_%04d/month_%02d/day_%02d/" % (t.year, t.month, t.day)
    elif case == "folder":
        got = paths.build_path("bucket/{yyyy}-{mm}-{dd}/{dd}/by_hour/hour={HH}/{yyyy}{mm}{HH}/", t)
        want = "bucket/%04d-%02d-%02d/%02d/by_hour/hour=%02d/%04d%02d%02d/" % (t.year, t.month, t.day, t.day, t.hour, t.year, t.month, t.hour)
    else:
        got = paths.date_format("a/{yyyy}/{dd}", t.date())
        want = "a/%04d/%02d" % (t.year, t.day)
    env.observe("got", got)
    env.check(got == want, "the parts of the date, each where it belongs and of its width")


@harness("U03", cases=lambda tier: [1, 2, 3], reach=["file", "folder"],
         bounds="paths of a bucket and 1..3 folders of one (or two, where there is one folder) characters over {a _} and {a =}, with or without a file name and extension, with or without a slash at the end")
def path_parts(env, case):
    bucket = env.str("bucket", "a_", 1, 2 if case == 1 else 1)
    folders = [env.str("folder%d" % i, "a=", 1, 2 if case == 1 else 1) for i in range(case)]
    path = bucket + "/" + "/".join(folders)
    kind = env.choice("kind", ["file", "folder", "slash"])
    if kind == "file":
        b, p, stem, ext = paths.get_parts(path + "/name.x.jsonl")
        env.reach("file")
        env.check(env.all([env.eq(stem, "name.x"), env.eq(ext, ".jsonl")]), "the name and extension of the file")
    else:
        b, p, stem, ext = paths.get_parts(path + ("/" if kind == "slash" else ""))
        env.reach("folder")
        env.check(stem is None and ext is None, "a folder has neither")
    env.check(env.eq(b, bucket), "the bucket is the first part")
    env.check(env.eq(p, "/".join(folders) + "/"), "the path is the rest of the folders")


# ---------------------------------------------------------------- U04
@harness("U04", cases=["range", "attained", "choice", "int", "string", "text"], reach=["drawn"],
         bounds="every 8 random bytes, ranges within -20..20 or of up to 2^33 numbers, up to 5 options, strings of up to 9 characters")
def random_values(env, case):
    env.urandom()
    env.reach("drawn")
    if case == "range":
        lo = env.int("lo", -20, 20)
        hi = env.int("hi", -20, 20)
        env.assume(lo <= hi)
        r = entropy.random_range(lo, hi)
        env.check(env.all([r >= lo, r <= hi]), "a number in the range")
    elif case == "attained":
        n = env.choice("n", [1, 2, 5, 100, 300, 70000, 2 ** 33])
        if n > 100:
            v = env.choice("v", [0, 255, 256, n - 1, n])
        else:
            v = env.int("v", 0, 100)
            env.assume(v <= n)
        env.patch("os.urandom", lambda k: int(env.pin(v)).to_bytes(k, "big"))
        env.check(entropy.random_range(7, 7 + n) == 7 + v, "every number of the range can be drawn")
    elif case == "choice":
        n = env.choice("n", [1, 2, 3, 5])
        opts = ["o%d" % i for i in range(n)]
        env.check(entropy.random_choice(opts) in opts, "one of the options")
    elif case == "int":
        r = entropy.random_int()
        env.check(env.all([r >= 0, r < 2 ** 64]), "a 64 bit number")
    elif case == "string":
        n = env.choice("n", [1, 2, 3, 4, 5, 8, 9])
        env.patch("os.urandom", lambda k: bytes(range(k)))
        env.check(len(entropy.random_string(n)) == n, "a text of the length asked for")
    else:
        n = env.int("n", 0, 2 ** 24 - 1)
        got = entropy.bytes_to_int(n.to_bytes(3, "big"))
        env.check(got == n, "the number the bytes are in base 256")


# ---------------------------------------------------------------- U05
def lev(a, b):
    """edit distance, by recursion"""
    if not a or not b:
        return len(a) + len(b)
    return min(lev(a[1:], b) + 1, lev(a, b[1:]) + 1, lev(a[1:], b[1:]) + (0 if a[0] == b[0] else 1))


@harness("U05", cases=lambda tier: [[i, j] for i in range(3 if tier == "quick" else 4) for j in range(i, 4)], reach=["measured"],
         bounds="every two words of length 0..3 over {a B b c}")
def edit_distance(env, case):
    x, y = env.str("x", "aBbc", case[0]), env.str("y", "aBbc", case[1])
    low = [["b" if c == "B" else c for c in w] for w in (x, y)]
    env.reach("measured")
    got = get_levenshtein_distance(x, y)
    env.check(got == lev(low[0], low[1]), "the fewest edits, in either case")
    env.check(got == get_levenshtein_distance(y, x), "the distance is symmetric")


NAMES = ["dataset", "start", "limit", "raw"]


@harness("U05", cases=lambda tier: ["keywords", "positions", "inner"], reach=["accepted", "refused"],
         bounds="every combination of four parameters (one required, one which excludes two others; with values and without), unknown and misspelt ones, rules brought by a parameter")
def parameters(env, case):
    rules = [{"name": "dataset", "required": True}, {"name": "start", "required": False, "warning": "mind", "incompatible_with": []},
             {"name": "limit", "required": False, "incompatible_with": ["start", "raw"]}, {"name": "raw", "required": False, "incompatible_with": []},
             {"name": "inner", "required": False}]
    calls = []

    @validate(rules)
    def f(dataset=None, start=None, limit=None, raw=None, **kw):
        calls.append((dataset, start, limit, raw, kw))
        return "done"
    kw = {}
    for n in NAMES:
        if env.bool(n):
            kw[n] = env.choice(n + ".value", ["v", 0]) if n in ("limit", "dataset") else "" if n == "raw" else "v"
    unknown = env.choice("unknown", [None, "datset", "zzzzzzzz", "extra"])
    if unknown:
        kw[unknown] = 1

    class Inner:
        RULES = [{"name": "extra", "required": env.bool("extra required")}]
    known = {"dataset", "start", "limit", "raw", "inner"}
    if case == "inner":
        kw["inner"] = Inner
        known = known | {"extra"}
    ok = "dataset" in kw and all(k in known for k in kw) and not (kw.get("limit") and ("raw" in kw or "start" in kw))
    if case == "inner" and Inner.RULES[0]["required"] and "extra" not in kw:
        ok = False
    args = ()
    passed = dict(kw)
    if case == "positions" and "dataset" in passed:
        args = (passed.pop("dataset"),)
    env.reach("accepted" if ok else "refused")
    r = env.catch(lambda: f(*args, **passed))
    env.observe("result", r)
    if ok:
        env.check(r == ("ok", "done") and len(calls) == 1, "a valid call is made once")
        env.check(calls[0][:4] == (kw.get("dataset"), kw.get("start"), kw.get("limit"), kw.get("raw")), "with its parameters")
    else:
        env.check(r == ("exc", "InvalidReaderConfigError") and calls == [], "an invalid call is refused and not made")
    env.check(len(rules) == 5, "the rules are left as they were")


# ---------------------------------------------------------------- U06
def escaped(s):
    out = ""
    for c in s:
        for raw, esc in (("&", "&amp;"), ('"', "&quot;"), ("'", "&#39;"), ("<", "&lt;"), (">", "&gt;"), ("$", "&#x24;")):
            if c == raw:
                out = out + esc
                break
        else:
            out = out + c
    return out


@harness("U06", cases=["text", "column", "list", "int", "none", "dict", "bytes", "nested"], reach=["shown"],
         bounds="text of length 0..2 over {< > & quotes ; a $} as a value, column name, in a list, dictionary or bytes; integers")
def html_values(env, case):
    s = env.str("s", "<>&\"';a$", 0, 2)
    e = escaped(s)
    column = "c"
    if case == "text":
        v, cell = s, e
    elif case == "column":
        column, v, cell = s, "v", "v"
    elif case == "list":
        v, cell = [s, 1, None], "[ " + e + ", 1, None ]"
    elif case == "int":
        n = env.int("n", -5, 5)
        v, cell = n, str(n)
    elif case == "none":
        v, cell = None, "None"
    elif case == "dict":
        v, cell = {"k": s}, "{ &quot;k&quot;: " + e + " }"
    elif case == "bytes":
        v, cell = b"<b>", "b&#39;&lt;b&gt;&#39;"
    else:
        v, cell = [[s], {"k": 1}], "[ [ " + e + " ], { &quot;k&quot;: 1 } ]"
    html = display.html_table([{column: v}])
    shown = escaped(column) if case == "column" else "c"
    parts = ['<table class="table table-sm">', '<thead class="thead-light"><tr>', "<th>" + shown + "<th>\n", "</tr></thead><tbody>", "<tr>"]
    env.reach("shown")
    env.check(env.eq(html[:len("".join(parts))], "".join(parts)), "the columns are shown, escaped")
    rest = html[len("".join(parts)):]
    env.check(env.eq(rest[:len("<td title='" + cell + "'")], "<td title='" + cell + "'"), "a value is shown, escaped")
    tail = ">" + cell + "<td>\n</tr></tbody></table>\n<p>1 rows x 1 columns</p>"
    env.check(env.eq(rest[len(rest) - len(tail):], tail), "a value cannot add markup")


@harness("U06", cases=[0, 1, 2, 3], reach=["shown"], bounds="0..3 rows of two fields which may be missing (text shorter or longer than the name of the field, a zero), limits 1..4; HTML and text tables")
def tables(env, case):
    rows = []
    for i in range(case):
        r = {}
        for k in ("p", "quantity"):
            if env.bool(k + str(i)):
                r[k] = env.choice("w%s%d" % (k, i), ["%s%d" % (k[0], i), "%s%dxxx" % (k[0], i)] + ([0] if k == "p" and i == 0 else []))
        rows.append(r)
    limit = env.choice("limit", [1, 2, 4])
    html = display.html_table(rows, limit)
    env.reach("shown")
    env.observe("html", sorted(html))
    shown = rows[:limit]
    cols = set(k for r in shown for k in r)
    env.check(html.count("<tr>") == len(shown) + (1 if shown else 0), "a row for each of the first rows")
    for i, r in enumerate(rows):
        for k in r:
            env.check(html.count(">" + str(r[k]) + "<td>") == (1 if i < limit else 0), "each value of them, once")
    env.check(html.count("<th>") == 2 * len(cols), "a heading for each column")
    text = display.ascii_table(rows, limit).split("\n")
    env.check(len(text) == len(shown) + 4, "a line for each of the first rows")
    env.check(len(set(len(x) for x in text)) == 1, "every line has the same width")
    heads = [c.strip() for c in text[1][1:-1].split("\u2502")]
    env.check(set(heads) - {""} == cols and len(heads) == max(1, len(cols)), "the columns")
    for r, x in zip(shown, text[3:]):
        cells = [c.strip() for c in x[1:-1].split("\u2502")]
        env.check(cells == [str(r.get(h, "")) for h in heads], "each value is under its column")


@harness("U06", cases=["MEMORY", "COMPRESSED_MEMORY", "DISK"], reach=["shown"],
         bounds="data sets of 0..6 rows, shown up to 1..4 (and as ten when printed), in text and HTML, then read")
def tables_of_sets(env, case):
    from mabel.data.internals.dictset import STORAGE_CLASS, DictSet
    n = env.pin(env.int("rows", 0, 6))
    limit = env.pin(env.int("limit", 1, 4))
    rows = [{"p": "v%d" % i} for i in range(n)]
    ds = DictSet(iter(rows), storage_class=STORAGE_CLASS[case])
    shown = rows[:limit]
    env.reach("shown")
    for how in env.choice("order", [["text", "html", "repr"], ["html", "repr", "text"], ["repr", "text", "html"]]):
        if how == "text":
            env.check(ds.to_ascii_table(limit) == display.ascii_table(rows, limit), "the table of the first rows")
        elif how == "html":
            html = ds.to_html_table(limit)
            env.check(html.count("<tr>") == len(shown) + (1 if shown else 0), "a row for each of the first rows")
            env.check(all(html.count(">v%d<td>" % i) == (1 if i < limit else 0) for i in range(n)), "each value of them, once")
        else:
            env.check(repr(ds) == display.ascii_table(rows, 10), "printed, ten of them are shown")
    got = [r["p"] for r in ds]
    env.observe("got", got)
    env.check(got == [r["p"] for r in rows], "what was shown is still there")


# ---------------------------------------------------------------- U07
@harness("U07", cases=["flat", "dict", "list", "list of dict", "lists", "deep", "mixed", "separator"], reach=["flattened"],
         bounds="nested dictionaries and lists of eight shapes with integers, strings of length 0..1 and nulls as leaves")
def flattening(env, case):
    a, b, c = env.int("a", -9, 9), env.str("b", "x.", 0, 1), None
    d, want = {
        "flat": ({"a": a, "b": b, "c": c}, {"a": a, "b": b, "c": c}),
        "dict": ({"p": {"a": a, "q": {"b": b}}, "c": c}, {"p.a": a, "p.q.b": b, "c": c}),
        "list": ({"p": [a, b, c]}, {"p.0": a, "p.1": b, "p.2": c}),
        "list of dict": ({"p": [{"a": a}, {"a": b}], "q": c}, {"p.0.a": a, "p.1.a": b, "q": c}),
        "lists": ({"p": [[a, b], [c]]}, {"p.0.0": a, "p.0.1": b, "p.1.0": c}),
        "deep": ({"x": {"y": {"z": [a, {"w": {"v": b}}]}}, "c": c}, {"x.y.z.0": a, "x.y.z.1.w.v": b, "c": c}),
        "mixed": ({"p": {"l": [a]}, "q": [b], "r": c, "s": {"l": [c]}}, {"p.l.0": a, "q.0": b, "r": c, "s.l.0": c}),
        "separator": ({"p": {"a": a, "l": [b, c]}}, {"p_a": a, "p_l_0": b, "p_l_1": c})}[case]
    keep = orjson.dumps(d)
    got = records.flatten(d, **({"separator": "_"} if case == "separator" else {}))
    env.reach("flattened")
    env.observe("got", got)
    env.check(env.eq(got, want), "every leaf once, under the path to it")
    env.check(env.eq(orjson.dumps(d), keep), "the record is left as it was")


@harness("U07", cases=[[n, s] for n in (0, 1, 9, 10, 11, 12, 101) for s in ("list", "lists", "dicts")], reach=["flattened"], bounds="lists of 0, 1, 9..12 and 101 integers, lists or dictionaries")
def long_lists(env, case):
    n, shape = case
    v = env.int("v", 0, 9)
    item = {"list": lambda i: i + v, "lists": lambda i: [v, i], "dicts": lambda i: {"a": i + v}}[shape]
    got = records.flatten({"l": [item(i) for i in range(n)], "z": 1})
    want = {"z": 1}
    for i in range(n):
        want.update({"list": lambda: {"l.%d" % i: i + v}, "lists": lambda: {"l.%d.0" % i: v, "l.%d.1" % i: i}, "dicts": lambda: {"l.%d.a" % i: i + v}}[shape]())
    env.reach("flattened")
    env.check(env.eq(got, want), "every leaf once, under the path to it")


@harness("U07", cases=["expand", "names"], reach=["done"], bounds="rows of three fields one or two of which are dictionaries of two levels; field names of length 0..3 over {a Z 5 _ - . blank / '}")
def row_fields(env, case):
    env.reach("done")
    safe_field_name = getattr(mabel.utils, "safe_field_name", None)
    expand_nested_json = getattr(parallel_reader, "expand_nested_json", None)
    if (safe_field_name if case == "names" else expand_nested_json) is None:
        return  # nothing in mabel uses them
    if case == "names":
        s = env.str("s", "aZ5_-. /'", 0, 3)
        got = safe_field_name(s)
        env.observe("got", got)
        env.check(got == "".join([c for c in s if c in "aZ5_-"]), "the letters, digits, dashes and underscores of the name")
        return
    a, b, c = env.int("a", -9, 9), env.str("b", "x.", 0, 1), None
    row, want = env.choice("row", [({"n": a, "d": {"b": b, "c": {"c": c}}, "l": [1]}, {"n": a, "d.b": b, "d.c.c": c, "l": [1]}),
                                   ({"d": {"b": b}, "e": {"b": {"c": a}}, "x": c}, {"d.b": b, "e.b.c": a, "x": c}),
                                   ({"x": a, "y": b, "z": c}, {"x": a, "y": b, "z": c})])
    got = expand_nested_json(row)
    env.check(env.eq(got, want), "the nested fields under their paths, the others as they are")


@harness("U07", cases=["select", "order", "set", "setter", "taker"], reach=["done"], bounds="records of up to three integer fields, any selection and order of them")
def record_fields(env, case):
    r = {}
    for k in env.choice("order", [["a", "b", "c"], ["c", "b", "a"], ["b", "c", "a"], ["a", "B", "b"], ["b", "C", "a", "A"]]):
        if env.bool("has " + k):
            r[k] = env.int(k, 0, 9)
    keep = dict(r)
    env.reach("done")
    if case == "select":
        want = env.choice("fields", [[], ["a"], ["c", "a"], ["z", "b"]])
        got = records.select_record_fields(r, want)
        env.check(list(got) == want and env.eq(got, {k: r.get(k) for k in want}), "the fields asked for, in order, null where missing")
    elif case == "order":
        got = records.order(r)
        env.check(list(got) == sorted(r) and env.eq(got, keep), "the same fields, in order")
    elif case == "set":
        v = env.int("v", 0, 9)
        got = records.set_value(r, "b", v)
        env.check(env.eq(got, {**keep, "b": v}), "the field is set, the others kept")
    elif case == "taker":
        got = records.set_value(r, "b", lambda x: x.pop("a", None))
        env.check(env.eq(got["b"], keep.get("a")), "the field is set by the function")
    else:
        got = records.set_value(r, "b", lambda x: x.get("a"))
        env.check(env.eq(got, {**keep, "b": keep.get("a")}), "the field is set by the function, the others kept")
    env.check(env.eq(r, keep), "the record is left as it was")


# ---------------------------------------------------------------- U08
@harness("U08", cases=["merge", "config", "missing", "broken"], reach=["built"], bounds="three keys in the file, in the parameters or both, with integer (in the parameters also empty and null) values; a named, missing or malformed file, in the working folder or up to two folders below it")
def context(env, case):
    folder = env.scratch()
    name = env.choice("name", ["config.json", "other.json"])
    sub = env.choice("folder", ["", "/one", "/one/two"]) if case == "config" else ""
    os.makedirs(folder + sub, exist_ok=True)
    if case == "config":
        for other in ("xconfig.json", "other.json.bak", "config"):
            open(folder + "/" + other, "wb").write(b'{"z": 1}')
    conf, args = {}, {}
    for k in ("a", "b", "config"):
        if env.bool("file " + k):
            conf[k] = {"x": 1} if k == "config" else env.pin(env.int("f" + k, 0, 2))
        if case != "config" and env.bool("arg " + k):
            args[k] = {"x": 2} if k == "config" else env.choice("p" + k, [3, None, 0, ""]) if k == "b" else env.int("p" + k, 3, 5)
    if case == "broken":
        open(folder + sub + "/" + name, "wb").write(b"{nope")
    elif case != "missing":
        open(folder + sub + "/" + name, "wb").write(orjson.dumps(conf))
    if name != "config.json":
        args["config_file"] = name
    env.reach("built")
    back = os.getcwd()
    os.chdir(folder)
    try:
        r = env.catch(lambda: build_context(**args))
    finally:
        os.chdir(back)
    if case in ("missing", "broken"):
        env.check(r == ("exc", "IndexError" if case == "missing" else "ValueError"), "a file which is missing or malformed is reported")
        return
    want = {"config": {}}
    want.update(conf)
    want.update(args)
    env.observe("result", r)
    env.check(r[0] == "ok" and env.eq(r[1], want), "the configuration of the file with the parameters over it")


# ---------------------------------------------------------------- U09
@harness("U09", cases=lambda tier: [[n, b] for n in (1, 2, 3) for b in ((1, 2, 4) if tier == "quick" else (1, 2, 3, 5, 10))], reach=["binned"],
         bounds="1..3 whole numbers -6..6 in 1, 2 or 4 bins (thorough 1..10)")
def histogram(env, case):
    n, b = case
    vs = [env.int("v%d" % i, -6, 6) for i in range(n)]
    h = Histogram(vs, key="v", number_of_bins=b)
    env.reach("binned")
    env.check(len(h.bins) == b and sum(h.bins) == n and all(x >= 0 for x in h.bins), "every value is in one bin")
    env.check(h.bins[0] >= 1, "the least value is in the first bin")
    r = repr(h)
    env.check(len(r) == b + 2, "a bar for each bin")
    env.check(all((r[i + 1] == " ") == (h.bins[i] == 0) for i in range(b)), "a bar shows whether there are values")
    if n == 2:
        one = Histogram([vs[0], vs[1], vs[1] + 7], key="v", number_of_bins=b)
        env.check(sum(one.bins) == 3, "whatever the range")


@harness("U09", cases=[1, 2, 4], reach=["binned"], bounds="7 to 100 equal values with two others; two numbers around 0.25, 1e17, -1e18, 2**60 and 1.5e300; 1, 2 or 4 bins")
def histogram_sizes(env, b):
    env.reach("binned")
    many = Histogram([0] * env.choice("many", [7, 8, 9, 100]) + [5] + [env.int("w", 0, 5)], key="v", number_of_bins=b)
    drawn = repr(many)
    env.check(len(drawn) == b + 2 and env.all([(drawn[i + 1] == " ") == (many.bins[i] == 0) for i in range(b)]), "a bar shows whether there are values, even if few")
    big = env.choice("big", [1e17, -1e18, 2 ** 60, 0.25, 1.5e300])
    far = [big, env.choice("other", [big, big + 1000, big * 2, -big])]
    one = Histogram(far, key="v", number_of_bins=b)
    env.check(len(one.bins) == b and sum(one.bins) == 2 and one.bins[0] >= 1, "whatever the numbers")


# ---------------------------------------------------------------- U10
@harness("U10", cases=["plain", "cause", "context", "suppressed"], reach=["shown"],
         bounds="an error at any of the lines of a file of 1 to 9 lines (thorough 14), alone, caused by another, while another was handled, or with that one suppressed; a variable of up to 2 characters")
def error_stack(env, case):
    from mabel.errors import render_error_stack
    folder = env.scratch()
    total = env.choice("lines", [1, 2, 4, 5, 9] if env.tier == "quick" else list(range(1, 15)))
    at = env.pin(env.int("at", 1, total))
    code = ["v%02d = 1" % (i + 1) for i in range(total)]
    code[at - 1] = "raise ValueError(word)"
    path = folder + "/failing.py"
    open(path, "w").write("\n".join(code) + "\n")
    word = env.str("word", "a\n", 0, 2)
    run = types.FunctionType(compile("\n".join(code), path, "exec"), {"word": word})

    def fails():
        if case == "plain":
            run()
        try:
            {}["other"]
        except KeyError as other:
            if case == "cause":
                try:
                    run()
                except ValueError as e:
                    raise e from other
            elif case == "suppressed":
                try:
                    run()
                except ValueError as e:
                    raise e from None
            run()

    try:
        fails()
    except ValueError:
        shown = render_error_stack().split("\n")
    env.reach("shown")
    shown = [x.rstrip() for x in shown]
    places = [x for x in shown if x.startswith(path + ":")]
    env.check(places == ["%s:%d in <module>()" % (path, at)], "the place of the error, once")
    listed = [x for x in shown if x[1:5].strip().isdigit() and x[5:8] == " | " and (x[8:] in code)]
    env.observe("listed", listed)
    want = [(">" if n == at else " ") + "%4d | %s" % (n, code[n - 1]) for n in range(max(1, at - 3), min(total, at + 3) + 1)]
    env.check(listed == want, "the lines around it with their numbers, its own one marked")
    first = (word + "\n").split("\n")[0]
    after = [x[x.index(":") + 1:].strip() for x in shown if x.startswith("  word ")]
    env.check(after and env.all([x == first for x in after]), "the variables there with their values")
    env.check(any(x.startswith("KeyError") or "{}[\"other\"]" in x and x.startswith(">") for x in shown) == (case in ("cause", "context")), "an error which led to it too, unless suppressed")


@harness("U10", cases=lambda tier: [5, 12, 30], reach=["wrapped"], bounds="up to three words of up to 8 letters, blanks and line ends between, in a picture of 5, 12 or 30 columns")
def wrapped(env, width):
    from mabel.errors.render_error_stack import wrap_text
    from mabel.utils import text as texts
    words = [env.choice("word%d" % i, ["", "a", "bcd", "efghijkl"]) for i in range(3)]
    gaps = [env.choice("gap%d" % i, [" ", "  ", "\n", " \n\n"]) for i in range(2)]
    given = words[0] + gaps[0] + words[1] + gaps[1] + words[2]
    env.reach("wrapped")
    for wrap in (wrap_text, texts.wrap_text):
        got = wrap(given, width)
        env.check(all(len(x) <= width for x in got.split("\n")), "no line is wider")
        env.check("".join(got.split()) == "".join(given.split()), "nothing is lost")
        env.check(width < 8 or got.split() == given.split(), "words which fit are not broken")
