"""the formats the reader reads, whoever wrote the files"""
import csv as _csv
import io
import lzma as _lzma
import zipfile as _zipfile

import orjson
import zstandard

from harness.reading import FOLDER, jsonl, read, setup
from symx.env import harness

from mabel.data import Writer
from harness.common import mem_writer

TEXTS = ["a", "", "x\ny", "c, d", "q\"r'", "\u00e9\u2028", "\r\nz ", "{\"n\": 1}"]


def some_text(env, name, tier):
    return env.choice(name, TEXTS if tier != "quick" else TEXTS[:7])


def csv_bytes(rows, head, terminator, last):
    out = io.StringIO(newline="")
    w = _csv.writer(out, lineterminator=terminator)
    w.writerow(head)
    for r in rows:
        w.writerow([r[h] for h in head])
    text = out.getvalue()
    return (text if last else text[:len(text) - len(terminator)]).encode("utf8")


def zip_bytes(members):
    out = io.BytesIO()
    with _zipfile.ZipFile(out, "w", _zipfile.ZIP_DEFLATED) as z:
        for name, content in members:
            z.writestr(_zipfile.ZipInfo(name, date_time=(2024, 1, 1, 0, 0, 0)), content)
    return out.getvalue()


@harness("R09", cases=lambda tier: [[f, n] for f in ("jsonl", "zstd", "lzma") for n in ((0, 1, 2) if tier == "quick" else (0, 1, 2, 3))],
         reach=["read"],
         bounds="JSON lines, plain, zstandard or LZMA: 0..2 records (thorough 3) with an integer -99..99 and one of seven texts, "
                "lines ended by LF or CR LF, up to two blank ones between, the last one ended or not")
def json_lines(env, case):
    fmt, n = case
    store = setup(env)
    rows = [{"n": env.int("n%d" % i, -99, 99) if fmt != "lzma" else env.choice("n%d" % i, [0, -99]), "t": some_text(env, "t%d" % i, env.tier)}
            for i in range(n)]
    end = b"\r\n" if env.bool("crlf") else b"\n"
    gap = end * env.choice("blank lines", [1, 2, 3])
    data = gap.join([orjson.dumps(r) for r in rows])
    if n and env.bool("last ended"):
        data = data + gap
    data = {"jsonl": lambda d: d, "zstd": zstandard.compress, "lzma": lambda d: _lzma.compress(bytes(d))}[fmt](data)
    store.blobs[FOLDER + "/a." + fmt] = data
    got = list(read(store))
    env.reach("read")
    env.observe("got", got)
    env.check(env.eq(got, rows), "every line is a record, in order")


@harness("R09", cases=["jsonl", "zstd", "lzma", "csv", "zip jsonl"], reach=["read"],
         bounds="four records of an integer and a text of 350000 characters, more than a megabyte together")
def large_files(env, case):
    store = setup(env)
    fmt = case.split(" ")[-1]
    big = env.int("n", -9, 9) if fmt == "jsonl" and case == fmt else 7
    rows = [{"n": big + i, "t": "ab%d " % i * 87500} for i in range(4)]
    if fmt == "csv":
        rows = [{"n": str(r["n"]), "t": r["t"]} for r in rows]
        data = csv_bytes(rows, ["n", "t"], "\r\n", True)
    else:
        data = jsonl(rows)
        data = {"zstd": zstandard.compress, "lzma": lambda d: _lzma.compress(d)}.get(fmt, lambda d: d)(data)
    if case != fmt:
        data = zip_bytes([("a.jsonl", data)])
    store.blobs[FOLDER + "/a." + case.split(" ")[0]] = data
    got = list(read(store))
    env.reach("read")
    env.observe("got", [r["n"] for r in got])
    env.check(env.eq([r["n"] for r in got], [r["n"] for r in rows]), "every record of a large file, in order")
    env.check(all([a["t"] == b["t"] for a, b in zip(got, rows)]), "all of every record of a large file")


@harness("R09", cases=["csv", "zip csv", "zip jsonl", "zip members", "zip zstd", "zip other"], reach=["read"],
         bounds="CSV files and ZIP files of CSV, JSON lines or zstandard files: 0..2 records of two columns with one of seven texts each "
                "(commas, quotes, line ends), lines ended by LF or CR LF, the last one ended or not; ZIP files of 1..3 members")
def csv_and_zip(env, case):
    store = setup(env)
    n = env.choice("records", [0, 1, 2])
    rows = [{"n": env.choice("n%d" % i, ["0", "-1.5", "x y"]), "t": some_text(env, "t%d" % i, env.tier)} for i in range(n)]
    end, last = ("\r\n" if env.bool("crlf") else "\n"), env.bool("last ended")
    if case in ("csv", "zip csv"):
        data = csv_bytes(rows, ["n", "t"], end, last)
        if case == "zip csv":
            data = zip_bytes([("some.file.csv", data)])
    else:
        data = end.encode().join([orjson.dumps(r) for r in rows]) + (end.encode() if last and n else b"")
        if case == "zip jsonl":
            data = zip_bytes([("x.jsonl", data)])
        elif case == "zip zstd":
            data = zip_bytes([("x.zstd", zstandard.ZstdCompressor().compress(bytes(data)))])
        elif case == "zip members":
            more = [{"n": "m%d" % i, "t": None} for i in range(env.choice("members", [1, 2]))]
            data = zip_bytes([("x.jsonl", data)] + [("f%d.%s" % (i, e), orjson.dumps(m)) for i, (m, e) in enumerate(zip(more, ["jsonl", "json"]))])
            rows = rows + more
        else:
            data = zip_bytes([("x.unknown", b"nothing"), ("y.jsonl", data), ("z.complete", b""), ("readme", b"text")])
    store.blobs[FOLDER + "/a." + case.split(" ")[0]] = data
    got = list(read(store))
    env.reach("read")
    env.observe("got", got)
    env.check(env.eq(got, rows), "every record of the file, in order")


@harness("R09", cases=["json", "txt", "lxml", "xml", "attributes", "forced"], reach=["read"],
         bounds="JSON and text files (one record each), XML files and files of XML lines of 1..2 elements with text, repeated and nested elements, "
                "attributes and a namespace; a file of another known extension read as JSON lines by request")
def documents(env, case):
    store = setup(env)
    a, b = env.choice("a", ["1", "x y", "&amp;<![CDATA[<]]>", ""]), env.choice("b", ["t", "\u00e9"])
    plain = {"&amp;<![CDATA[<]]>": "&<", "": None}.get(a, a)
    kw = {}
    if case == "json":
        want = [{"n": env.int("n", -99, 99), "t": [a, None, {"b": b}]}]
        name, data = "a.json", orjson.dumps(want[0])
    elif case == "txt":
        want = [(a + "\n" + b).encode("utf8")]
        name, data = "a.txt", want[0]
    elif case == "lxml":
        n = env.choice("lines", [1, 2, 3])
        want = [{"e": {"k": plain, "i": str(i)}} for i in range(n)]
        data = "\n".join(["<e><k>%s</k><i>%d</i></e>" % (a, i) for i in range(n)]).encode("utf8")
        name = "a.lxml"
    elif case == "xml":
        n = env.choice("repeats", [1, 2, 3])
        ns = env.choice("namespace", ["", ' xmlns="http://x/y"'])
        data = ("<?xml version='1.0' encoding='utf-8'?>\n<r%s>%s<q><z>%s</z></q></r>" % (ns, ("<k>%s</k>" % a) * n, b)).encode("utf8")
        want = [{"r": {"k": plain if n == 1 else [plain] * n, "q": {"z": b}}}]
        name = "a.xml"
    elif case == "attributes":
        inner = env.choice("inner", ["", "text", "<k>%s</k>" % a, "text<k/>"])
        data = ("<r><e id='%s'>%s</e></r>" % (b, inner)).encode("utf8")
        e = {"@id": b}
        if "<k>" in inner:
            e["k"] = plain
        elif "<k/>" in inner:
            e["k"] = None
        if inner[:4] == "text":
            e["#text"] = "text"
        want = [{"r": {"e": e}}]
        name = "a.xml"
    else:
        want = [{"n": env.int("n%d" % i, -99, 99), "t": b} for i in range(env.choice("records", [1, 2]))]
        data = jsonl(want)
        name = env.choice("name", ["a.txt", "a.json", "a.b.csv"])
        kw["override_format"] = env.choice("format", ["jsonl", ".jsonl", "JSONL"])
    store.blobs[FOLDER + "/" + name] = data
    got = list(read(store, **kw))
    env.reach("read")
    env.observe("got", got)
    env.check(env.eq(got, want), "the content of the file")


@harness("R09", reach=["refused", "written"], bounds="dataset names holding the marker of dead letters in any letter case, in any folder")
def dead_letters(env, case):
    store = setup(env)
    name = env.choice("name", ["bucket/data", "bucket/BACKOUT", "bucket/backout/x", "bucket/data_BACKOUTS", "backed/out"])
    r = env.catch(lambda: Writer(dataset=name, format="jsonl", inner_writer=mem_writer(store), date=None, schema=False, blob_size=0))
    if r[0] == "exc":
        env.reach("refused")
        env.check(r[1] == "InvalidDataSetError" and "BACKOUT" in name, "only a dataset which is not read is refused")
        return
    env.reach("written")
    r[1].append({"n": 1})
    r[1].finalize()
    stamp = sorted(store.blobs)
    env.check(len(stamp) == 1, "one file")
    from mabel import Reader
    from harness.common import mem_reader
    import datetime
    day = datetime.datetime.utcnow().date()
    got = list(Reader(inner_reader=mem_reader(store), dataset=name, start_date=day, end_date=day))
    env.check(got == [{"n": 1}], "what is written can be read")
