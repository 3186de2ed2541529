#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (developer tool; the two files are committed)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "mabel/data/writers/"
R = "mabel/data/readers/"
I = "mabel/data/internals/"
U = "mabel/utils/"

PROPS = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, claimed=True, note=""):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    if not claimed:
        NA.append(dict(property=id, reason=claimed if isinstance(claimed, str) else note))


prop("W01", "A writer stores every accepted record exactly once",
     "After a writer is finalized, the stored blobs together hold every record whose append succeeded, byte for byte as its format "
     "serialises it, once each and in append order; no blob is empty and none overwrites another. If commits fail with an error, "
     "records accepted before are kept and stored by a later successful commit, and no record is ever stored twice.",
     ["inputs", "histories", "fault_sequences"],
     "all record sizes and kinds, blob size limits, formats, lengths of append sequences and sets of failing commits",
     "the tests write a few fixed sequences with the default limit, where one blob is enough, and never let a commit fail",
     [W + "writer.py", W + "internals/blob_writer.py"],
     [("buffer append and rollover", "BlobWriter.text_append, arrow_append"), ("commit, buffer reset", "BlobWriter.commit, open_buffer"),
      ("final commit", "Writer.finalize")])
prop("W02", "Blobs respect the configured size limit",
     "A stored blob (before compression) exceeds the configured size limit by at most its last record, and a blob is only closed before "
     "finalization when it has gone over the limit.",
     ["inputs", "histories"], "all sequences of record sizes and all limits",
     "needs every relation of running size to limit at every position; the tests use one limit and uniform records",
     [W + "internals/blob_writer.py"], [("size test before or after append", "BlobWriter.text_append, arrow_append")])
prop("W03", "A frame is marked complete only when all of its data is stored",
     "A batch writer stores the completion flag only after every accepted record of the frame is stored, in the folder of that data and date, "
     "never before finalize and never once a failure was flagged in any finalize call, even if commits fail in between. "
     "A frame without records is marked only when asked for; a finished frame without failures is always marked.",
     ["inputs", "histories", "fault_sequences"], "all append/finalize histories, failure flags and failing commits",
     "the tests finalize once, with or without a flag, and no commit fails",
     [W + "batch_writer.py"], [("order of data and flag, remembered failures", "BatchWriter.finalize")])
prop("W04", "A streamed record goes to exactly the partitions its values name",
     "A stream writer stores a record once in each folder obtained by putting its (sanitized) field values, one of each list valued field, and the time "
     "of the append or the configured date into the dataset template, and nowhere else. "
     "A record which breaks the schema goes to the BACKOUT folder of its partition instead.",
     ["inputs"], "all field values (text, numbers, lists, missing), templates with fields and time parts, times of append",
     "the tests use a few fixed values; products of lists, values which collide once sanitized and clock rollovers are not sampled",
     [W + "stream_writer.py", U + "paths.py", U + "text.py"],
     [("placeholder substitution, product of values", "StreamWriter.append"), ("date parts", "paths.date_format"), ("sanitize", "text.sanitize")])
prop("W05", "A stream writer loses and repeats no record under concurrency or failure",
     "Whatever the interleaving of appends, pool eviction in the background and finalize, every record whose append returned is stored exactly once in its "
     "partition when finalize has returned. If commits fail, finalize reports it and a later finalize stores what is outstanding.",
     ["schedules", "fault_sequences"], "all interleavings of appenders, the pool attendant and finalize; all sets of failing commits",
     "a race needs a particular preemption between fetching a partition's writer and appending to it, which tests meet by luck only",
     [W + "stream_writer.py", W + "internals/writer_pool.py"],
     [("one lock around lookup and append, and around eviction", "StreamWriter.append, finalize, pool_attendant"),
      ("commit before removal", "WriterPool.remove_writer")])
prop("W06", "Eviction takes only idle writers or the least recently used excess",
     "The pool keeps one writer per partition; the background attendant removes only writers idle for longer than the limit or, when the pool is over "
     "its capacity, the least recently used ones and never more than the excess. A writer leaves the pool only with its records stored.",
     ["inputs", "histories"], "all access times, capacities, idle limits and pool sizes",
     "the tests check one pool of three or four writers",
     [W + "internals/writer_pool.py", W + "stream_writer.py"],
     [("LRU nomination", "WriterPool.nominate_writers_to_evict"), ("staleness", "WriterPool.get_stale_writers"), ("attendant", "StreamWriter.pool_attendant")])
prop("W07", "No two stored blobs ever share a name",
     "Any two commits, by the same writer, by two writers of a process, by a process and its fork or by processes of different identity on any hosts, produce different blob names inside their dataset folder, whatever the "
     "clock returns, including repeated or decreasing readings.",
     ["inputs", "schedules"], "all clock readings, process and host identities",
     "tests never see two equal clock readings",
     [W + "internals/base_inner_writer.py"], [("name = time, host, process", "BaseInnerWriter._build_path, _get_node")])
prop("W08", "Only records which conform to the schema are stored",
     "With a schema, a writer refuses a record which breaks it with an error and stores nothing of it, and accepts and stores every record which conforms.",
     ["inputs", "histories"], "all mixes of conforming and non conforming records, for each writer and format",
     "tests try single records",
     [W + "writer.py", "mabel/data/validator/__init__.py"], [("validation before append", "Writer.append")])
prop("W09", "Database batches are complete, bounded and in order",
     "A database writer sends every accepted row exactly once, in order, in batches of at most the batch size of which only the last may be short, and runs the "
     "finalizer once, after all rows were sent. A failed batch is not dropped.",
     ["inputs", "histories", "fault_sequences"], "all numbers of rows, batch sizes and sets of failing commits",
     "tests write fewer rows than one batch",
     [W + "database_writer.py", "mabel/adapters/database/base_database_writer.py"], [("batching", "DatabaseWriter.append, commit"), ("finalizer", "DatabaseWriter.finalize")])
prop("W10", "Field values cannot move a record out of its dataset folder",
     "Whatever the values of the partitioning fields, a streamed record is stored under its dataset's fixed folders and date, with no relative or extra path "
     "segments; only the segments which name the field vary.",
     ["inputs"], "all field values including path syntax, control and non ascii characters",
     "tests use benign values",
     [W + "stream_writer.py", U + "text.py", U + "paths.py"], [("whitelist of characters", "text.sanitize"), ("substitution", "StreamWriter.append")])
prop("W11", "A crash while a batch is written never exposes partial data",
     "If the writing process dies at any storage operation of a batch (before it, after it, or having stored a part of the object), readers see either the new frame "
     "with all of its records or exactly the previous complete frame.",
     ["crash_points", "histories"], "all crash points of the second of two batches for a day",
     "tests never kill a writer",
     [W + "batch_writer.py", R + "internals/base_inner_reader.py"], [("flag stored last", "BatchWriter.finalize"), ("frame selection", "BaseInnerReader.get_list_of_blobs")])

prop("R01", "What is written is what is read",
     "Records written for a date and read back for that date are equal to the records written, in order, for every JSON representable field value and every "
     "format which keeps records; they are found under exactly that date (or hour, when partitioned by hour).",
     ["inputs", "histories"], "all field values (text with quotes, line ends, non ascii; numbers, nulls, nesting), blob boundaries, dates",
     "tests round trip a handful of records on one or two dates",
     [W + "writer.py", R + "reader.py", R + "internals/decompressors.py", U + "paths.py"],
     [("serialise / parse", "BlobWriter.text_append, parsers.json"), ("decompress and split", "decompressors.zstd, lines"), ("date folders", "paths.build_path, date_format")])
prop("R02", "Readers use exactly the latest complete frame of each partition",
     "Of the frames of a folder (per hour or field partition, where there are any) exactly the data of the latest one which is complete and not ignored is read, once; with none such, nothing; a read which finds nothing at all says so. "
     "Dead letters, control files and unknown file types are never read.",
     ["inputs", "histories"], "all combinations of completion and ignore flags, frame names and partition folder names",
     "tests have three fixed frame layouts on disk",
     [R + "internals/base_inner_reader.py"], [("frame selection", "BaseInnerReader.get_list_of_blobs")])
prop("R03", "A read covers exactly the days of its date range",
     "A read returns the records of every day from the earlier to the later given date inclusive, in date order, each once, and of no other day; dates left out mean today. "
     "With a freshness limit the most recent data is used when it is not older than the limit, otherwise the read reports that there is none; ranges of days with a limit are refused.",
     ["inputs"], "all start and end dates (text, date or datetime, either order, left out), data ages and limits",
     "tests use a few fixed ranges",
     [R + "internals/base_inner_reader.py", U + "dates.py", R + "reader.py"],
     [("range", "BaseInnerReader.__init__, dates.date_range"), ("stepping back", "_LowLevelReader._create_line_reader")])
prop("R04", "Resuming from a cursor continues exactly where reading stopped",
     "However many records were read before a cursor was taken, and whether it is passed on as a dictionary or as text, a read resumed with it yields exactly the "
     "remaining records, once and in order, also across blob boundaries, with filters, and when resumed repeatedly.",
     ["histories", "inputs"], "all blob sizes and interruption points, twice in a row",
     "tests interrupt one data set at a few places",
     [R + "internals/cursor.py", R + "reader.py"], [("cursor state", "Cursor.next_blob, skip_to_cursor, load_cursor"), ("location upkeep", "_LowLevelReader._create_line_reader")])
prop("R05", "Storage adapters store, list and fetch each object once and faithfully",
     "Through the disk, Google Cloud Storage and MinIO adapters every accepted record can be read back exactly once for any sub range of days, objects of other datasets and buckets are not "
     "picked up, every blob is listed once, and completion flags are stored with their data. An upload the service or the disk refuses is reported to the caller, one refused in passing (a reset connection) is retried. A reader over records given to it gives them once for each day.",
     ["inputs", "histories", "fault_sequences"], "all record counts per day, date ranges and refused uploads",
     "the cloud adapters need services the tests skip without",
     ["mabel/adapters/google/google_cloud_storage_writer.py", "mabel/adapters/google/google_cloud_storage_reader.py", "mabel/adapters/minio/minio_writer.py",
      "mabel/adapters/minio/minio_reader.py", "mabel/adapters/disk/disk_writer.py", "mabel/adapters/disk/disk_reader.py"],
     [("commit", "*Writer.commit"), ("listing and fetching", "*Reader.get_blobs_at_path, get_blob_bytes")])
prop("R06", "Selection and filters apply to each record; a bad blob harms only itself",
     "A read with selected (possibly renamed) fields and a filter on them yields exactly the matching records reduced to those fields, in stored order. "
     "A truncated, malformed or unknown blob does not change what is read from the other blobs.",
     ["inputs", "fault_sequences"], "all field values and missing fields, selections, filters and mixes of damaged blobs",
     "tests read fixed healthy data",
     [R + "internals/parallel_reader.py", R + "internals/inline_evaluator.py", R + "reader.py"], [("pipeline", "ParallelReader.__call__"), ("selection", "Evaluator.__call__")])
prop("R07", "Reading with several processes gives the records of a serial read",
     "A multiprocess read ends, reads every blob exactly once and yields the same records (of text, number, boolean and null fields) as a serial read, whichever order the workers serve the blobs in.",
     ["schedules", "inputs"], "all orders in which workers take and finish blobs",
     "the tests run whatever order the machine produces",
     [R + "internals/multiprocess_wrapper.py"], [("work and termination protocol", "processed_reader, _inner_process"), ("serialisation", "fix_dict")])
prop("R08", "A partition filter reads exactly the matching partitions",
     "With a partition filter on a field the data is partitioned by, exactly the records stored under that value are read; on data not partitioned by that field the filter changes nothing. Filters other than equality are refused.",
     ["inputs"], "all partition values and filter values, including ones which are prefixes of each other",
     "tests filter one fixed layout",
     [R + "internals/base_inner_reader.py"], [("pruning", "BaseInnerReader.get_list_of_blobs")])

exec(open(os.path.join(HERE, "tools", "docs_more.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
na = {n["property"] for n in NA}
TECH = "symbolic execution of the real Python source with z3, counterexamples replayed natively"
NOTE = ("every path of the harness within the stated bounds is decided by the solver over the code in /repo as it is now; trusts the engine's models of "
        "builtins and third party calls, which every explored path validates against a native run (sampled), and the stubs listed in DESIGN.md")
checks = []
for p in PROPS:
    if p["id"] in na:
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"],
                       thorough_cmd="python3 check.py %s --tier thorough" % p["id"], technique=TECH, level="model_checking", level_note=NOTE))
json.dump(dict(version=1, setup_cmd="python3 check.py Z99 --tier quick", checks=checks, not_applicable=NA,
               notes="one runner, check.py; harnesses in harness/, engine in symx/; known findings in known_findings.txt; see DESIGN.md"),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


# ---- DESIGN.md
import ast
import glob

HARN = {}
for fn in sorted(glob.glob(os.path.join(HERE, "harness", "*.py"))):
    for node in ast.parse(open(fn).read()).body:
        if isinstance(node, ast.FunctionDef):
            for d in node.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "harness":
                    b = [k.value for k in d.keywords if k.arg == "bounds"]
                    checks_ = []
                    for c in ast.walk(node):
                        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "check" and len(c.args) > 1 \
                                and isinstance(c.args[1], ast.Constant) and c.args[1].value not in checks_:
                            checks_.append(c.args[1].value)
                    HARN.setdefault(d.args[0].value, []).append((os.path.basename(fn), node.name, ast.literal_eval(b[0]) if b else "", checks_))
exec(open(os.path.join(HERE, "tools", "design_notes.py")).read())
out = [open(os.path.join(HERE, "tools", "design_head.md")).read(), "## The properties\n",
       "For each: how it is decided (oracle), then every harness with its bounds (whatever lies outside them is not decided) and the assertions "
       "submitted to the solver on every path. Generated by tools/docs.py from the harnesses.\n"]
for p in PROPS:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("Anchors: " + ", ".join(p["anchors"]["files"]) + ".\n")
    out.append("Oracle: " + NOTES[p["id"]] + "\n")
    for fn, name, b, labels in HARN.get(p["id"], []):
        out.append("* `%s:%s` - %s. Asserts: %s." % (fn, name, b or "see the harness", "; ".join(labels) or "in helpers"))
    out.append("")
out.append(open(os.path.join(HERE, "tools", "design_tail.md")).read())
out.append("## Planted bugs\n\nEach is in seeded/<id>/ with a demonstration; all pass the stable tests. Caught: the check named reports a violation (quick tier).\n")
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    out.append("* `%s` (%s): %s. Needs: %s. %s" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"].rstrip("."), m["needs"].rstrip("."),
                                                MISSED.get(os.path.basename(os.path.dirname(d)), "Caught by %s." % m["property"])))
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
