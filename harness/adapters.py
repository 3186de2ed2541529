"""storage adapters, crash points, multiprocess reading"""
import datetime

import orjson

from harness.common import CommitFailed, Store, mem_reader, mem_writer, no_del, no_random, ticking_clock
from symx.env import harness

from mabel.adapters.disk import DiskReader, DiskWriter
from mabel.adapters.google import GoogleCloudStorageReader, GoogleCloudStorageWriter
from mabel.adapters.minio import MinIoReader, MinIoWriter
from mabel.adapters.null import NullReader
from mabel.data import BatchWriter, Reader, Writer

DAY0 = datetime.date(2024, 2, 28)


def jsonl(records):
    return b"".join([orjson.dumps(r) + b"\n" for r in records])


class Cloud:
    """bucket -> {object name: bytes}"""

    def __init__(self):
        self.buckets = {"bucket": {}, "other": {}}
        self.fail = None
        self.puts = []
        self.gets = []

    def put(self, bucket, name, data):
        bad = self.fail(len(self.puts) + 1) if self.fail is not None else False
        if bad:
            self.puts.append(None)
            raise (bad if isinstance(bad, type) else CommitFailed)(name)
        self.puts.append((bucket, name))
        self.buckets[bucket][name] = data

    def get(self, bucket, name):
        self.gets.append((bucket, name))
        return self.buckets[bucket][name]

    def list(self, bucket, prefix):
        return sorted(n for n in self.buckets[bucket] if n.startswith(prefix))


def fake_gcs(env, cloud):
    class Blob:
        def __init__(self, bucket, name):
            self.bucket, self.name = bucket, name

        def upload_from_string(self, data, content_type=None, **kw):
            cloud.put(self.bucket, self.name, data)

        def download_as_bytes(self, **kw):
            return cloud.get(self.bucket, self.name)

    class Bucket:
        def __init__(self, name):
            cloud.buckets[name]
            self.name = name

        def blob(self, name):
            return Blob(self.name, name)

        def get_blob(self, name):
            return Blob(self.name, name) if name in cloud.buckets[self.name] else None

    class Client:
        def __init__(self, **kw):
            pass

        def get_bucket(self, name):
            return Bucket(name)

        def bucket(self, name):
            return Bucket(name)

        def list_blobs(self, bucket_or_name=None, prefix=None, **kw):
            b = bucket_or_name if isinstance(bucket_or_name, str) else bucket_or_name.name
            return [Blob(b, n) for n in cloud.list(b, prefix)]

    class storage:
        pass
    storage.Client = Client

    class Retry:
        def __init__(self, predicate=None, **kw):
            self.predicate = predicate

        def __call__(self, fn, *a):
            def again(*args, **kw):
                # the real one keeps trying for two minutes; faults here pass after the first
                for attempt in range(3):
                    try:
                        return fn(*args, **kw)
                    except Exception as err:
                        if attempt == 2 or not self.predicate or not self.predicate(err):
                            raise
            return again

    class retry:
        pass
    retry.Retry = Retry
    retry.if_exception_type = lambda *types: (lambda err: isinstance(err, types))
    for m in ("reader", "writer"):
        env.patch("mabel.adapters.google.google_cloud_storage_%s.storage" % m, storage)
    env.patch("mabel.adapters.google.google_cloud_storage_writer.retry", retry)
    return GoogleCloudStorageWriter, GoogleCloudStorageReader, {}


def fake_minio(env, cloud):
    class Obj:
        def __init__(self, bucket, name):
            self.bucket_name, self.object_name = bucket, name

    class Response:
        def __init__(self, data):
            self.data = data

        def read(self):
            return self.data

        def close(self):
            pass

        def release_conn(self):
            pass

    class Minio:
        def __init__(self, *a, **kw):
            pass

        def put_object(self, bucket_name, object_name, data, length, **kw):
            body = data.read(length) if length >= 0 else data.read()
            cloud.put(bucket_name, object_name, body)

        def list_objects(self, bucket_name, prefix=None, recursive=False, **kw):
            names = cloud.list(bucket_name, prefix)
            if not recursive:
                # only what is in the folder, folders within it by their name
                cut = len(prefix or "")
                names = list(dict.fromkeys([n if "/" not in n[cut:] else n[:n.index("/", cut) + 1] for n in names]))
            return [Obj(bucket_name, n) for n in names]

        def get_object(self, bucket_name, object_name, **kw):
            return Response(cloud.get(bucket_name, object_name))
    for m in ("reader", "writer"):
        env.patch("mabel.adapters.minio.minio_%s.Minio" % m, Minio)
    kw = dict(end_point="localhost:1", access_key="a", secret_key="b", secure=False)
    return MinIoWriter, MinIoReader, kw


def setup(env):
    no_del(env)
    ticking_clock(env)
    no_random(env)


def backend(env, which, name="data"):
    if which == "disk":
        return DiskWriter, DiskReader, {}, env.scratch() + "/" + name, None
    cloud = Cloud()
    w, r, kw = {"gcs": fake_gcs, "minio": fake_minio}[which](env, cloud)
    return w, r, kw, "bucket/" + name, cloud


def day(k):
    return DAY0 + datetime.timedelta(days=k)


def read_all(env, r, dataset, kw, a, b, **more):
    res = env.catch(lambda: list(Reader(inner_reader=r, dataset=dataset, start_date=day(a), end_date=day(b), **kw, **more)))
    if res == ("exc", "DataNotFoundError"):
        return []
    assert res[0] == "ok", res
    return res[1]


@harness("R05", cases=lambda tier: [[b, w, f] for b in ("gcs", "minio", "disk") for w in ("Writer", "BatchWriter") for f in ("jsonl", "zstd")
                                    if f == "jsonl" or tier != "quick" or b == "gcs"],
         reach=["several blobs", "nothing"],
         bounds="records on 3 consecutive days across a month end, 0..2 per day (thorough 0..3), blob size limit 0 or large; read over any "
                "sub range of the days; fake GCS and MinIO services (prefix listing, directory markers, a second bucket and a "
                "sibling dataset present), real file system in a scratch folder")
def adapter_round_trip(env, case):
    which, wname, fmt = case
    setup(env)
    name = "data" if wname == "Writer" else "Some.Folder/Data 1"
    W, R, kw, dataset, cloud = backend(env, which, name)
    cls = {"Writer": Writer, "BatchWriter": BatchWriter}[wname]
    sent = []
    limit = env.choice("blob_size", [0, 1 << 20])
    for k in range(3):
        n = env.pin(env.int("count%d" % k, 0, 2 if env.tier == "quick" else 3))
        w = cls(dataset=dataset, format=fmt, inner_writer=W, date=day(k), schema=False, blob_size=limit, **kw)
        for i in range(n):
            w.append({"n": 10 * k + i})
            sent.append(10 * k + i)
        w.finalize()
    if cloud is not None:
        # the service also holds directory markers, another dataset whose name starts the same, and another bucket
        cloud.buckets["bucket"][name + "/year_2024/month_02/day_29/"] = b""
        cloud.buckets["bucket"][name + "2/year_2024/month_02/day_29/x.jsonl"] = jsonl([{"n": 99}])
        cloud.buckets["other"][name + "/year_2024/month_02/day_29/x.jsonl"] = jsonl([{"n": 98}])
    a = env.choice("from", [0, 1, 2])
    b = env.choice("to", list(range(a, 3)))
    got = [r["n"] for r in read_all(env, R, dataset, kw, a, b)]
    env.observe("got", got)
    want = [n for n in sent if a <= n // 10 <= b]
    env.reach("several blobs" if len(want) > 1 else "nothing" if not want else "one")
    env.check(sorted(got) == want, "each record is read back once")
    r = R(dataset=dataset, start_date=day(a), end_date=day(b), partitions=["year_{yyyy}/month_{mm}/day_{dd}"], **kw)
    blobs = r.get_list_of_blobs()
    env.check(len(set(blobs)) == len(blobs), "each blob is listed once")


NAMES = ["A.jsonl", "b c.jsonl", "\u00e9.jsonl", "x.y.jsonl", "In Folder/B.jsonl", "a+%20#1.jsonl", "-.zstd.jsonl", "deep/er/c.jsonl"]


@harness("R05", cases=["gcs", "minio", "disk"], reach=["read"],
         bounds="two files of any of eight names (capitals, spaces, dots, folders, signs), written by others")
def names_of_others(env, which):
    setup(env)
    W, R, kw, dataset, cloud = backend(env, which, "A data/Set")
    mine = [env.choice("name%d" % i, NAMES[4 * i:4 * i + 4]) for i in range(2)]
    for i, nm in enumerate(mine):
        full = "year_2024/month_02/day_28/" + nm
        if cloud is not None:
            cloud.buckets["bucket"]["A data/Set/" + full] = jsonl([{"n": i}])
        else:
            import os
            os.makedirs(os.path.dirname(dataset + "/" + full), exist_ok=True)
            with open(dataset + "/" + full, "wb") as f:
                f.write(jsonl([{"n": i}]))
    got = sorted(r["n"] for r in read_all(env, R, dataset, kw, 0, 0))
    env.reach("read")
    env.observe("got", got)
    env.check(got == [0, 1], "each file is read once")


@harness("R05", cases=["plain", "selected", "filtered", "missing"], reach=["read"],
         bounds="the reader of data in memory: 0..3 records given to it, read for one to three days, also with selected fields, a filter, and without the data")
def null_adapter(env, case):
    setup(env)
    env.reach("read")
    rows = [{"n": env.int("n%d" % i, 0, 9), "s": env.str("s", "a\n\"", 0, 2) if i == 0 else "b"} for i in range(env.choice("rows", [0, 1, 2, 3]))]
    days = env.choice("days", [1, 2, 3])
    kw = {"data": rows}
    want = rows
    if case == "selected":
        kw["select"] = "s"
        want = [{"s": r["s"]} for r in rows]
    elif case == "filtered":
        kw["filters"] = [("n", ">", 4)]
        want = [r for r in rows if r["n"] > 4]
    elif case == "missing":
        kw = {}
    res = env.catch(lambda: list(Reader(inner_reader=NullReader, dataset="bucket/data", start_date=DAY0,
                                        end_date=DAY0 + datetime.timedelta(days=days - 1), **kw)))
    if case == "missing":
        env.check(res[0] == "exc", "the data has to be given")
        return
    env.observe("got", res[1])
    env.check(res[0] == "ok" and env.eq([dict(r) for r in res[1]], want * days), "the data, once for each day")


@harness("R05", cases=lambda tier: [[b, w] for b in ("gcs", "minio") for w in ("Writer", "BatchWriter")], reach=["refused", "stored"],
         bounds="up to 2 records, each upload may be refused by the service; always_complete or not")
def adapter_failures(env, case):
    which, wname = case
    setup(env)
    W, R, kw, dataset, cloud = backend(env, which)
    cls = {"Writer": Writer, "BatchWriter": BatchWriter}[wname]
    more = {"always_complete": env.bool("always")} if wname == "BatchWriter" else {}
    w = cls(dataset=dataset, format="jsonl", inner_writer=W, date=day(0), schema=False, blob_size=0, **kw, **more)
    cloud.fail = lambda k: env.bool("fail%d" % k)
    n = env.pin(env.int("count", 0, 2))
    acked = []
    for i in range(n):
        if env.catch(w.append, {"n": i})[0] == "ok":
            acked.append(i)
    ok = env.catch(w.finalize)[0] == "ok"
    cloud.fail = None
    env.reach("stored" if ok else "refused")
    env.observe("puts", [p is not None for p in cloud.puts])
    env.check(all(p is None or (p[0] == "bucket" and p[1].startswith("data/year_2024/month_02/day_28/")) for p in cloud.puts),
              "blobs and flags are stored in the folder of the dataset and day")
    flag = [p for p in cloud.puts if p is not None and p[1].endswith("/frame.complete")]
    if wname == "BatchWriter":
        env.check(bool(flag) == (ok and (len(acked) > 0 or bool(more["always_complete"]))), "the flag is stored exactly when the frame is done")
    if ok:
        got = sorted(r["n"] for r in read_all(env, R, dataset, kw, 0, 0))
        env.check(got == acked, "a refused upload is reported, and what was accepted is stored")


@harness("R05", cases=["Writer", "BatchWriter"], reach=["passed"],
         bounds="up to 2 records to GCS, the connection of any one upload is reset, once")
def transient_faults(env, wname):
    setup(env)
    W, R, kw, dataset, cloud = backend(env, "gcs")
    cls = {"Writer": Writer, "BatchWriter": BatchWriter}[wname]
    w = cls(dataset=dataset, format="jsonl", inner_writer=W, date=day(0), schema=False, blob_size=0, **kw)
    at = env.pin(env.int("at", 1, 4))
    n = env.pin(env.int("count", 1, 2))
    cloud.fail = lambda k: ConnectionResetError if k == at else False
    for i in range(n):
        w.append({"n": i})
    w.finalize()
    cloud.fail = None
    if any(p is None for p in cloud.puts):
        env.reach("passed")
    got = sorted(r["n"] for r in read_all(env, R, dataset, kw, 0, 0))
    env.observe("got", got)
    env.check(got == list(range(n)), "a connection which is reset once loses nothing")


@harness("R05", cases=["Writer", "BatchWriter"], reach=["refused", "stored"],
         bounds="up to 2 records, each write to the disk may be refused (a file is where the folder should be)")
def disk_failures(env, wname):
    import os
    setup(env)
    W, R, kw, dataset, _ = backend(env, "disk")
    cls = {"Writer": Writer, "BatchWriter": BatchWriter}[wname]
    real, moved = dataset + "/year_2024", dataset + "/moved"
    done = {"n": 0}

    class Blocked(W):
        def commit(self, byte_data, override_blob_name=None):
            done["n"] += 1
            bad = env.pin(env.bool("fail%d" % done["n"]))
            os.makedirs(dataset, exist_ok=True)
            if bad:
                if os.path.exists(real):
                    os.rename(real, moved)
                with open(real, "wb") as f:
                    f.write(b"")
            try:
                return super().commit(byte_data, override_blob_name)
            finally:
                if bad:
                    os.remove(real)
                    if os.path.exists(moved):
                        os.rename(moved, real)
    w = cls(dataset=dataset, format="jsonl", inner_writer=Blocked, date=day(0), schema=False, blob_size=0)
    n = env.pin(env.int("count", 0, 2))
    acked = [i for i in range(n) if env.catch(w.append, {"n": i})[0] == "ok"]
    ok = env.catch(w.finalize)[0] == "ok"
    env.reach("stored" if ok else "refused")
    env.observe("acked", acked)
    if ok:
        got = sorted(r["n"] for r in read_all(env, R, dataset, kw, 0, 0))
        env.check(got == acked, "a refused write is reported, and what was accepted is stored")


# ---------------------------------------------------------------- W11
class Crash(BaseException):
    pass


@harness("W11", cases=lambda tier: [[f, a, b] for f in ("jsonl", "zstd") for a in (0, 1) for b in ((1, 2) if tier == "quick" else (1, 2, 3))],
         reach=["old data", "new data", "nothing", "torn"],
         bounds="a complete frame of 0..1 records (absent when 0), then a second frame of 1..2 records (thorough 3) for the same day whose process dies at an "
                "arbitrary storage operation, before it, after it, or having stored only a part; then two reads; frames begun in "
                "different seconds or in the same one (known finding)")
def crash_safety(env, case):
    fmt, first, second = case
    setup(env)
    store = Store()
    dt = env.dt
    t = {"s": 0}
    env.clock(lambda: dt.datetime(2024, 2, 28, 10, 0, 0) + dt.timedelta(seconds=t["s"]))
    if first:
        w = BatchWriter(dataset="bucket/data", format=fmt, inner_writer=mem_writer(store), date=DAY0, schema=False, blob_size=0)
        w.append({"n": 1})
        w.finalize()
    same = env.bool("same_second")
    t["s"] = 0 if same else 1
    crash_at = env.int("crash_at", 1, 6)
    how = env.choice("how", ["before", "torn", "after"])
    dead = {"n": 0, "flag": False}

    class Dying(mem_writer(store)):
        def commit(self, byte_data, override_blob_name=None):
            dead["n"] += 1
            name = override_blob_name or self._build_path()
            if dead["n"] == crash_at:
                if how == "torn":
                    env.reach("torn")
                    store.put(name, byte_data[: len(byte_data) // 2])
                elif how == "after":
                    store.put(name, byte_data)
                dead["flag"] = name.endswith("frame.complete") and how != "before"
                raise Crash()
            r = store.put(name, byte_data)
            dead["flag"] = name.endswith("frame.complete")
            return r
    try:
        w = BatchWriter(dataset="bucket/data", format=fmt, inner_writer=Dying, date=DAY0, schema=False, blob_size=0)
        for i in range(second):
            w.append({"n": 10 + i})
        w.finalize()
    except Crash:
        pass
    want = [10 + i for i in range(second)] if dead["flag"] else [1] if first else []
    for _ in range(2):
        res = env.catch(lambda: [r["n"] for r in Reader(inner_reader=mem_reader(store), dataset="bucket/data", start_date=DAY0, end_date=DAY0)])
        got = [] if res == ("exc", "DataNotFoundError") else res[1]
        env.check(got == want, "after a crash a reader sees a complete frame or the one before it",
                  known=("KF-W11-same-second", env.all([same, first == 1])))
    env.observe("got", got)
    env.reach("new data" if dead["flag"] else "old data" if first else "nothing")


# ---------------------------------------------------------------- R07
class Pause(BaseException):
    """a worker waits for its next item"""


class WouldHang(Exception):
    pass


class Pool:
    """worker processes as coroutines: a step serves one item; the scheduler's choices are inputs"""

    def __init__(self, env):
        self.env = env
        self.procs = []
        self.queues = []
        self.n = 0
        self.idle = 0
        self.current = None
        self.clock = 1_700_000_000.0


def fake_multiprocessing(env, pool):
    from queue import Empty

    class FakeQueue:
        def __init__(self, maxsize=0):
            self.items = []
            self.maxsize = maxsize
            pool.queues.append(self)

        def put(self, item, *a, **k):
            self.items.append(item)

        put_nowait = put

        def full(self):
            return self.maxsize > 0 and len(self.items) >= self.maxsize

        def empty(self):
            return not self.items

        def get(self, *a, **k):
            if pool.current is not None:        # a worker
                if pool.current.took:
                    raise Pause()
                pool.current.took = True
                if not self.items:
                    raise Empty()
                return self.items.pop(0)
            # the parent: let workers run until there is a reply
            while not self.items:
                ready = [p for p in pool.procs if p.alive and any(q.items for q in pool.queues if q is not self)]
                if not ready:
                    pool.idle += 1
                    if pool.idle > 5:
                        raise WouldHang()
                    raise Empty()
                pool.n += 1
                env.choice("worker%d" % pool.n, ready).step()
            return self.items.pop(0)

        def close(self):
            pass

        def join_thread(self):
            pass

        def cancel_join_thread(self):
            pass

    class FakeProcess:
        def __init__(self, target=None, args=(), kwargs=None, **k):
            self.target, self.args, self.kwargs = target, args, kwargs or {}
            self.alive = False
            self.took = False
            self.daemon = False

        def start(self):
            self.alive = True
            pool.procs.append(self)

        def step(self):
            pool.current = self
            self.took = False
            try:
                self.target(*self.args, **self.kwargs)
                self.alive = False
            except Pause:
                pass
            finally:
                pool.current = None

        def is_alive(self):
            return self.alive

        def join(self, *a):
            pass

        def terminate(self):
            self.alive = False
    env.patch("multiprocessing.Queue", FakeQueue)
    env.patch("multiprocessing.Process", FakeProcess)
    env.patch("multiprocessing.cpu_count", lambda: 3)
    env.patch("multiprocessing.Queue", FakeQueue)
    env.patch("time.sleep", lambda s: None)


@harness("R07", cases=lambda tier: [5, 6] if tier == "quick" else [5, 6, 7], reach=["parallel"],
         bounds="5..6 blobs (thorough 7) of 0..2 records of scalar (text with line separators) and null fields, 2 workers, every order in which the workers may serve blobs; "
                "with and without a filter; processes are modelled as coroutines which serve one blob at a time")
def multiprocess(env, case):
    setup(env)
    store = Store()
    pool = Pool(env)
    fake_multiprocessing(env, pool)
    total = []
    big = env.choice("empty", list(range(case)))
    for b in range(case):
        recs = [] if b == big else [{"n": 10 * b + i, "s": "a\x85\u2028\x1c\r\n\u00e9", "z": None, "f": 0.5, "t": True} for i in range(1 + b % 2)]
        store.blobs["bucket/data/year_2024/month_02/day_28/b%d.jsonl" % b] = jsonl(recs)
        total += recs
    kw = {}
    if env.bool("filtered"):
        kw["filters"] = [("n", ">", env.choice("above", [0, 20]))]
        total = [r for r in total if r["n"] > kw["filters"][0][2]]
    res = env.catch(lambda: list(Reader(inner_reader=mem_reader(store), dataset="bucket/data", start_date=DAY0, end_date=DAY0,
                                        multiprocess=True, **kw)))
    env.check(res[0] == "ok", "the read ends")
    env.check(len(pool.procs) > 0 and len(store.reads) == case, "each blob is read once, by the workers")
    env.reach("parallel")
    got = sorted(res[1], key=lambda r: r["n"])
    env.observe("got", got)
    env.check(got == total, "several processes deliver the records a serial read delivers")
