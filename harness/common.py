"""shared stubs: an object store in memory, writers and readers on it"""
import datetime

import orjson
import zstandard

from symx.env import SchedLock, WouldBlock

from mabel.data.readers.internals.base_inner_reader import BaseInnerReader
from mabel.data.writers.internals.base_inner_writer import BaseInnerWriter


class CommitFailed(Exception):
    pass


class AnyFailure(CommitFailed, ConnectionResetError, TimeoutError, ValueError, RuntimeError, LookupError, ArithmeticError, TypeError):
    """a failure of every kind: whatever a handler is meant for, it handles this"""


def failure(attempt):
    """failed storage operations are of every kind and of none in turn"""
    return AnyFailure if attempt % 2 else CommitFailed


class Store:
    """name -> bytes, remembers every write; commits may be told to fail"""

    def __init__(self):
        self.writes = []        # (name, bytes) in commit order
        self.blobs = {}
        self.attempts = 0
        self.fail = None        # attempt number -> bool, or the class of the error
        self.reads = []

    def put(self, name, data):
        self.attempts += 1
        e = self.fail(self.attempts) if self.fail is not None else None
        if e:
            raise (failure(self.attempts) if e is True else e)(name)
        self.writes.append((name, data))
        self.blobs[name] = data
        return name


def mem_writer(store):
    class MemWriter(BaseInnerWriter):
        def commit(self, byte_data, override_blob_name=None):
            if override_blob_name:
                name = override_blob_name
            else:
                name = self._build_path()
            return store.put(name, byte_data)
    return MemWriter


def mem_reader(store):
    class MemReader(BaseInnerReader):
        def get_blobs_at_path(self, path):
            path = str(path)
            return [n for n in store.blobs if n.startswith(path + "/")]

        def get_blob_bytes(self, blob_name):
            store.reads.append(blob_name)
            return store.blobs[blob_name]
    return MemReader


def no_del(env):
    """garbage collection is not part of a run"""
    env.patch("mabel.data.writers.internals.blob_writer.BlobWriter.__del__", lambda self: None)


def ticking_clock(env, start=1_700_000_000_000_000_000):
    """time.time_ns / time.time as a strictly increasing counter"""
    t = {"n": start}

    def ns():
        t["n"] += 1000
        return t["n"]
    env.patch("time.time_ns", ns)
    env.patch("time.time", lambda: ns() / 1e9)
    return t


def no_random(env):
    """os.urandom: a fixed, never repeating sequence"""
    t = {"n": 0}

    def urandom(n):
        t["n"] += 1
        return (t["n"] * 2654435761 % (1 << 64)).to_bytes(8, "big") * (n // 8) + bytes(n % 8)
    env.patch("os.urandom", urandom)


def models(n, v):
    """the same record as a model of each kind: pydantic's own, and one with the methods of its first version"""
    import pydantic

    order = pydantic.create_model("Order", n=(int, ...), v=(str, ...))

    class Old:
        def __init__(self, n, v):
            self.n, self.v = n, v

        def dict(self):
            return {"n": self.n, "v": self.v}
    return [order(n=n, v=v), Old(n, v), {"n": n, "v": v}]


def line(fmt, record):
    if fmt == "text":
        if isinstance(record, bytes):
            return record + b"\n"
        return str(record).encode() + b"\n"
    return orjson.dumps(record) + b"\n"


def payload(fmt, blob):
    """the stored bytes of a blob before compression"""
    if fmt == "zstd":
        return zstandard.decompress(blob)
    return blob


def join(parts):
    out = b""
    for p in parts:
        out = out + p
    return out


class Sched:
    """bounded preemption: at a scheduling point another simulated thread may run its next operation to
    completion (and can itself be preempted).  A thread that would block makes the schedule impossible."""

    def __init__(self, env, budget):
        self.env = env
        self.budget = budget
        self.threads = []       # list of lists of operations
        self.busy = []
        self.n = 0

    def point(self):
        if self.budget <= 0:
            return
        for i, ops in enumerate(self.threads):
            if i in self.busy or not ops or self.budget <= 0:
                continue
            self.n += 1
            if self.env.bool("preempt%d" % self.n):
                self.budget -= 1
                self.run(i)

    def run(self, i):
        op = self.threads[i].pop(0)
        who = SchedLock.who
        self.busy.append(i)
        SchedLock.who = i
        top = len(self.busy) == 1
        try:
            op()
        except WouldBlock:
            if top:
                raise
            self.env.assume(False)
        finally:
            self.busy.remove(i)
            SchedLock.who = who


def wrap(env, sched, cls, name):
    """the instance method gets a scheduling point before and after"""
    old = getattr(cls, name)

    def wrapped(self, *a, **k):
        sched.point()
        r = old(self, *a, **k)
        sched.point()
        return r
    env.setattr(cls, name, wrapped)
