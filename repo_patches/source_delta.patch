From f03a224712047be16bab2635a696a96029be7930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:14 +0000
Subject: [PATCH 01/72] fix: remember a flagged failure even if the commit in
 that finalize fails

---
 mabel/data/writers/batch_writer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mabel/data/writers/batch_writer.py b/mabel/data/writers/batch_writer.py
index 6f3a351..95e2bc2 100644
--- a/mabel/data/writers/batch_writer.py
+++ b/mabel/data/writers/batch_writer.py
@@ -104,12 +104,14 @@ class BatchWriter(Writer):
 
     def finalize(self, **kwargs):
 
-        final = super().finalize()
-
+        # remember the failure before doing anything which could itself fail
         has_failure = bool(kwargs.get("has_failure", False))
-
         if has_failure:
             self.seen_failures = True
+
+        final = super().finalize()
+
+        if has_failure:
             get_logger().debug(f"Error found in the stack, not marking frame as complete.")
             return -1
 
-- 
2.43.0


From 826e5f170ca85fc68bf4952c89e8fef8ef91f230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:19 +0000
Subject: [PATCH 02/72] fix: blob names stay unique when the clock repeats or
 steps back

---
 .../data/writers/internals/base_inner_writer.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mabel/data/writers/internals/base_inner_writer.py b/mabel/data/writers/internals/base_inner_writer.py
index 71f56bc..b424d4c 100644
--- a/mabel/data/writers/internals/base_inner_writer.py
+++ b/mabel/data/writers/internals/base_inner_writer.py
@@ -8,6 +8,7 @@ The primary activity is contained in the .commit() method.
 
 import abc
 import os
+import threading
 import time
 import uuid
 from functools import lru_cache
@@ -16,6 +17,20 @@ from mabel.utils import paths
 
 STEM = "{stem}"
 
+_stamp_lock = threading.Lock()
+_last_stamp = 0
+
+
+def _next_stamp():
+    """
+    The time in nanoseconds, made strictly increasing within this process as the
+    clock can return the same value twice, or step back.
+    """
+    global _last_stamp
+    with _stamp_lock:
+        _last_stamp = max(_last_stamp + 1, time.time_ns())
+        return _last_stamp
+
 
 class BaseInnerWriter(abc.ABC):
     def __init__(self, **kwargs):
@@ -37,7 +52,7 @@ class BaseInnerWriter(abc.ABC):
         self.filename_without_bucket = path + STEM + self.extension
 
     def _build_path(self):
-        blob_id = f"{time.time_ns():x}-{self._get_node()}"
+        blob_id = f"{_next_stamp():x}-{self._get_node()}"
         return self.filename.replace(STEM, f"{blob_id}")
 
     @lru_cache(1)
-- 
2.43.0


From 6b9e445ee4ce5ad4f28587535fba38267208c3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:57 +0000
Subject: [PATCH 03/72] fix: keep a writer in the pool until its records are
 committed

---
 mabel/data/writers/internals/writer_pool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/writers/internals/writer_pool.py b/mabel/data/writers/internals/writer_pool.py
index 16dbefb..c9bae07 100644
--- a/mabel/data/writers/internals/writer_pool.py
+++ b/mabel/data/writers/internals/writer_pool.py
@@ -63,8 +63,9 @@ class WriterPool:
                 )
             else:
                 writer = writers[0]
-                self.writers = [w for w in self.writers if w.get("identity") != identity]
+                # it stays in the pool if the commit fails
                 writer.get("writer").commit()
+                self.writers = [w for w in self.writers if w.get("identity") != identity]
         finally:
             lock.release()
 
-- 
2.43.0


From fa5cc4972ad77ff098082f82467d16e77a752775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:57 +0000
Subject: [PATCH 04/72] fix: finalizing a stream reports partitions which
 failed to commit

---
 mabel/data/writers/stream_writer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mabel/data/writers/stream_writer.py b/mabel/data/writers/stream_writer.py
index e158d7f..d020928 100644
--- a/mabel/data/writers/stream_writer.py
+++ b/mabel/data/writers/stream_writer.py
@@ -158,6 +158,7 @@ class StreamWriter(Writer):
 
     def finalize(self, **kwargs):
         self.run_pool_attendant = False
+        failure = None
         with lock:
             for blob_writer_identity in self.writer_pool.writers:
                 try:
@@ -166,10 +167,14 @@ class StreamWriter(Writer):
                     )
                     self.writer_pool.remove_writer(blob_writer_identity["identity"])
                 except Exception as err:
-                    get_logger().debug(
+                    failure = err
+                    get_logger().error(
                         f"Error finalizing `{blob_writer_identity}`, {type(err).__name__} - {err}"
                     )
-        return super().finalize()
+        final = super().finalize()
+        if failure is not None:
+            raise failure
+        return final
 
     def pool_attendant(self):
         """
-- 
2.43.0


From ba415aa225c4579abbb69c8538bb72d611cda052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:57 +0000
Subject: [PATCH 05/72] fix: write a record once to a partition reached by
 several field values

---
 mabel/data/writers/stream_writer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mabel/data/writers/stream_writer.py b/mabel/data/writers/stream_writer.py
index d020928..ab9d0d2 100644
--- a/mabel/data/writers/stream_writer.py
+++ b/mabel/data/writers/stream_writer.py
@@ -137,7 +137,8 @@ class StreamWriter(Writer):
                 value = record.get(placeholder)
                 if not isinstance(value, list):
                     value = [value]
-                values.append(value)
+                # different values can share a partition once sanitized
+                values.append([text.sanitize(str(v)) for v in value])
             # get the cartesian product of these lists
             # save the result to a set otherwise it's not a cartesian product
             value_combinations = {i for i in itertools.product(*values)}
@@ -147,7 +148,7 @@ class StreamWriter(Writer):
                 this_identity = identity
                 # do the actual replacing of the placeholders
                 for k, v in zip(placeholders, values):
-                    this_identity = this_identity.replace("{" + k + "}", text.sanitize(str(v)))
+                    this_identity = this_identity.replace("{" + k + "}", v)
 
                 # get the writer and save the record
                 blob_writer = self.writer_pool.get_writer(this_identity)
-- 
2.43.0


From 51d71ae0e44f0c775f063d611939318fb4249335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:08 +0000
Subject: [PATCH 06/72] fix: do not evict writers from a pool which is under
 capacity

---
 mabel/data/writers/internals/writer_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/writers/internals/writer_pool.py b/mabel/data/writers/internals/writer_pool.py
index c9bae07..8e0b2d1 100644
--- a/mabel/data/writers/internals/writer_pool.py
+++ b/mabel/data/writers/internals/writer_pool.py
@@ -87,7 +87,7 @@ class WriterPool:
 
         # evict the oldest items, evicting can be time consuming so we're going to limit the
         evictees = sorted(self.writers, key=_inner_sort_key, reverse=False)[
-            : len(self.writers) - self.pool_size
+            : max(0, len(self.writers) - self.pool_size)
         ][: self.pool_size]
         return [writer.get("identity") for writer in evictees]
 
-- 
2.43.0


From 652080f2de264dbf00c982ad2cd237ce7d61f78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:08 +0000
Subject: [PATCH 07/72] fix: flatten keeps the name of the field a list is in

---
 mabel/data/internals/records.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/records.py b/mabel/data/internals/records.py
index fc48701..e7cac4d 100644
--- a/mabel/data/internals/records.py
+++ b/mabel/data/internals/records.py
@@ -81,7 +81,7 @@ def flatten(dictionary: MutableMapping[Any, Any], separator: str = ".", parent_k
             items.extend(flatten(dictionary=value, separator=separator, parent_key=new_key).items())
         elif isinstance(value, list):
             for k, v in enumerate(value):
-                items.extend(flatten({str(k): v}, new_key).items())
+                items.extend(flatten({str(k): v}, separator, new_key).items())
         else:
             items.append((new_key, value))
     return dict(items)
-- 
2.43.0


From 2da26a1c91797a2424186444288bf0f2ffd8124e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 08/72] fix: a partition folder does not take in folders its
 name is a prefix of

---
 mabel/data/readers/internals/base_inner_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index 65bb7e8..6fb5589 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -172,7 +172,8 @@ class BaseInnerReader(abc.ABC):
                     partitioned_blobs = [
                         blob
                         for blob in cycle_blobs
-                        if f"{chosen_partition}/{partitioned_folder}" in blob
+                        if chosen_partition == ""
+                        or f"/{chosen_partition}/{partitioned_folder}/" in blob + "/"
                     ]
 
                     # Work out if there's an as_at part
-- 
2.43.0


From cc62589a253e0fc5f56c8914b9baeba23265e705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 09/72] fix: a frame does not take in frames its name is a
 prefix of

---
 mabel/data/readers/internals/base_inner_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index 6fb5589..cf49bab 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -215,7 +215,7 @@ class BaseInnerReader(abc.ABC):
                             partitioned_blobs = [
                                 blob
                                 for blob in partitioned_blobs
-                                if (as_at in blob) and ("/frame.complete" not in blob)
+                                if (f"/{as_at}/" in blob) and ("/frame.complete" not in blob)
                             ]
 
                     blobs += partitioned_blobs
-- 
2.43.0


From 80208057578a9b070d5764f4c383d9f7ba435102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 10/72] fix: a partition filter is not applied to a field it is
 a prefix of

---
 mabel/data/readers/internals/base_inner_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index cf49bab..79b6e3a 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -130,7 +130,7 @@ class BaseInnerReader(abc.ABC):
                     partition_filter = f"/by_{partition_filter_field}/{partition_filter_field}={partition_filter_value}/"
 
                     # If we can find the partition in the folder set, then prune to it
-                    if any([f"by_{partition_filter_field}" in by for by in list_of_partitions]):
+                    if f"by_{partition_filter_field}" in list_of_partitions:
                         # Do the pruning
                         cycle_blobs = [blob for blob in cycle_blobs if partition_filter in blob]
                         #  We only have one partition now
-- 
2.43.0


From f35a856b0b0e68e4dae4c06351bdb14731ba6208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 11/72] fix: a selected field can be renamed

---
 mabel/data/readers/internals/inline_evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/inline_evaluator.py b/mabel/data/readers/internals/inline_evaluator.py
index 07319ba..5dd55cf 100644
--- a/mabel/data/readers/internals/inline_evaluator.py
+++ b/mabel/data/readers/internals/inline_evaluator.py
@@ -143,7 +143,7 @@ def evaluate_field(dict, token):
         if variable[0] == variable[-1] == "`":
             variable = variable[1:-1]
         return (
-            token["value"],
+            token["as"] or token["value"],
             dict.get(variable),
         )
     if token_type == TOKENS.FUNCTION:
-- 
2.43.0


From 237af9b811c471be4f0674acda75d6595eb609d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 12/72] fix: nulls survive the multiprocess reader

---
 mabel/data/readers/internals/multiprocess_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/multiprocess_wrapper.py b/mabel/data/readers/internals/multiprocess_wrapper.py
index 94de6ba..e13280f 100644
--- a/mabel/data/readers/internals/multiprocess_wrapper.py
+++ b/mabel/data/readers/internals/multiprocess_wrapper.py
@@ -25,7 +25,7 @@ MAXIMUM_SECONDS_PROCESSES_CAN_RUN = 600
 def fix_dict(obj: dict) -> dict:
     def fix_fields(dt):
         dt_type = type(dt)
-        if dt_type in (int, float, bool, str):
+        if dt is None or dt_type in (int, float, bool, str):
             return dt
         if hasattr(dt, "mini"):
             return dt.mini.decode("UTF8")
-- 
2.43.0


From 187b41b7f55ef4c01ce6cdbb407f40c7d2abe34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 13/72] fix: the first blob name has no bucket in it

---
 mabel/adapters/google/google_cloud_storage_writer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mabel/adapters/google/google_cloud_storage_writer.py b/mabel/adapters/google/google_cloud_storage_writer.py
index f15d32b..a0bb815 100644
--- a/mabel/adapters/google/google_cloud_storage_writer.py
+++ b/mabel/adapters/google/google_cloud_storage_writer.py
@@ -27,6 +27,7 @@ class GoogleCloudStorageWriter(BaseInnerWriter):
 
         super().__init__(**kwargs)
         self.credentials = credentials
+        self.filename = self.filename_without_bucket
 
         predicate = retry.if_exception_type(
             ConnectionResetError, ProtocolError, InternalServerError, TooManyRequests
-- 
2.43.0


From f114fb22ec689db0f56beb362082091a72ae6eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 14/72] fix: list the blobs of a day once

---
 mabel/adapters/minio/minio_reader.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/mabel/adapters/minio/minio_reader.py b/mabel/adapters/minio/minio_reader.py
index 5d3fffc..5518894 100644
--- a/mabel/adapters/minio/minio_reader.py
+++ b/mabel/adapters/minio/minio_reader.py
@@ -4,7 +4,6 @@ MinIo Reader - also works with AWS
 
 from ...data.readers.internals.base_inner_reader import BaseInnerReader
 from ...errors import MissingDependencyError
-from ...utils import dates
 from ...utils import paths
 
 try:
@@ -35,15 +34,12 @@ class MinIoReader(BaseInnerReader):
 
     def get_blobs_at_path(self, path):
         bucket, object_path, _, _ = paths.get_parts(path)
-        for cycle_date in dates.date_range(self.start_date, self.end_date):
-            cycle_path = paths.build_path(path=object_path, date=cycle_date)
-            blobs = self.minio.list_objects(bucket_name=bucket, prefix=cycle_path, recursive=True)
-
-            yield from [
-                bucket + "/" + blob.object_name
-                for blob in blobs
-                if not blob.object_name.endswith("/")
-            ]
+        # the path is for one date in the range, the caller cycles over the range
+        blobs = self.minio.list_objects(bucket_name=bucket, prefix=object_path, recursive=True)
+
+        yield from [
+            bucket + "/" + blob.object_name for blob in blobs if not blob.object_name.endswith("/")
+        ]
 
     def get_blob_bytes(self, blob_name: str) -> bytes:
         try:
-- 
2.43.0


From ca313b0a8e51a05c7eb20123900198394c459283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:32 +0000
Subject: [PATCH 15/72] fix: a DictSet can be iterated more than once, and when
 it wraps a list

---
 mabel/data/internals/dictset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 9536f78..75961f9 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -117,7 +117,7 @@ class DictSet(object):
         """
         if not hasattr(self._iterator, "__iter__"):  # pragma:no cover
             self._iterator = DumbIterator(self._iterator)
-        return self
+        return iter(self._iterator)
 
     def __next__(self):
         return next(self._iterator)
-- 
2.43.0


From 3a3b5088d4fe72798e458e06de8c3f32e4bdfe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:32 +0000
Subject: [PATCH 16/72] fix: taking no items takes none

---
 mabel/data/internals/dictset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 75961f9..5b6af42 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -394,6 +394,8 @@ class DictSet(object):
 
         This returns a generator.
         """
+        if items == 0:
+            return
         for count, item in enumerate(iter(self._iterator)):
             if isinstance(item, dict):
                 yield item
-- 
2.43.0


From e218e15f4d252955cedd25b4ff0daf82168a20ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:32 +0000
Subject: [PATCH 17/72] fix: get_items works for every storage class

---
 mabel/data/internals/dictset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 5b6af42..09a1fe4 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -327,7 +327,9 @@ class DictSet(object):
 
         # if there's no direct access to items, cycle through them
         # yielding the items we want
-        if self.storage_class in (STORAGE_CLASS.DISK, STORAGE_CLASS.COMPRESSED_MEMORY):
+        if not locations:
+            return
+        if self.storage_class != STORAGE_CLASS.NO_PERSISTANCE:
             for r in self._iterator._inner_reader(*locations):
                 yield r
             return
@@ -338,7 +340,7 @@ class DictSet(object):
             return
 
         if self.storage_class == STORAGE_CLASS.NO_PERSISTANCE:
-            for i, r in iter(self._iterator):
+            for i, r in enumerate(iter(self._iterator)):
                 if i in locations:
                     yield r
 
-- 
2.43.0


From c1d8dd1576a8bac3a1a7cef5faa81d56635e6d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:32 +0000
Subject: [PATCH 18/72] fix: distinct does not confuse rows which differ

---
 mabel/data/internals/dictset.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 09a1fe4..0ebcf9c 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -295,13 +295,10 @@ class DictSet(object):
         def do_dedupe(data):
             for item in data:
                 if columns:
-                    hashed_item = hash("".join([str(item.get(c, "$$")) for c in columns]))
+                    values = [(c, item[c]) for c in columns if c in item]
                 else:
-                    hashed_item = reduce(
-                        lambda x, y: x ^ y,
-                        [hash(f"{i},{v}") for i, v in enumerate(item.values())],
-                        0,
-                    )
+                    values = sorted(item.items(), key=lambda i: str(i[0]))
+                hashed_item = hash(repr(values))
                 if hashed_item not in hash_list:
                     yield item
                     hash_list[hashed_item] = True
-- 
2.43.0


From d00df025240fa7b7528c8ec4087b87054fb016b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:32 +0000
Subject: [PATCH 19/72] fix: sample more than half of the records

---
 mabel/data/internals/dictset.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 0ebcf9c..7fdaca1 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -138,10 +138,9 @@ class DictSet(object):
         """
 
         def inner_sampler(dictset):
-            selector = int(1 / fraction)
             for row in dictset:
                 random_value = int.from_bytes(os.urandom(2), "big")
-                if random_value % selector == 0:
+                if random_value < fraction * 65536:
                     yield row
 
         return DictSet(inner_sampler(iter(self._iterator)), storage_class=self.storage_class)
-- 
2.43.0


From ab4f8263b832d9cf4977a8f94974bf415c39357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:32 +0000
Subject: [PATCH 20/72] fix: an empty dataset can be persisted to disk

---
 mabel/data/internals/storage_classes/storage_class_disk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mabel/data/internals/storage_classes/storage_class_disk.py b/mabel/data/internals/storage_classes/storage_class_disk.py
index 21a5631..e777ab3 100644
--- a/mabel/data/internals/storage_classes/storage_class_disk.py
+++ b/mabel/data/internals/storage_classes/storage_class_disk.py
@@ -52,6 +52,9 @@ class StorageClassDisk(BaseStorageClass):
         """
         MMAP is by far the fastest way to read files in Python.
         """
+        # an empty file can't be mapped
+        if self.length == 0:
+            return
         with open(self.file, mode="rb") as file_obj:
             with mmap.mmap(file_obj.fileno(), length=0, access=mmap.ACCESS_READ) as mmap_obj:
                 line = mmap_obj.readline()
-- 
2.43.0


From e33388da462cc48adad9d3dd99c72d7d4afc604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:32 +0000
Subject: [PATCH 21/72] fix: compressed memory keeps empty records

---
 .../storage_classes/storage_class_compressed_memory.py         | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mabel/data/internals/storage_classes/storage_class_compressed_memory.py b/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
index f6671a3..c7fb350 100644
--- a/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
+++ b/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
@@ -64,8 +64,7 @@ class StorageClassCompressedMemory(BaseStorageClass):
             for batch in self.batches:
                 records = self.parse_json(self.decompressor.decompress(batch))
                 for record in records:
-                    if record:
-                        yield record
+                    yield record
 
     def __iter__(self):
         self.iterator = iter(self._inner_reader())
-- 
2.43.0


From 5e872933f4616d0e8640027a8261a6b79eb6e858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:32 +0000
Subject: [PATCH 22/72] fix: groups are told apart by all of their values

---
 mabel/data/internals/group_by.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index a6ac668..c69f8e8 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -71,16 +71,10 @@ class GroupBy:
             return
 
         for record in self._dictset:
-            try:
-                group_key: int = xxh3_64_intdigest(
-                    "".join([str(record[column]) for column in self._columns]),
-                    HASH_SEED
-                )
-            except KeyError:
-                group_key: int = xxh3_64_intdigest(
-                    "".join([f"{record.get(column, '')}" for column in self._columns]),
-                    HASH_SEED,
-                )
+            group_key: int = xxh3_64_intdigest(
+                repr([record.get(column) for column in self._columns]),
+                HASH_SEED,
+            )
             if group_key not in self._group_keys.keys():
                 self._group_keys[group_key] = [
                     (column, record.get(column)) for column in self._columns
-- 
2.43.0


From b648d580418dc90676415fbfab73ab72b606aeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:32 +0000
Subject: [PATCH 23/72] fix: zeros count in the minimum and maximum of a group

---
 mabel/data/internals/group_by.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index c69f8e8..21970bc 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -136,11 +136,8 @@ class GroupBy:
                 # the aggregation works by performing a simple calculation on
                 # the last known value and the value currently seen. This means
                 # we don't need a full copy of the data in memory.
-                if existing:
-                    if value or func == "COUNT":
-                        value = AGGREGATORS[func](existing, value)
-                    else:
-                        value = existing
+                if existing is not None:
+                    value = AGGREGATORS[func](existing, value)
                 elif func == "COUNT":
                     # the COUNT needs seeding with 1, the next cycles are just
                     # adding 1 to the last value.
-- 
2.43.0


From b331a096e970bc46f7600401b137450dcb02bd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:32 +0000
Subject: [PATCH 24/72] fix: an average does not add to the aggregations of the
 caller

---
 mabel/data/internals/group_by.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index 21970bc..1ce2700 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -111,9 +111,11 @@ class GroupBy:
         requested_aggs = aggregations.copy()
 
         # averages need the sum and the count
-        for func, col in aggregations:
+        for func, col in requested_aggs:
             if func == "AVG":
-                aggregations += [("SUM", col), ("COUNT", col)]
+                aggregations = aggregations + [("SUM", col), ("COUNT", col)]
+        # each only once, or values would be added twice
+        aggregations = list(dict.fromkeys(aggregations))
 
         columns_to_collect = {col for func, col in aggregations}
 
-- 
2.43.0


From 8628b07b69ea9e0d71846d1516483305a048ee7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:32 +0000
Subject: [PATCH 25/72] fix: a group whose values are all null is kept

---
 mabel/data/internals/group_by.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index 1ce2700..39a58a6 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -151,16 +151,17 @@ class GroupBy:
         # the order of the resulting data set is the order of the hashes - this
         # will appear random, but will ensure the order is consistent between
         # reruns.
-        collector = dict(sorted(collector.items()))
+        collector = {group: collector[group] for group in sorted(self._group_keys)}
 
         # We now need to expand out the hashed column names
         for group, results in collector.items():
             for func, col in requested_aggs:
-                if func == "AVG":
+                if func == "AVG" and f"SUM({col})" in results:
                     results[f"AVG({col})"] = results[f"SUM({col})"] / results[f"COUNT({col})"]
 
             results = {
-                f"{func}({col})": results.get(f"{func}({col})") for func, col in requested_aggs
+                f"{func}({col})": results.get(f"{func}({col})", 0 if func == "COUNT" else None)
+                for func, col in requested_aggs
             }
 
             keys = self._group_keys[group]
-- 
2.43.0


From 7671b21bfacf74d8207fbe0e1d077667c07963aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:32 +0000
Subject: [PATCH 26/72] fix: select several collections

---
 mabel/data/internals/collected_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/collected_set.py b/mabel/data/internals/collected_set.py
index 99361c0..831f48e 100644
--- a/mabel/data/internals/collected_set.py
+++ b/mabel/data/internals/collected_set.py
@@ -111,7 +111,7 @@ class CollectedSet:
             newg = CollectedSet([], None)
             for entry in item:
                 if entry in self._collections:
-                    newg._collections[entry].append(self._collections[entry])
+                    newg._collections[entry] = self._collections[entry]
             return newg
         else:
             return SubCollection(self._collections.get(item))
@@ -133,7 +133,7 @@ class SubCollection:
         Selector access to a value in a collection, support arrays
         """
         if isinstance(item, tuple):
-            return list(self.values.select(*item))
+            return list(self.values.select(item))
         else:
             return self.values.collect_list(item)
 
-- 
2.43.0


From 676427b86fa758e8adaccf23df94e31204b7ef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:07 +0000
Subject: [PATCH 27/72] fix: keep a DictSet its own iterator where it was one

---
 mabel/data/internals/dictset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 7fdaca1..2402cc9 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -117,7 +117,8 @@ class DictSet(object):
         """
         if not hasattr(self._iterator, "__iter__"):  # pragma:no cover
             self._iterator = DumbIterator(self._iterator)
-        return iter(self._iterator)
+        iterator = iter(self._iterator)  # starts at the first record again
+        return self if hasattr(self._iterator, "__next__") else iterator
 
     def __next__(self):
         return next(self._iterator)
-- 
2.43.0


From 9d412bde6848ccc88c6eb0d1849ab979d189352f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:34 +0000
Subject: [PATCH 28/72] fix: read the rest of an expression after a null

---
 mabel/data/internals/expression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index 6c27015..144311b 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -163,6 +163,7 @@ class Expression(object):
                 n = TreeNode(token_type, self.tokenizer.next().lower() == "true")
                 return n
             if token_type == TOKENS.NULL:
+                self.tokenizer.next()
                 n = TreeNode(token_type, None)
                 return n
             if token_type == TOKENS.DATE:
-- 
2.43.0


From cc538cc46d7c494ea24b1f515cda92923267a747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:34 +0000
Subject: [PATCH 29/72] fix: refuse an expression with more after its end

---
 mabel/data/internals/expression.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index 144311b..a00731e 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -47,6 +47,8 @@ class Expression(object):
 
     def parse(self):
         self.root = self.parse_expression()
+        if self.tokenizer.has_next():
+            raise InvalidExpression(f"Unexpected token, got `{self.tokenizer.next()}`")
 
     def parse_expression(self):
         andTerm1 = self.parse_and_term()
-- 
2.43.0


From 31e87adc0f9a5746ee5d8082413d57ef98684b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:34 +0000
Subject: [PATCH 30/72] fix: compare text with text as it is

---
 mabel/data/internals/expression.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index a00731e..a032569 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -243,7 +243,17 @@ class Expression(object):
         right = self.evaluate_recursive(treeNode.right, variable_dict)
 
         if treeNode.token_type == TOKENS.OPERATOR:
+            # text which looks like another type is still text to a text literal
+            text = None
+            if treeNode.left.token_type == TOKENS.VARIABLE:
+                text = variable_dict.get(treeNode.left.value)
+            if isinstance(text, str) and isinstance(right, str):
+                left = text
             try:
+                if isinstance(text, str) and isinstance(right, list):
+                    return OPERATORS[treeNode.value](left, right) or OPERATORS[treeNode.value](
+                        text, right
+                    )
                 return OPERATORS[treeNode.value](left, right)
             except (TypeError, ValueError):
                 return None
-- 
2.43.0


From 002857f5e70623d0be462fc6982275d6efce795f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:34 +0000
Subject: [PATCH 31/72] fix: a null is not like anything, and like reads all of
 the text

---
 mabel/utils/text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mabel/utils/text.py b/mabel/utils/text.py
index 794188d..9261189 100644
--- a/mabel/utils/text.py
+++ b/mabel/utils/text.py
@@ -36,10 +36,12 @@ def _sql_like_fragment_to_regex(fragment):
     """
     # https://codereview.stackexchange.com/a/36864/229677
     safe_fragment = "".join([REGEX_CHARACTERS.get(ch, ch) for ch in fragment])
-    return re.compile("^" + safe_fragment.replace("%", ".*?").replace("_", ".") + "$")
+    return re.compile("^" + safe_fragment.replace("%", ".*?").replace("_", ".") + r"\Z", re.DOTALL)
 
 
 def like(x, y):
+    if x is None:
+        return None
     return _sql_like_fragment_to_regex(y.lower()).match(str(x).lower())
 
 
-- 
2.43.0


From c08ed29e519b736fe91db38d9e13a8ce7788bc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:34 +0000
Subject: [PATCH 32/72] fix: keep quoted text as it is

---
 mabel/utils/token_labeler.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mabel/utils/token_labeler.py b/mabel/utils/token_labeler.py
index 041f4c6..84bf5bb 100644
--- a/mabel/utils/token_labeler.py
+++ b/mabel/utils/token_labeler.py
@@ -19,6 +19,9 @@ from mabel.utils.text import not_like
 # These are the characters we should escape in our regex
 REGEX_CHARACTERS = {ch: "\\" + ch for ch in ".^$*+?{}[]|()\\"}
 
+# text in quotes is never split
+QUOTED_TEXT = r"'[^']*'|\"[^\"]*\"|`[^`]*`"
+
 
 class TokenError(Exception):
     pass
@@ -204,7 +207,7 @@ def build_splitter():
     for item in ["(", ")", "[", "]", ",", "*"]:
         keywords.append("".join([REGEX_CHARACTERS.get(ch, ch) for ch in item]))
     splitter = re.compile(
-        r"(" + r"|".join(keywords) + r")",
+        r"(" + QUOTED_TEXT + r"|" + r"|".join(keywords) + r")",
         re.IGNORECASE,
     )
     return splitter
@@ -302,10 +305,10 @@ class Tokenizer:
 
     def clean_statement(self, string):
         """
-        Remove carriage returns and all whitespace to single spaces
+        Remove carriage returns and all whitespace to single spaces, other than in quotes
         """
-        whitespace_cleaner = re.compile(r"\s+")
-        return whitespace_cleaner.sub(" ", string).strip()
+        whitespace_cleaner = re.compile(QUOTED_TEXT + r"|\s+")
+        return whitespace_cleaner.sub(lambda m: " " if m[0].isspace() else m[0], string).strip()
 
     def tokenize(self, expression):
         expression = self.clean_statement(expression)
-- 
2.43.0


From 50277556628de2939461e311a39e2cac8df4b121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:34 +0000
Subject: [PATCH 33/72] fix: quoted text in a statement is not part of its
 syntax

---
 mabel/data/readers/internals/sql_reader.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 2199ea5..66ad18c 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -23,6 +23,7 @@ from orso.logging import get_logger
 
 from mabel.data.readers.internals.inline_evaluator import Evaluator
 from mabel.data.readers.internals.inline_evaluator import get_function_name
+from mabel.utils.token_labeler import QUOTED_TEXT
 from mabel.utils.token_labeler import TOKENS
 from mabel.utils.token_labeler import Tokenizer
 
@@ -76,7 +77,7 @@ class SqlParser:
 
     def sql_parts(self, string):
         reg = re.compile(
-            r"(\(|\)|,|"
+            r"(" + QUOTED_TEXT + r"|\(|\)|,|"
             + r"|".join([r"\b" + i.replace(r" ", r"\s") + r"\b" for i in SQL_PARTS])
             + r"|\s)",
             re.IGNORECASE,
@@ -86,10 +87,12 @@ class SqlParser:
 
     def clean_statement(self, string):
         """
-        Remove carriage returns and all whitespace to single spaces
+        Remove carriage returns and all whitespace to single spaces, other than in quotes
         """
-        _RE_COMBINE_WHITESPACE = re.compile(r"\s+")
-        return _RE_COMBINE_WHITESPACE.sub(" ", string).strip()
+        _RE_COMBINE_WHITESPACE = re.compile(QUOTED_TEXT + r"|\s+")
+        return _RE_COMBINE_WHITESPACE.sub(
+            lambda m: " " if m[0].isspace() else m[0], string
+        ).strip()
 
     def remove_comments(self, string):
         pattern = r"(\".*?\"|\'.*?\')|(/\*.*?\*/|--[^\r\n]*$)"
-- 
2.43.0


From d2414465dce972ded1c55e1d38312daffa186c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:34 +0000
Subject: [PATCH 34/72] fix: parsing a statement always ends

---
 mabel/data/readers/internals/sql_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 66ad18c..ba36900 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -218,11 +218,12 @@ class SqlParser:
                     "DESC",
                 ):
                     self.order_descending = labeler.next_token_value().upper() == "DESC"
-                if labeler.has_next():
                     labeler.next()
             elif labeler.peek().upper() == "LIMIT":
                 labeler.next()
                 self.limit = int(self.collector(labeler))
+            else:
+                raise InvalidSqlError(f"Invalid statement - unexpected `{labeler.peek()}`.")
 
         # validate inputs (currently only the FROM clause)
         if isinstance(self.dataset, str):
-- 
2.43.0


From 4bcd5ea7e0c621e57aea3ca2ee3598e8f0e785b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:34 +0000
Subject: [PATCH 35/72] fix: a limit of no rows is a limit

---
 mabel/data/readers/internals/sql_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index ba36900..8675b04 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -345,14 +345,14 @@ def SqlReader(sql_statement: str, **kwargs):
     # ORDER BY clause
     if sql.order_by:
         take = 10000  # the Query UI is currently set to 2000
-        if sql.limit:
+        if sql.limit is not None:
             take = int(sql.limit)
         reader = DictSet(
             reader.sort_and_take(column=sql.order_by, take=take, descending=sql.order_descending)
         )
 
     # LIMIT clause
-    if sql.limit:
+    if sql.limit is not None:
         reader = reader.take(sql.limit)
 
     return reader
-- 
2.43.0


From b6f20ec35a4aa22b59b7ad9d47aa27eba9f0ba4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:57 +0000
Subject: [PATCH 36/72] fix: quoted text in a selection is not part of its
 syntax

---
 mabel/data/readers/internals/inline_evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/inline_evaluator.py b/mabel/data/readers/internals/inline_evaluator.py
index 5dd55cf..2a11504 100644
--- a/mabel/data/readers/internals/inline_evaluator.py
+++ b/mabel/data/readers/internals/inline_evaluator.py
@@ -24,6 +24,7 @@ import re
 
 from mabel.data.readers.internals.inline_functions import FUNCTIONS
 from mabel.utils.dates import parse_iso
+from mabel.utils.token_labeler import QUOTED_TEXT
 from mabel.utils.token_labeler import TOKENS
 from mabel.utils.token_labeler import get_token_type
 
@@ -229,7 +230,7 @@ class TokenSet(list):
 
 class Evaluator:
     def __init__(self, proforma):
-        reg = re.compile(r"(\(|\)|,|\bAS\b)", re.IGNORECASE)
+        reg = re.compile(r"(" + QUOTED_TEXT + r"|\(|\)|,|\bAS\b)", re.IGNORECASE)
         tokens = [t.strip() for t in reg.split(proforma) if t.strip() not in ("", ",")]
         self.tokens = build(tokens)
         self._iter = None
-- 
2.43.0


From d7c7e920ebc958a4ae4e191cb1ce88d5286ee3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:57 +0000
Subject: [PATCH 37/72] fix: the last no characters of a text are none

---
 mabel/data/readers/internals/inline_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/inline_functions.py b/mabel/data/readers/internals/inline_functions.py
index 0168559..a02ca1c 100644
--- a/mabel/data/readers/internals/inline_functions.py
+++ b/mabel/data/readers/internals/inline_functions.py
@@ -213,7 +213,7 @@ FUNCTIONS = {
     "LEN": len,
     "STRING": to_string,
     "LEFT": lambda x, y: str(x)[: int(y)],
-    "RIGHT": lambda x, y: str(x)[-int(y) :],
+    "RIGHT": lambda x, y: str(x)[-int(y) :] if int(y) else "",
     "MID": lambda x, y, z: str(x)[int(y) :][: int(z)],
     "CONCAT": concat,
     # NUMBERS
-- 
2.43.0


From e16cbf92ab1830ed45e733ce15c0d81b49d97944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:57 +0000
Subject: [PATCH 38/72] fix: a number which is no date is not a date

---
 mabel/utils/dates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/utils/dates.py b/mabel/utils/dates.py
index 61ffe07..f280d0f 100644
--- a/mabel/utils/dates.py
+++ b/mabel/utils/dates.py
@@ -130,7 +130,7 @@ def parse_iso(
                         )
                     )
         return None
-    except (ValueError, TypeError):
+    except (ValueError, TypeError, OverflowError, OSError):
         return None
 
 
-- 
2.43.0


From 7073b18f202d64d5a8338595ef1c31c15f9d69da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:32 +0000
Subject: [PATCH 39/72] fix: show values of any type in a HTML table, escaped

---
 mabel/data/internals/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/display.py b/mabel/data/internals/display.py
index a999a1c..a6feed2 100644
--- a/mabel/data/internals/display.py
+++ b/mabel/data/internals/display.py
@@ -27,7 +27,7 @@ def html_table(dictset: Iterable[dict], limit: int = 5):
         if hasattr(htmlstring, "items"):
             return sanitize("{ " + ", ".join([f'"{k}": {v}' for k, v in htmlstring.items()]) + " }")
         if not isinstance(htmlstring, str):
-            return htmlstring
+            htmlstring = str(htmlstring)
         escapes = {'"': "&quot;", "'": "&#39;", "<": "&lt;", ">": "&gt;", "$": "&#x24;"}
         # This is done first to prevent escaping other escapes.
         htmlstring = htmlstring.replace("&", "&amp;")
-- 
2.43.0


From 4380b5ac368f09e806844727c1fe66cdf3f66677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:32 +0000
Subject: [PATCH 40/72] fix: show the values of a text table under their
 columns

---
 mabel/data/internals/display.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mabel/data/internals/display.py b/mabel/data/internals/display.py
index a6feed2..340b994 100644
--- a/mabel/data/internals/display.py
+++ b/mabel/data/internals/display.py
@@ -128,7 +128,12 @@ def ascii_table(dictset: Iterable[Dict[Any, Any]], limit: int = 5):
     for row in cache:
         result.append(
             "│"
-            + "│".join([str(format_value(v)).center(columns[k] + 2) for k, v in row.items()])
+            + "│".join(
+                [
+                    (format_value(row[k]) if k in row else "").center(width + 2)
+                    for k, width in columns.items()
+                ]
+            )
             + "│"
         )
 
-- 
2.43.0


From 763e88997cca6a3bb9394a3ba288bb3323eb7898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 41/72] fix: functions of a null give a null

---
 mabel/data/readers/internals/inline_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mabel/data/readers/internals/inline_functions.py b/mabel/data/readers/internals/inline_functions.py
index a02ca1c..64332b4 100644
--- a/mabel/data/readers/internals/inline_functions.py
+++ b/mabel/data/readers/internals/inline_functions.py
@@ -210,14 +210,14 @@ FUNCTIONS = {
     "LCASE": lambda x: str(x).lower(),
     "LOWER": lambda x: str(x).lower(),
     "TRIM": lambda x: str(x).strip(),
-    "LEN": len,
+    "LEN": lambda x: None if x is None else len(x),
     "STRING": to_string,
     "LEFT": lambda x, y: str(x)[: int(y)],
     "RIGHT": lambda x, y: str(x)[-int(y) :] if int(y) else "",
     "MID": lambda x, y, z: str(x)[int(y) :][: int(z)],
     "CONCAT": concat,
     # NUMBERS
-    "ROUND": round,
+    "ROUND": lambda x, *digits: None if x is None else round(x, *digits),
     "TRUNC": parse_number(float, trunc),
     "INTEGER": parse_number(float, int),
     "DOUBLE": parse_number(float, float),
@@ -229,6 +229,6 @@ FUNCTIONS = {
     "MD5": get_md5,
     "RANDOM": get_random,  # return a random number 0-99
     # OTHER
-    "BETWEEN": lambda val, low, high: low < val < high,
-    "SORT": lambda x: sorted(x),
+    "BETWEEN": lambda val, low, high: None if val is None else low < val < high,
+    "SORT": lambda x: None if x is None else sorted(x),
 }
-- 
2.43.0


From 10dd3f7f455d6b40bbc3cebbca991cfa6a281d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:17 +0000
Subject: [PATCH 42/72] fix: select and filter the rows of a subquery

---
 mabel/data/readers/internals/sql_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 8675b04..665dcc4 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -276,6 +276,10 @@ def SqlReader(sql_statement: str, **kwargs):
         # to get back a dataset - which we then use as the
         # dataset for the outer query.
         reader = SqlReader("".join(sql.dataset), **kwargs)
+        if actual_select != "*":
+            reader = DictSet(map(Evaluator(actual_select), reader))
+        if sql.where_expression:
+            reader = reader.filter(sql.where_expression)
     else:
         reader = Reader(
             select=actual_select,
-- 
2.43.0


From 2393f59cc84a2e48ca871a761ea00ba31e517f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:27 +0000
Subject: [PATCH 43/72] fix: a hash is that of the value, not of an equal one
 of another type

---
 mabel/data/readers/internals/inline_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/inline_functions.py b/mabel/data/readers/internals/inline_functions.py
index 64332b4..42f4061 100644
--- a/mabel/data/readers/internals/inline_functions.py
+++ b/mabel/data/readers/internals/inline_functions.py
@@ -182,7 +182,7 @@ def parse_number(parser, coerce):
     return inner
 
 
-@lru_cache(8)
+@lru_cache(8, typed=True)
 def get_md5(item):
     import hashlib
 
-- 
2.43.0


From 0c07ddb56c4487004e9d0acbe608b93d475d1fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:09 +0000
Subject: [PATCH 44/72] fix: read the last line of a zstandard file without a
 line end

---
 mabel/data/readers/internals/decompressors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/decompressors.py b/mabel/data/readers/internals/decompressors.py
index 00fc9ae..9b7f83f 100644
--- a/mabel/data/readers/internals/decompressors.py
+++ b/mabel/data/readers/internals/decompressors.py
@@ -8,7 +8,7 @@ def zstd(stream):
     import zstandard  # type:ignore
 
     with zstandard.open(stream, "rb") as file:  # type:ignore
-        yield from file.read().split(b"\n")[:-1]
+        yield from (line for line in file.read().split(b"\n") if line)
 
 
 def lzma(stream):
-- 
2.43.0


From 3b5e3d8d61df3e288f92174379c1af3fe6c93eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:09 +0000
Subject: [PATCH 45/72] fix: a value in a CSV file can have line ends

---
 mabel/data/readers/internals/decompressors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/decompressors.py b/mabel/data/readers/internals/decompressors.py
index 9b7f83f..808f16d 100644
--- a/mabel/data/readers/internals/decompressors.py
+++ b/mabel/data/readers/internals/decompressors.py
@@ -73,5 +73,6 @@ def block(stream):
 
 def csv(stream):
     import csv
+    import io
 
-    yield from csv.DictReader(stream.read().decode("utf8").splitlines())
+    yield from csv.DictReader(io.StringIO(stream.read().decode("utf8"), newline=""))
-- 
2.43.0


From a95a53c7c588c14d5473d0d6a22c2085ec6544e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:10 +0000
Subject: [PATCH 46/72] fix: refuse to write to a dataset named like the dead
 letters, which are not read

---
 mabel/data/writers/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/writers/writer.py b/mabel/data/writers/writer.py
index 57ff917..650bf16 100644
--- a/mabel/data/writers/writer.py
+++ b/mabel/data/writers/writer.py
@@ -45,7 +45,7 @@ class Writer:
         dataset = kwargs.get("dataset", "")
 
         if "BACKOUT" in dataset:
-            InvalidDataSetError("BACKOUT is a reserved word and cannot be used in Dataset names")
+            raise InvalidDataSetError("BACKOUT is a reserved word and cannot be used in Dataset names")
         if dataset.endswith("/"):
             InvalidDataSetError("Dataset names cannot end with /")
         if "{" in dataset or "}" in dataset:
-- 
2.43.0


From 64bd977f36e98c35128d3251493d2419aba0c71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:24 +0000
Subject: [PATCH 47/72] fix: only text in quotes loses its quotes, a list can
 also be in a field

---
 mabel/utils/token_labeler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/utils/token_labeler.py b/mabel/utils/token_labeler.py
index 84bf5bb..7b0b2fd 100644
--- a/mabel/utils/token_labeler.py
+++ b/mabel/utils/token_labeler.py
@@ -45,7 +45,8 @@ def interpret_value(value):
     except ValueError:
         pass
 
-    value = value[1:-1]
+    if value[:1] == value[-1:] and value[:1] in ("'", '"') and len(value) > 1:
+        value = value[1:-1]
     return parse_iso(value) or value
 
 
-- 
2.43.0


From 7669c7aa926ce85b28cb4d1f01b747305631e4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:24 +0000
Subject: [PATCH 48/72] fix: text is compared as text when the field is on the
 right

---
 mabel/data/internals/expression.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index a032569..5392a10 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -244,11 +244,14 @@ class Expression(object):
 
         if treeNode.token_type == TOKENS.OPERATOR:
             # text which looks like another type is still text to a text literal
-            text = None
-            if treeNode.left.token_type == TOKENS.VARIABLE:
-                text = variable_dict.get(treeNode.left.value)
+            text, other = [
+                variable_dict.get(node.value) if node.token_type == TOKENS.VARIABLE else None
+                for node in (treeNode.left, treeNode.right)
+            ]
             if isinstance(text, str) and isinstance(right, str):
                 left = text
+            elif isinstance(other, str) and isinstance(left, str):
+                right = other
             try:
                 if isinstance(text, str) and isinstance(right, list):
                     return OPERATORS[treeNode.value](left, right) or OPERATORS[treeNode.value](
-- 
2.43.0


From 3f0296d517cf01bd8520d7296d2fb3a6dc027c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:24 +0000
Subject: [PATCH 49/72] fix: the type of a column without values is empty

---
 mabel/data/internals/dictset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 2402cc9..f787daf 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -187,7 +187,7 @@ class DictSet(object):
             key_type = {type(val).__name__ for val in top.collect_list(key) if val != None}
             if len(key_type) == 0:  # pragma: no cover
                 response[key] = "empty"
-            if len(key_type) == 1:
+            elif len(key_type) == 1:
                 response[key] = key_type.pop()
             elif sorted(key_type) == ["float", "int"]:
                 response[key] = "numeric"
-- 
2.43.0


From d6e0f05c3117b7b0f7d102813bccd86743ab6e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:16 +0000
Subject: [PATCH 50/72] fix: types reads its rows more than once, keep them

---
 mabel/data/internals/dictset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index f787daf..f4d1a56 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -181,7 +181,7 @@ class DictSet(object):
         )
 
     def types(self, number_of_rows: int = 100):
-        top = self.take(number_of_rows)
+        top = DictSet(list(self.itake(number_of_rows)))
         response = {}
         for key in top.keys():
             key_type = {type(val).__name__ for val in top.collect_list(key) if val != None}
-- 
2.43.0


From ff76d4c226dfed739885206b7fe728443b2dfd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:38 +0000
Subject: [PATCH 51/72] fix: a partition filter also works for numbers and
 fields with an underscore

---
 mabel/data/readers/internals/base_inner_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index 79b6e3a..7f2ce45 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -125,8 +125,8 @@ class BaseInnerReader(abc.ABC):
                         raise NotImplementedError(
                             "`partition_filter` operation can only be equals (`=`)"
                         )
-                    partition_filter_field = text.sanitize(partition_filter_field)
-                    partition_filter_value = text.sanitize(partition_filter_value)
+                    # the same as is done to the values when writing
+                    partition_filter_value = text.sanitize(str(partition_filter_value))
                     partition_filter = f"/by_{partition_filter_field}/{partition_filter_field}={partition_filter_value}/"
 
                     # If we can find the partition in the folder set, then prune to it
-- 
2.43.0


From ebcbdbc98958df2eb6cbcc79fca5a8eb865bf0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:40 +0000
Subject: [PATCH 52/72] fix: a column selected under two names, or under the
 name of another

---
 mabel/data/readers/internals/sql_reader.py | 24 +++++++++++-----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 665dcc4..6fb10d3 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -289,6 +289,7 @@ def SqlReader(sql_statement: str, **kwargs):
         )
 
     # GROUP BY clause
+    grouped = None
     if sql.group_by or any(
         [t["type"] == TOKENS.AGGREGATOR for t in sql.select_evaluator.tokens]  # type:ignore
     ):
@@ -327,18 +328,17 @@ def SqlReader(sql_statement: str, **kwargs):
         reader = reader.filter(sql.having)
 
     # SELECT clause
-    renames = {}  # type:ignore
-    for t in sql.select_evaluator.tokens:  # type:ignore
-        if t["as"]:
-            renames[get_function_name(t)] = t["as"]
-
-    def _perform_renames(row):
-        for k, v in [(k, v) for k, v in row.items()]:
-            if k in renames:
-                row[renames[k]] = row.pop(k, row.get(renames[k]))
-        return row
-
-    if renames:
+    # columns got their new names when they were read, groups and aggregates didn't
+    if grouped is not None:
+        renames = [
+            (t["as"], get_function_name(t))
+            for t in sql.select_evaluator.tokens  # type:ignore
+            if t["as"]
+        ]
+
+        def _perform_renames(row):
+            return {**row, **{name: row[column] for name, column in renames if column in row}}
+
         reader = DictSet(map(_perform_renames, reader))
 
     reader = reader.select(sql.select_evaluator.fields())  # type:ignore
-- 
2.43.0


From 8586e5500786206bb803cd39c3defe261f71b353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:40 +0000
Subject: [PATCH 53/72] fix: ORDER BY a column which isn't selected

---
 mabel/data/readers/internals/sql_reader.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 6fb10d3..ed31de9 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -341,10 +341,9 @@ def SqlReader(sql_statement: str, **kwargs):
 
         reader = DictSet(map(_perform_renames, reader))
 
-    reader = reader.select(sql.select_evaluator.fields())  # type:ignore
-    # distinct now we have only the columns we're interested in
+    # distinct is of only the columns we're interested in
     if sql.distinct:
-        reader = reader.distinct()
+        reader = reader.select(sql.select_evaluator.fields()).distinct()  # type:ignore
 
     # ORDER BY clause
     if sql.order_by:
@@ -355,6 +354,9 @@ def SqlReader(sql_statement: str, **kwargs):
             reader.sort_and_take(column=sql.order_by, take=take, descending=sql.order_descending)
         )
 
+    # select now, the rows may be in the order of a column which isn't selected
+    reader = reader.select(sql.select_evaluator.fields())  # type:ignore
+
     # LIMIT clause
     if sql.limit is not None:
         reader = reader.take(sql.limit)
-- 
2.43.0


From 190156e6af9d0fb7a4404fc128c8352d48f96743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:53 +0000
Subject: [PATCH 54/72] fix: constants of a selection have the name given to
 them

---
 mabel/data/readers/internals/inline_evaluator.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mabel/data/readers/internals/inline_evaluator.py b/mabel/data/readers/internals/inline_evaluator.py
index 2a11504..c1d17e9 100644
--- a/mabel/data/readers/internals/inline_evaluator.py
+++ b/mabel/data/readers/internals/inline_evaluator.py
@@ -72,7 +72,8 @@ def get_fields(tokens):
                 TOKENS.LITERAL,
                 TOKENS.DATE,
                 TOKENS.FLOAT,
-                TOKENS.DATE,
+                TOKENS.BOOLEAN,
+                TOKENS.NULL,
             ):
                 if token["as"]:
                     yield token["as"]
@@ -161,32 +162,32 @@ def evaluate_field(dict, token):
         )
     if token_type == TOKENS.FLOAT:
         return (
-            token["value"],
+            token["as"] or token["value"],
             float(token["value"]),
         )
     if token_type == TOKENS.INTEGER:
         return (
-            token["value"],
+            token["as"] or token["value"],
             int(token["value"]),
         )
     if token_type == TOKENS.LITERAL:
         return (
-            token["value"],
+            token["as"] or token["value"],
             str(token["value"])[1:-1],
         )
     if token_type == TOKENS.DATE:
         return (
-            token["value"],
+            token["as"] or token["value"],
             parse_iso(token["value"][1:-1]),
         )
     if token_type == TOKENS.BOOLEAN:
         return (
-            token["value"],
+            token["as"] or token["value"],
             str(token["value"]).upper() == "TRUE",
         )
     if token_type == TOKENS.NULL:
         return (
-            token["value"],
+            token["as"] or token["value"],
             None,
         )
     return (
-- 
2.43.0


From 20f4e45b93ab709d5be5412e7bfbddbec25990cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:53 +0000
Subject: [PATCH 55/72] fix: the text functions of a null are null, not the
 text None

---
 .../readers/internals/inline_functions.py     | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/mabel/data/readers/internals/inline_functions.py b/mabel/data/readers/internals/inline_functions.py
index 42f4061..a87f28c 100644
--- a/mabel/data/readers/internals/inline_functions.py
+++ b/mabel/data/readers/internals/inline_functions.py
@@ -143,6 +143,8 @@ def concat(*items):
 
 
 def to_string(val):
+    if val is None:
+        return None
     if isinstance(val, (list, tuple, set)):
         return concat(val)
     if hasattr(val, "mini"):
@@ -173,6 +175,19 @@ def diff_days(start_date, end_date):
     return None
 
 
+def of_text(function):
+    """
+    Functions of text have no value for a null, other values are taken as text
+    """
+
+    def inner(val, *args):
+        if val is None:
+            return None
+        return function(str(val), *args)
+
+    return inner
+
+
 def parse_number(parser, coerce):
     def inner(val):
         if val is None:
@@ -205,16 +220,16 @@ FUNCTIONS = {
     "ADDDAYS": add_days,
     "DAYSDIFF": diff_days,
     # STRINGS
-    "UCASE": lambda x: str(x).upper(),
-    "UPPER": lambda x: str(x).upper(),
-    "LCASE": lambda x: str(x).lower(),
-    "LOWER": lambda x: str(x).lower(),
-    "TRIM": lambda x: str(x).strip(),
+    "UCASE": of_text(str.upper),
+    "UPPER": of_text(str.upper),
+    "LCASE": of_text(str.lower),
+    "LOWER": of_text(str.lower),
+    "TRIM": of_text(str.strip),
     "LEN": lambda x: None if x is None else len(x),
     "STRING": to_string,
-    "LEFT": lambda x, y: str(x)[: int(y)],
-    "RIGHT": lambda x, y: str(x)[-int(y) :] if int(y) else "",
-    "MID": lambda x, y, z: str(x)[int(y) :][: int(z)],
+    "LEFT": of_text(lambda x, y: x[: int(y)]),
+    "RIGHT": of_text(lambda x, y: x[-int(y) :] if int(y) else ""),
+    "MID": of_text(lambda x, y, z: x[int(y) :][: int(z)]),
     "CONCAT": concat,
     # NUMBERS
     "ROUND": lambda x, *digits: None if x is None else round(x, *digits),
-- 
2.43.0


From beccedb882e0f68873a87346ff77aaade1002c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:19 +0000
Subject: [PATCH 56/72] fix: a function which isn't known is refused, not
 selected as columns of its name and brackets

---
 mabel/data/readers/internals/inline_evaluator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mabel/data/readers/internals/inline_evaluator.py b/mabel/data/readers/internals/inline_evaluator.py
index c1d17e9..87beb81 100644
--- a/mabel/data/readers/internals/inline_evaluator.py
+++ b/mabel/data/readers/internals/inline_evaluator.py
@@ -122,6 +122,9 @@ def build(tokens):
 
             token["parameters"] = build(collector)
 
+        elif token["type"] in (TOKENS.LEFTPARENTHESES, TOKENS.RIGHTPARENTHESES):
+            raise InvalidEvaluator(f"Unexpected `{token['value']}`, it isn't after a known function")
+
         if not ts.finished() and ts.token()["type"] == TOKENS.AS:
             ts.step()
             if ts.finished():
-- 
2.43.0


From cfe779e16618cce429df3ad50c232a889bfabf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:10 +0000
Subject: [PATCH 57/72] fix: models of any name can be appended to writers, not
 only those with BaseModel in theirs

---
 mabel/data/writers/database_writer.py | 10 +++++-----
 mabel/data/writers/writer.py          | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/mabel/data/writers/database_writer.py b/mabel/data/writers/database_writer.py
index 28519ed..d3426ce 100644
--- a/mabel/data/writers/database_writer.py
+++ b/mabel/data/writers/database_writer.py
@@ -86,11 +86,11 @@ class DatabaseWriter:
             integer
                 The number of records in the current blob
         """
-        if "BaseModel" in str(type(record)):
-            if hasattr(record, "dict"):
-                record = record.dict()  # type.ignore
-            if hasattr(record, "model_dump"):
-                record = record.model_dump()  # type:ignore
+        # the models of users have names of their own, they're known by their methods
+        if hasattr(record, "model_dump"):
+            record = record.model_dump()  # type:ignore
+        elif hasattr(record, "dict"):
+            record = record.dict()  # type:ignore
 
         if self.expectations:
             import data_expectations as de  # type: ignore
diff --git a/mabel/data/writers/writer.py b/mabel/data/writers/writer.py
index 650bf16..c2a3f14 100644
--- a/mabel/data/writers/writer.py
+++ b/mabel/data/writers/writer.py
@@ -128,11 +128,11 @@ class Writer:
             integer
                 The number of records in the current blob
         """
-        if "BaseModel" in str(type(record)):
-            if hasattr(record, "dict"):
-                record = record.dict()  # type.ignore
-            if hasattr(record, "model_dump"):
-                record = record.model_dump()  # type:ignore
+        # the models of users have names of their own, they're known by their methods
+        if hasattr(record, "model_dump"):
+            record = record.model_dump()  # type:ignore
+        elif hasattr(record, "dict"):
+            record = record.dict()  # type:ignore
 
         if self.expectations:
             import data_expectations as de  # type: ignore
-- 
2.43.0


From a361ca3f8f346020048e3c75edd31efebe27c61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:48 +0000
Subject: [PATCH 58/72] fix: csv files with fields longer than 128kb are read,
 rather than given up on

---
 mabel/data/readers/internals/decompressors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/readers/internals/decompressors.py b/mabel/data/readers/internals/decompressors.py
index 808f16d..ae57b42 100644
--- a/mabel/data/readers/internals/decompressors.py
+++ b/mabel/data/readers/internals/decompressors.py
@@ -75,4 +75,6 @@ def csv(stream):
     import csv
     import io
 
+    # fields are as long as they are, the default limit is 128kb
+    csv.field_size_limit(2**31 - 1)
     yield from csv.DictReader(io.StringIO(stream.read().decode("utf8"), newline=""))
-- 
2.43.0


From 9a9085a942604c2bd432173712de522a466860b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:15 +0000
Subject: [PATCH 59/72] fix: name blobs by the process which writes them, also
 after a fork

---
 mabel/data/writers/internals/base_inner_writer.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mabel/data/writers/internals/base_inner_writer.py b/mabel/data/writers/internals/base_inner_writer.py
index b424d4c..a465a28 100644
--- a/mabel/data/writers/internals/base_inner_writer.py
+++ b/mabel/data/writers/internals/base_inner_writer.py
@@ -11,7 +11,6 @@ import os
 import threading
 import time
 import uuid
-from functools import lru_cache
 
 from mabel.utils import paths
 
@@ -55,7 +54,6 @@ class BaseInnerWriter(abc.ABC):
         blob_id = f"{_next_stamp():x}-{self._get_node()}"
         return self.filename.replace(STEM, f"{blob_id}")
 
-    @lru_cache(1)
     def _get_node(self):
         return f"{uuid.getnode():x}-{os.getpid():x}"
 
-- 
2.43.0


From 652614931e56dd0d5ae186cc8875c419cc821e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:23 +0000
Subject: [PATCH 60/72] fix: histograms of one bin and of large numbers

---
 mabel/data/internals/histogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/histogram.py b/mabel/data/internals/histogram.py
index 225ce65..434e577 100644
--- a/mabel/data/internals/histogram.py
+++ b/mabel/data/internals/histogram.py
@@ -11,10 +11,10 @@ class Histogram:
         self.bins = [0] * number_of_bins
         mn = min(values)
         mx = max(values)
-        interval = ((1 + mx) - mn) / (number_of_bins - 1)
+        interval = ((mx - mn) + 1) / max(number_of_bins - 1, 1)
 
         for v in values:
-            self.bins[int((v - mn) / interval)] += 1
+            self.bins[min(int((v - mn) / interval), number_of_bins - 1)] += 1
 
     def __repr__(self):
         """
-- 
2.43.0


From 1f95f642e1d21388202a3d28dc2d418497eb2081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:55 +0000
Subject: [PATCH 61/72] fix: a histogram shows a bar for bins of few values

---
 mabel/data/internals/histogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/histogram.py b/mabel/data/internals/histogram.py
index 434e577..3215c12 100644
--- a/mabel/data/internals/histogram.py
+++ b/mabel/data/internals/histogram.py
@@ -30,7 +30,7 @@ class Histogram:
             if value == 0:
                 histogram += BAR_CHARS[0]
             else:
-                height = int(value / bar_height)
+                height = max(1, int(value / bar_height))
                 histogram += BAR_CHARS[height]
 
         return f">{histogram}<"
-- 
2.43.0


From 4961bfdec6b1161405d77d1e76844fc5962c2cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:32 +0000
Subject: [PATCH 62/72] fix: collections without duplicates of rows with lists

---
 mabel/data/internals/collected_set.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mabel/data/internals/collected_set.py b/mabel/data/internals/collected_set.py
index 831f48e..3dbb604 100644
--- a/mabel/data/internals/collected_set.py
+++ b/mabel/data/internals/collected_set.py
@@ -32,8 +32,10 @@ class CollectedSet:
             key = my_item.pop(column, None)
             collections.setdefault(key, []).append(my_item)
         if dedupe:
+            # the values may not be hashable
             collections = {
-                k: {frozenset(i.items()): i for i in v}.values() for k, v in collections.items()
+                k: {frozenset((f, repr(x)) for f, x in i.items()): i for i in v}.values()
+                for k, v in collections.items()
             }
 
         self._collections = collections
-- 
2.43.0


From c54c80b168234c4969da8072bdaadd7bceb8260f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:32 +0000
Subject: [PATCH 63/72] fix: aggregates of columns with nulls

---
 mabel/data/internals/dictset.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index f4d1a56..bbb7d77 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -195,6 +195,10 @@ class DictSet(object):
                 response[key] = "mixed"
         return response
 
+    def _values(self, key: str):
+        """the values of a column, nulls aren't values"""
+        return [value for value in self.collect_list(key) if value is not None]
+
     def max(self, key: str):
         """
         Find the maximum in a column of this _DictSet_.
@@ -203,7 +207,7 @@ class DictSet(object):
             key: string
                 The column to perform the function on
         """
-        return reduce(max, self.collect_list(key))
+        return reduce(max, self._values(key))
 
     def sum(self, key: str):
         """
@@ -213,7 +217,7 @@ class DictSet(object):
             key: string
                 The column to perform the function on
         """
-        return reduce(lambda x, y: x + y, self.collect_list(key), 0)
+        return reduce(lambda x, y: x + y, self._values(key), 0)
 
     def min(self, key: str):
         """
@@ -223,7 +227,7 @@ class DictSet(object):
             key: string
                 The column to perform the function on
         """
-        return reduce(min, self.collect_list(key))
+        return reduce(min, self._values(key))
 
     def min_max(self, key: str):
         """
@@ -240,7 +244,7 @@ class DictSet(object):
         def minmax(a, b):
             return min(a[0], b[0]), max(a[1], b[1])
 
-        return reduce(minmax, map(lambda x: (x, x), self.collect_list(key)))
+        return reduce(minmax, map(lambda x: (x, x), self._values(key)))
 
     def mean(self, key: str):
         """
@@ -250,7 +254,7 @@ class DictSet(object):
             key: string
                 The column to perform the function on
         """
-        return statistics.mean(self.collect_list(key))
+        return statistics.mean(self._values(key))
 
     def variance(self, key: str):
         """
@@ -260,7 +264,7 @@ class DictSet(object):
             key: string
                 The column to perform the function on
         """
-        return statistics.variance(self.collect_list(key))
+        return statistics.variance(self._values(key))
 
     def standard_deviation(self, key: str):
         """
@@ -270,7 +274,7 @@ class DictSet(object):
             key: string
                 The column to perform the function on
         """
-        return statistics.stdev(self.collect_list(key))
+        return statistics.stdev(self._values(key))
 
     def count(self):
         """
-- 
2.43.0


From a94f5db8b0f1d4f41f707009980773e298fd2f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:10 +0000
Subject: [PATCH 64/72] fix: text with blanks, underscores or foreign digits in
 it is no date

---
 mabel/utils/dates.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mabel/utils/dates.py b/mabel/utils/dates.py
index f280d0f..4bd84f8 100644
--- a/mabel/utils/dates.py
+++ b/mabel/utils/dates.py
@@ -40,6 +40,13 @@ def parse_delta(delta: str) -> datetime.timedelta:
     return datetime.timedelta(seconds=0)
 
 
+def to_number(digits: str) -> int:
+    """int also accepts blanks, signs, underscores and digits of other scripts"""
+    if digits.isascii() and digits.isdigit():
+        return int(digits)
+    raise ValueError(f"`{digits}` is not a number")
+
+
 def parse_iso(
     value: Union[str, int, float, datetime.datetime, datetime.date],
 ) -> Optional[datetime.datetime]:
@@ -96,7 +103,7 @@ def parse_iso(
                 return None
             if val_len == 10:
                 # YYYY-MM-DD
-                return datetime.datetime(*map(int, [value[:4], value[5:7], value[8:10]]))
+                return datetime.datetime(*map(to_number, [value[:4], value[5:7], value[8:10]]))
             if val_len >= 16:
                 if not (value[10] in ("T", " ") and value[13] in DATE_SEPARATORS):
                     return None
@@ -104,7 +111,7 @@ def parse_iso(
                     # YYYY-MM-DD HH:MM:SS
                     return datetime.datetime(
                         *map(  # type:ignore
-                            int,
+                            to_number,
                             [
                                 value[:4],  # YYYY
                                 value[5:7],  # MM
@@ -119,7 +126,7 @@ def parse_iso(
                     # YYYY-MM-DD HH:MM
                     return datetime.datetime(
                         *map(  # type:ignore
-                            int,
+                            to_number,
                             [
                                 value[:4],
                                 value[5:7],
-- 
2.43.0


From 7221d4c0952f768d27ffc3337b20a3b7dfcb1f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:19 +0000
Subject: [PATCH 65/72] fix: the code shown around an error in the first lines
 started with the last line as line 0

---
 mabel/errors/render_error_stack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/errors/render_error_stack.py b/mabel/errors/render_error_stack.py
index 2b3aa5b..b7c952d 100644
--- a/mabel/errors/render_error_stack.py
+++ b/mabel/errors/render_error_stack.py
@@ -123,7 +123,7 @@ def _read_from_code(filename: str, line: int, extend_by: int) -> Generator:
             code = code_file.read()
 
         lines = code.splitlines()
-        start_line = max(line - extend_by, 0)
+        start_line = max(line - extend_by, 1)
         end_line = min(line + extend_by + 1, len(lines) + 1)
 
         path = pathlib.Path(filename)
-- 
2.43.0


From 1b0301c0a10562dbb88195103967f970c54d6a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:57 +0000
Subject: [PATCH 66/72] fix: a record a parquet file refuses is not counted as
 stored

---
 mabel/data/writers/internals/blob_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/writers/internals/blob_writer.py b/mabel/data/writers/internals/blob_writer.py
index 2ad72a9..657b0e7 100644
--- a/mabel/data/writers/internals/blob_writer.py
+++ b/mabel/data/writers/internals/blob_writer.py
@@ -53,8 +53,8 @@ class BlobWriter(object):
             self.append = self.text_append
 
     def arrow_append(self, record: dict = {}):
-        self.records_in_buffer += 1
         self.wal.append(record)  # type:ignore
+        self.records_in_buffer += 1
         # if this write would exceed the blob size, close it
         if self.wal.nbytes() > self.maximum_blob_size:
             self.commit()
-- 
2.43.0


From 760d95ad479ee11153203fe033a8d52208b4cfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:57 +0000
Subject: [PATCH 67/72] fix: records which break the schema were lost by a
 stream writer of parquet files

---
 mabel/data/writers/internals/writer_pool.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mabel/data/writers/internals/writer_pool.py b/mabel/data/writers/internals/writer_pool.py
index 8e0b2d1..a5bddf6 100644
--- a/mabel/data/writers/internals/writer_pool.py
+++ b/mabel/data/writers/internals/writer_pool.py
@@ -40,11 +40,15 @@ class WriterPool:
             return writer.get("writer")
 
     def create_writer(self, identity):
+        kwargs = self.kwargs
+        if identity.endswith("/BACKOUT/") and kwargs.get("format") == "parquet":
+            # parquet files can only hold records which conform to the schema
+            kwargs = {**kwargs, "format": "zstd"}
         # instantiate a new writer
         new_writer = {
             "identity": identity,
             "last_access": time.time(),
-            "writer": BlobWriter(dataset=identity, **self.kwargs),
+            "writer": BlobWriter(dataset=identity, **kwargs),
         }
         return new_writer
 
-- 
2.43.0


From ce9d0c932f6644d314dde7eaa4d8910413f32043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:15 +0000
Subject: [PATCH 68/72] fix: a blank line ended the reading of a file of lines

---
 mabel/data/readers/internals/decompressors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mabel/data/readers/internals/decompressors.py b/mabel/data/readers/internals/decompressors.py
index ae57b42..cc69ac7 100644
--- a/mabel/data/readers/internals/decompressors.py
+++ b/mabel/data/readers/internals/decompressors.py
@@ -8,7 +8,7 @@ def zstd(stream):
     import zstandard  # type:ignore
 
     with zstandard.open(stream, "rb") as file:  # type:ignore
-        yield from (line for line in file.read().split(b"\n") if line)
+        yield from (line for line in file.read().split(b"\n") if line.strip())
 
 
 def lzma(stream):
@@ -19,7 +19,7 @@ def lzma(stream):
     import lzma
 
     with lzma.open(stream, "rb") as file:  # type:ignore
-        yield from file
+        yield from (line for line in file if line.strip())
 
 
 def unzip(stream):
@@ -64,7 +64,7 @@ def lines(stream):
     Default reader, assumes text format
     """
     text = stream.read()  # type:ignore
-    yield from text.splitlines()
+    yield from (line for line in text.splitlines() if line.strip())
 
 
 def block(stream):
-- 
2.43.0


From f03cf1b776312b3133800d5f35f1e640fbda2e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:34 +0000
Subject: [PATCH 69/72] fix: records without fields were dropped by a read
 without a filter

---
 mabel/data/readers/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/reader.py b/mabel/data/readers/reader.py
index c61ef60..5cada2c 100644
--- a/mabel/data/readers/reader.py
+++ b/mabel/data/readers/reader.py
@@ -15,6 +15,7 @@ from mabel.data.readers.internals.multiprocess_wrapper import processed_reader
 from mabel.data.readers.internals.parallel_reader import EXTENSION_TYPE
 from mabel.data.readers.internals.parallel_reader import KNOWN_EXTENSIONS
 from mabel.data.readers.internals.parallel_reader import ParallelReader
+from mabel.data.readers.internals.parallel_reader import no_filter
 from mabel.data.readers.internals.parallel_reader import pass_thru
 from mabel.errors import DataNotFoundError
 from mabel.errors import InvalidCombinationError
@@ -269,7 +270,7 @@ class _LowLevelReader(object):
         parallel = ParallelReader(
             reader=self.reader_class,
             columns=self.select,
-            filters=self.filters or pass_thru,
+            filters=self.filters or no_filter,
             override_format=self.override_format,
         )
 
-- 
2.43.0


From 37f4ddc9507b67415a356b5c37a6deb8e97838ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:58 +0000
Subject: [PATCH 70/72] fix: frames of partitions were mixed in datasets under
 a folder named like a partition

---
 mabel/data/readers/internals/base_inner_reader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index 7f2ce45..6db0bbf 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -103,9 +103,12 @@ class BaseInnerReader(abc.ABC):
                 cycle_blobs = [blob for blob in cycle_blobs if "BACKOUT" not in blob]
 
                 # The partitions are stored in folders with the prefix 'by_', as in,
-                # partitioned **by** field name
+                # partitioned **by** field name - folders above the data can be named
+                # like this too
                 list_of_partitions = {
-                    self._extract_by(blob) for blob in cycle_blobs if "/by_" in blob
+                    self._extract_by(blob.split(f"{cycle_path}/")[-1]) or self._extract_by(blob)
+                    for blob in cycle_blobs
+                    if "/by_" in blob
                 }
 
                 # If we've been provided a partition_filter search hint, try to use this
-- 
2.43.0


From 6135939cb5b15c11b4c0385ad30b5ec0e2086f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:16 +0000
Subject: [PATCH 71/72] fix: data of a partition whose value holds the word
 BACKOUT was not read

---
 mabel/data/readers/internals/base_inner_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index 6db0bbf..b04869e 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -100,7 +100,7 @@ class BaseInnerReader(abc.ABC):
 
                 # Remove any BACKOUT data - this is essentially a DEAD LETTER queue
                 # so we don't want to include in when reading
-                cycle_blobs = [blob for blob in cycle_blobs if "BACKOUT" not in blob]
+                cycle_blobs = [blob for blob in cycle_blobs if "/BACKOUT/" not in blob]
 
                 # The partitions are stored in folders with the prefix 'by_', as in,
                 # partitioned **by** field name - folders above the data can be named
-- 
2.43.0


From 340e4bcae3d8f9b779a9eb45c400019ff39cf2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:16 +0000
Subject: [PATCH 72/72] fix: datasets with as_at_ within the name of a folder
 could not be read

---
 mabel/data/readers/internals/base_inner_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index b04869e..3d849d7 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -181,8 +181,10 @@ class BaseInnerReader(abc.ABC):
 
                     # Work out if there's an as_at part
                     as_ats = {
-                        self._extract_as_at(blob) for blob in partitioned_blobs if "as_at_" in blob
-                    }
+                        self._extract_as_at(blob.split(f"{cycle_path}/")[-1])
+                        or self._extract_as_at(blob)
+                        for blob in partitioned_blobs
+                    } - {""}
                     if as_ats:
                         as_ats = sorted(as_ats)
                         as_at = as_ats.pop()
-- 
2.43.0

