From 9f06f0106ad82f73d594d7a39027e7fb24342d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 01/66] fix: leave out keys without data when iterating over
 trains

trains() gave empty arrays for keys with no entries in a train, where
train_from_id() and the documentation leave the keys out.
---
 karabo_data/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 6cd3495..204a1d7 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1282,6 +1282,8 @@ class TrainIterator:
                 group = key.partition('.')[0]
                 firsts, counts = file.get_index(source, group)
                 first, count = firsts[pos], counts[pos]
+                if not count:
+                    continue
                 if count == 1:
                     source_data[key] = ds[first]
                 else:
-- 
2.43.0


From 7886349ba219ec63ea83266aec27a008ad9c8157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 02/66] fix: select trains by ID with slice bounds in a gap

A start or stop train ID inside the range of the data, but not itself
recorded, raised TypeError because train IDs are kept in a list.
---
 karabo_data/read_machinery.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index 855bc35..e480550 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -2,6 +2,7 @@
 
 The public API is in karabo_data.reader; this is internal code.
 """
+from bisect import bisect_right
 from collections import defaultdict
 from glob import iglob
 import logging
@@ -84,7 +85,7 @@ def _tid_to_slice_ix(tid, train_ids, stop=False):
     else:
         # This train ID is within the run, but doesn't have an entry.
         # Find the first ID in the run greater than the one given.
-        return (train_ids > tid).nonzero()[0][0]
+        return bisect_right(train_ids, tid)
 
 
 class DataChunk:
-- 
2.43.0


From 751a3e9f06eea48fe6f9a4832922b781bc48d597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 03/66] fix: get_array with an empty region of interest

h5py's read_direct() fails with ZeroDivisionError for empty selections.
---
 karabo_data/reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 204a1d7..11886c2 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -698,8 +698,12 @@ class DataCollection:
                 self._expand_trainids(chunk.counts, chunk.train_ids)
             )
 
+            dest = res[dest_slice]
+            if dest.size == 0:
+                continue  # Empty region of interest: h5py can't read this
+
             slices = (chunk.slice,) + roi
-            chunk.dataset.read_direct(res[dest_slice], source_sel=slices)
+            chunk.dataset.read_direct(dest, source_sel=slices)
 
         # Dimension labels
         if extra_dims is None:
-- 
2.43.0


From 81f83f7d0b64d1ef2544cfde038a0434b2ce0b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 04/66] fix: read data from runs including files with no trains

contiguous_regions() raised IndexError for an empty array.
---
 karabo_data/read_machinery.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index e480550..475107f 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -125,6 +125,9 @@ def contiguous_regions(condition):
     a 2D array where the first column is the start index of the region and the
     second column is the end index."""
 
+    if condition.size == 0:
+        return np.zeros((0, 2), dtype=np.intp)
+
     # Find the indicies of changes in "condition"
     d = np.diff(condition)
     idx, = d.nonzero()
-- 
2.43.0


From b1bfea94685ef2c4c4eca095cd3bec4bc21c777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 05/66] fix: get_data_counts for control sources

It passed the array of train IDs as the shape for np.ones().
---
 karabo_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 11886c2..83d539a 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -498,7 +498,7 @@ class DataCollection:
 
         for f in self._source_index[source]:
             if source in self.control_sources:
-                counts = np.ones(f.train_ids, dtype=np.uint64)
+                counts = np.ones(len(f.train_ids), dtype=np.uint64)
             else:
                 group = key.partition('.')[0]
                 _, counts = f.get_index(source, group)
-- 
2.43.0


From 501c1544dbbb96c9597656998976db4c3355b1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:36 +0000
Subject: [PATCH 06/66] fix: get_series & get_data_counts with files holding no
 data

Sorting the parts by their first train ID raised IndexError if one of the
files has no data for the key (or no trains).
---
 karabo_data/reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 83d539a..f6a0752 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -504,7 +504,7 @@ class DataCollection:
                 _, counts = f.get_index(source, group)
             seq_series.append(pd.Series(counts, index=f.train_ids))
 
-        ser = pd.concat(sorted(seq_series, key=lambda s: s.index[0]))
+        ser = pd.concat(sorted(seq_series, key=lambda s: s.index[:1].tolist()))
         # Select out only the train IDs of interest
         train_ids = ser.index.intersection(self.train_ids)
         return ser.loc[train_ids]
@@ -569,7 +569,9 @@ class DataCollection:
         else:
             raise Exception("Unknown source category")
 
-        ser = pd.concat(sorted(seq_series, key=lambda s: s.index[0]))
+        # Files may have no data for this key, so only sort those which do
+        non_empty = [s for s in seq_series if len(s)] or seq_series[:1]
+        ser = pd.concat(sorted(non_empty, key=lambda s: s.index[:1].tolist()))
 
         # Select out only the train IDs of interest
         if isinstance(ser.index, pd.MultiIndex):
-- 
2.43.0


From 00e7bc9c22d5ba1be9e1a080da7376803fc12336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:36 +0000
Subject: [PATCH 07/66] fix: get_series for pulse data with one or no pulses in
 some files

Files with at most one entry per train were labelled with train IDs only,
unlike other files of the same source, and reading failed if pulse data has
no extra dimension (as in processed data).
---
 karabo_data/reader.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index f6a0752..f2f5506 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -547,23 +547,34 @@ class DataCollection:
 
         elif source in self.instrument_sources:
             data_path = "/INSTRUMENT/{}/{}".format(source, key.replace('.', '/'))
+            group = key.partition('.')[0]
+
+            files_trainids = []
             for f in self._source_index[source]:
-                group = key.partition('.')[0]
                 firsts, counts = f.get_index(source, group)
-                trainids = self._expand_trainids(counts, f.train_ids)
+                files_trainids.append((f, self._expand_trainids(counts, f.train_ids)))
+
+            # If any train has more than one entry, use pulse IDs as well
+            # to label the data from all files.
+            by_pulse = not all(pd.Index(t).is_unique for (_, t) in files_trainids)
 
-                index = pd.Index(trainids, name='trainId')
-                data = f.file[data_path][:]
-                if not index.is_unique:
+            for f, trainids in files_trainids:
+                data = f.file[data_path][: len(trainids)]
+                if data.ndim > 1:
+                    # Pulse-oriented raw data has an extra dimension
+                    assert data.shape[1] == 1
+                    data = data[:, 0]
+
+                if by_pulse:
                     pulse_id = f.file['/INSTRUMENT/{}/{}/pulseId'.format(source, group)]
-                    pulse_id = pulse_id[: len(index), 0]
+                    pulse_id = pulse_id[: len(trainids)]
+                    if pulse_id.ndim > 1:
+                        pulse_id = pulse_id[:, 0]
                     index = pd.MultiIndex.from_arrays(
                         [trainids, pulse_id], names=['trainId', 'pulseId']
                     )
-                    # Does pulse-oriented data always have an extra dimension?
-                    assert data.shape[1] == 1
-                    data = data[:, 0]
-                data = data[: len(index)]
+                else:
+                    index = pd.Index(trainids, name='trainId')
 
                 seq_series.append(pd.Series(data, name=name, index=index))
         else:
-- 
2.43.0


From e8b590dc166dbc22f80d22dbcc6125f3249a69b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 08/66] fix: use the index to find control data

Files made by write_virtual() can have trains with no entry for a control
source. Most methods assumed exactly one entry per train, giving the values
of other trains or failing for such files.
---
 karabo_data/reader.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index f2f5506..1cf8f78 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -332,10 +332,14 @@ class DataCollection:
     def _check_data_missing(self, tid) -> bool:
         """Return True if a train does not have data for all sources"""
         for source in self.control_sources:
-            file, _ = self._find_data(source, tid)
+            file, pos = self._find_data(source, tid)
             if file is None:
                 return True
 
+            _, counts = file.get_index(source, '')
+            if counts[pos] == 0:
+                return True
+
         for source in self.instrument_sources:
             file, pos = self._find_data(source, tid)
             if file is None:
@@ -430,9 +434,13 @@ class DataCollection:
             if file is None:
                 continue
 
+            firsts, counts = file.get_index(source, '')
+            if not counts[pos]:
+                continue
+
             for key in self.keys_for_source(source):
                 path = '/CONTROL/{}/{}'.format(source, key.replace('.', '/'))
-                source_data[key] = file.file[path][pos]
+                source_data[key] = file.file[path][firsts[pos]]
 
         for source in self.instrument_sources:
             source_data = res[source] = {
@@ -498,10 +506,10 @@ class DataCollection:
 
         for f in self._source_index[source]:
             if source in self.control_sources:
-                counts = np.ones(len(f.train_ids), dtype=np.uint64)
+                group = ''
             else:
                 group = key.partition('.')[0]
-                _, counts = f.get_index(source, group)
+            _, counts = f.get_index(source, group)
             seq_series.append(pd.Series(counts, index=f.train_ids))
 
         ser = pd.concat(sorted(seq_series, key=lambda s: s.index[:1].tolist()))
@@ -540,8 +548,10 @@ class DataCollection:
         if source in self.control_sources:
             data_path = "/CONTROL/{}/{}".format(source, key.replace('.', '/'))
             for f in self._source_index[source]:
-                data = f.file[data_path][: len(f.train_ids), ...]
-                index = pd.Index(f.train_ids, name='trainId')
+                _, counts = f.get_index(source, '')
+                trainids = self._expand_trainids(counts, f.train_ids)
+                data = f.file[data_path][: len(trainids), ...]
+                index = pd.Index(trainids, name='trainId')
 
                 seq_series.append(pd.Series(data, name=name, index=index))
 
@@ -1283,10 +1293,13 @@ class TrainIterator:
                 'metadata': {'source': source, 'timestamp.tid': tid}
             }
             for key in self.data.keys_for_source(source):
-                _, pos, ds = self._find_data(source, key, tid)
+                file, pos, ds = self._find_data(source, key, tid)
                 if ds is None:
                     continue
-                source_data[key] = ds[pos]
+                firsts, counts = file.get_index(source, '')
+                if not counts[pos]:
+                    continue
+                source_data[key] = ds[firsts[pos]]
 
         for source in self.data.instrument_sources:
             source_data = res[source] = {
-- 
2.43.0


From 33af0f9e79a9f280b3b2599509edb8ea89110f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 09/66] fix: write() with sources missing data in some or all
 trains

An assertion required control data for every train, and there were no train
IDs on the array read when there is no data for any train.
---
 karabo_data/reader.py | 6 ++----
 karabo_data/writer.py | 1 -
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 1cf8f78..5b78916 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -709,7 +709,7 @@ class DataCollection:
         roi_dummy = np.zeros((0,) + shapes.pop()) # extra 0 dim: use less memory
         roi_shape = roi_dummy[np.index_exp[:] + roi].shape[1:]
 
-        chunks_trainids = []
+        chunks_trainids = [np.zeros(0, dtype=np.uint64)]
         res = np.empty((dest_dim0,) + roi_shape, dtype=dtypes.pop())
 
         # Read the data from each chunk into the result array
@@ -734,9 +734,7 @@ class DataCollection:
         dims = ['trainId'] + extra_dims
 
         # Train ID index
-        coords = {}
-        if dest_dim0:
-            coords = {'trainId': np.concatenate(chunks_trainids)}
+        coords = {'trainId': np.concatenate(chunks_trainids)}
 
         return xarray.DataArray(res, dims=dims, coords=coords)
 
diff --git a/karabo_data/writer.py b/karabo_data/writer.py
index 585a6a6..2996bfb 100644
--- a/karabo_data/writer.py
+++ b/karabo_data/writer.py
@@ -17,7 +17,6 @@ class FileWriter:
 
     def add_control_dataset(self, source, key):
         a = self.data.get_array(source, key)
-        assert a.shape[0] == len(self.data.train_ids)
         path = 'CONTROL/{}/{}'.format(source, key.replace('.', '/'))
         self.file[path] = a.values
         self._make_control_index(source, a.coords['trainId'].values)
-- 
2.43.0


From 067ec59aa3cfead17cdc879d05be5c88215b42a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 10/66] fix: write files from trains selected in reverse order

After e.g. select_trains(by_index[::-1]), the index written did not match
the order of the data.
---
 karabo_data/writer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/karabo_data/writer.py b/karabo_data/writer.py
index 2996bfb..0a601f0 100644
--- a/karabo_data/writer.py
+++ b/karabo_data/writer.py
@@ -12,6 +12,8 @@ class FileWriter:
     def __init__(self, path, data):
         self.file = h5py.File(path, 'w')
         self.data = data
+        # Data is always written in order of train IDs
+        self.train_ids = sorted(data.train_ids)
         self.indexes = {}  # {path: (first, count)}
         self.data_sources = set()
 
@@ -29,7 +31,7 @@ class FileWriter:
         if source not in self.indexes:
             assert len(np.unique(data_tids)) == len(data_tids),\
                 "Duplicate train IDs in control data!"
-            counts = np.isin(self.data.train_ids, data_tids).astype(np.uint64)
+            counts = np.isin(self.train_ids, data_tids).astype(np.uint64)
             firsts = np.zeros_like(counts)
             firsts[1:] = np.cumsum(counts)[:-1]  # firsts[0] is always 0
             self.indexes[source] = (firsts, counts)
@@ -51,15 +53,14 @@ class FileWriter:
         """Convert an array of train IDs to first/count for each train"""
         assert (np.diff(data_tids) >= 0).all(), "Out-of-order train IDs"
         counts = np.array([np.count_nonzero(t == data_tids)
-                          for t in self.data.train_ids], dtype=np.uint64)
+                          for t in self.train_ids], dtype=np.uint64)
         firsts = np.zeros_like(counts)
         firsts[1:] = np.cumsum(counts)[:-1]  # firsts[0] is always 0
 
         return firsts, counts
 
     def write_train_ids(self):
-        d = self.data
-        self.file.create_dataset('INDEX/trainId', data=d.train_ids, dtype='u8')
+        self.file.create_dataset('INDEX/trainId', data=self.train_ids, dtype='u8')
 
     def write_indexes(self):
         for groupname, (first, count) in self.indexes.items():
-- 
2.43.0


From 907f01549c05cdfd1776182365070798f6a3bdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 11/66] fix: virtual datasets for sources with no data

get_virtual_dataset() failed, and write_virtual() left out the source.
---
 karabo_data/writer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/karabo_data/writer.py b/karabo_data/writer.py
index 0a601f0..b276a17 100644
--- a/karabo_data/writer.py
+++ b/karabo_data/writer.py
@@ -126,11 +126,15 @@ class VirtualFileWriter(FileWriter):
     def _assemble_data(self, source, key):
         """Assemble chunks of data into a virtual layout"""
         # First, get a list of all non-empty data chunks
-        chunks = [c for c in self.data._find_data_chunks(source, key)
-                  if (c.counts > 0).any()]
+        all_chunks = list(self.data._find_data_chunks(source, key))
+        chunks = [c for c in all_chunks if (c.counts > 0).any()]
         chunks.sort(key = lambda c: c.train_ids[0])
         if not chunks:
-            return None, None
+            # No data: make a virtual dataset with nothing mapped into it
+            ds0 = all_chunks[0].dataset
+            layout = h5py.VirtualLayout(shape=(0,) + ds0.shape[1:],
+                                        dtype=ds0.dtype)
+            return layout, np.zeros(0, dtype=np.uint64)
 
         # Create the layout, which will describe what data is where
         n_total = np.sum([c.counts.sum() for c in chunks])
@@ -157,8 +161,6 @@ class VirtualFileWriter(FileWriter):
 
     def add_control_dataset(self, source, key):
         layout, train_ids = self._assemble_data(source, key)
-        if not layout:
-            return  # No data
 
         path = 'CONTROL/{}/{}'.format(source, key.replace('.', '/'))
         self.file.create_virtual_dataset(path, layout)
@@ -168,8 +170,6 @@ class VirtualFileWriter(FileWriter):
 
     def add_instrument_dataset(self, source, key):
         layout, train_ids = self._assemble_data(source, key)
-        if not layout:
-            return  # No data
 
         path = 'INSTRUMENT/{}/{}'.format(source, key.replace('.', '/'))
         self.file.create_virtual_dataset(path, layout)
-- 
2.43.0


From 3b6536f2e88fb608c13a1858d71ca6c44602ae03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 12/66] fix: get_dask_array with files or trains holding no
 data

---
 karabo_data/reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 5b78916..b952936 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -771,6 +771,11 @@ class DataCollection:
             chunk_shape = (chunk_dim0,) + chunk.dataset.shape[1:]
             itemsize = chunk.dataset.dtype.itemsize
 
+            if chunk_dim0 == 0:
+                # Dask can't split the dataset into chunks of 0 entries
+                chunks_darrs.append(da.zeros(chunk_shape, dtype=chunk.dataset.dtype))
+                continue
+
             # Find chunk size of maximum 2 GB. This is largely arbitrary:
             # we want chunks small enough that each worker can have at least
             # a couple in memory (Maxwell nodes have 256-768 GB in late 2019).
-- 
2.43.0


From c485395bb8cae80494cdb8e0b42e31605c09aa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 13/66] fix: keep working with files opened by a relative path

Virtual datasets made from a run opened by a relative path read as all zeros
from another working directory, and files not yet open could not be found
after changing directory.
---
 karabo_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index b952936..d4c4497 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -76,7 +76,7 @@ class FileAccess:
     _format_version = None
 
     def __init__(self, filename, _cache_info=None):
-        self.filename = filename
+        self.filename = osp.abspath(filename)
 
         if _cache_info:
             self.train_ids = _cache_info['train_ids']
-- 
2.43.0


From 76645e1edf5b5692dfb627cf31ab7f9d1018f7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:33 +0000
Subject: [PATCH 14/66] fix: raise TypeError for invalid selections

The exception was created but not raised.
---
 karabo_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index d4c4497..aefd7eb 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -834,7 +834,7 @@ class DataCollection:
                 for (src_glob, key_glob) in selection
             )
         else:
-            TypeError("Unknown selection type: {}".format(type(selection)))
+            raise TypeError("Unknown selection type: {}".format(type(selection)))
 
         return dict(res)
 
-- 
2.43.0


From 11bfabb0c375411e92b9a470cb660798ee16f0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:33 +0000
Subject: [PATCH 15/66] fix: select all keys of a source with an empty set

This is documented, but raised TypeError.
---
 karabo_data/reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index aefd7eb..8306c6e 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -825,7 +825,10 @@ class DataCollection:
                 if source not in self.all_sources:
                     raise SourceNameError(source)
 
-                res[source].update(keys or None)
+                if keys:
+                    res[source].update(keys)
+                else:
+                    res[source] = None  # All keys
 
         elif isinstance(selection, list):
             # selection = [('src_glob', 'key_glob'), ...]
-- 
2.43.0


From 5eecfb6cb9719f303c2aa6965382fc11ff186e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:33 +0000
Subject: [PATCH 16/66] fix: selecting from a selection does not bring back
 dropped keys

Selecting all keys ('*' or an empty set), or naming keys in a dict, ignored
an earlier selection of keys. Naming a key which does not exist in a dict now
raises PropertyNameError rather than failing when reading data.
---
 karabo_data/reader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 8306c6e..4c880bd 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -826,6 +826,8 @@ class DataCollection:
                     raise SourceNameError(source)
 
                 if keys:
+                    for key in keys:
+                        self._check_field(source, key)
                     res[source].update(keys)
                 else:
                     res[source] = None  # All keys
@@ -916,7 +918,11 @@ class DataCollection:
         """
         if isinstance(seln_or_source_glob, str):
             seln_or_source_glob = [(seln_or_source_glob, key_glob)]
-        selection = self._expand_selection(seln_or_source_glob)
+        selection = {
+            # All keys (None) means all of those in the present selection
+            source: self.selection[source] if keys is None else keys
+            for (source, keys) in self._expand_selection(seln_or_source_glob).items()
+        }
 
         files = [f for f in self.files
                  if f.all_sources.intersection(selection.keys())]
-- 
2.43.0


From 887558594578f817138cee068ad5c616e1674d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:38 +0000
Subject: [PATCH 17/66] fix: ignore unreadable or damaged run files maps

---
 karabo_data/run_files_map.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/karabo_data/run_files_map.py b/karabo_data/run_files_map.py
index 0f768ce..9259725 100644
--- a/karabo_data/run_files_map.py
+++ b/karabo_data/run_files_map.py
@@ -30,6 +30,23 @@ def atomic_dump(obj, path, **kwargs):
     os.replace(tmp_filename, path)
 
 
+def is_valid_entry(info):
+    """Check that a loaded cache entry has the structure we expect"""
+    return (
+        isinstance(info, dict)
+        and isinstance(info.get('filename'), str)
+        and isinstance(info.get('mtime'), (int, float))
+        and isinstance(info.get('size'), int)
+        and all(
+            isinstance(info.get(k), list)
+            for k in ('train_ids', 'control_sources', 'instrument_sources')
+        )
+        and all(isinstance(t, int) and 0 <= t < 2**64 for t in info['train_ids'])
+        and all(isinstance(s, str) for s in info['control_sources'])
+        and all(isinstance(s, str) for s in info['instrument_sources'])
+    )
+
+
 class RunFilesMap:
     """Cached data about HDF5 files in a run directory
 
@@ -84,15 +101,23 @@ class RunFilesMap:
         for path in self.candidate_paths:
             try:
                 with open(path) as f:
-                    loaded_data = json.load(f)
+                    data = json.load(f)
 
+                if not isinstance(data, list):
+                    raise ValueError("Files map should be a list")
+
+                loaded_data = data
                 self.cache_file = path
                 log.debug("Loaded cached files map from %s", path)
                 break
-            except (FileNotFoundError, json.JSONDecodeError):
+            except (OSError, ValueError):
+                # Missing, inaccessible or garbled; ValueError includes JSON &
+                # unicode decoding errors.
                 pass
 
         for info in loaded_data:
+            if not is_valid_entry(info):
+                continue
             filename = info['filename']
             try:
                 st = os.stat(osp.join(self.directory, filename))
-- 
2.43.0


From bdb45ab3d9686c4c7f34bf425156929c3842236c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:38 +0000
Subject: [PATCH 18/66] fix: failing to save the run files map doesn't stop a
 run being opened

---
 karabo_data/run_files_map.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/karabo_data/run_files_map.py b/karabo_data/run_files_map.py
index 9259725..158cccd 100644
--- a/karabo_data/run_files_map.py
+++ b/karabo_data/run_files_map.py
@@ -23,12 +23,11 @@ def atomic_dump(obj, path, **kwargs):
     try:
         with open(fd, 'w') as f:
             json.dump(obj, f, **kwargs)
+        os.replace(tmp_filename, path)
     except:
         os.unlink(tmp_filename)
         raise
 
-    os.replace(tmp_filename, path)
-
 
 def is_valid_entry(info):
     """Check that a loaded cache entry has the structure we expect"""
@@ -153,8 +152,8 @@ class RunFilesMap:
         """Save the cache if needed
 
         This skips writing the cache out if all the data files already have
-        valid cache entries. It also silences permission errors from writing
-        the cache file.
+        valid cache entries. It also silences errors from writing the cache
+        file, e.g. if we don't have permission.
         """
         need_save = False
 
@@ -193,7 +192,8 @@ class RunFilesMap:
                 try:
                     os.makedirs(osp.dirname(path), exist_ok=True)
                     atomic_dump(save_data, path, indent=2)
-                except PermissionError:
+                except OSError:
+                    # e.g. no permission, read-only filesystem, disk full
                     continue
                 else:
                     dt = time.monotonic() - t0
-- 
2.43.0


From b36c0931efa1dfd505012c711cdcd3e8278126ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:06 +0000
Subject: [PATCH 19/66] fix: read detector data from files missing some of the
 trains

---
 karabo_data/components.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index e1c0c35..e759c3e 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -230,21 +230,19 @@ class MPxDetectorBase:
             firsts, counts = f.get_index(source, group)
 
             for chunk_tids in self.train_id_chunks:
-                if chunk_tids[-1] < f.train_ids[0] or chunk_tids[0] > f.train_ids[-1]:
+                # The file may not have all of the trains in this chunk
+                train_ixs = np.nonzero(np.isin(f.train_ids, chunk_tids))[0]
+                if train_ixs.size == 0:
                     # No overlap
                     continue
-                first_tid = max(chunk_tids[0], f.train_ids[0])
-                first_train_idx = np.nonzero(f.train_ids == first_tid)[0][0]
-                last_tid = min(chunk_tids[-1], f.train_ids[-1])
-                last_train_idx = np.nonzero(f.train_ids == last_tid)[0][0]
-                chunk_firsts = firsts[first_train_idx : last_train_idx + 1]
-                chunk_counts = counts[first_train_idx : last_train_idx + 1]
+                trains_slice = slice(train_ixs[0], train_ixs[-1] + 1)
+                chunk_firsts = firsts[trains_slice]
+                chunk_counts = counts[trains_slice]
                 data_slice = slice(
                     chunk_firsts[0], int(chunk_firsts[-1] + chunk_counts[-1])
                 )
                 trainids = np.repeat(
-                    np.arange(first_tid, last_tid + 1, dtype=np.uint64),
-                    chunk_counts.astype(np.intp),
+                    f.train_ids[trains_slice], chunk_counts.astype(np.intp)
                 )
                 pulse_id = f.file['/INSTRUMENT/{}/{}/pulseId'.format(source, group)][
                     data_slice
-- 
2.43.0


From e43539ae4463d5d5ca2992d475f9b883ed123d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:06 +0000
Subject: [PATCH 20/66] fix: refuse negative pulse IDs & indices

---
 karabo_data/components.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index e759c3e..a3650c3 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -64,9 +64,9 @@ def _check_pulse_selection(pulses):
 
     # Convert everything except slices to numpy arrays
     elif isinstance(pulses.value, int):
-        val = np.array([val], dtype=np.uint64)
+        val = np.array([val])
     else:
-        val = np.asarray(val, dtype=np.uint64)
+        val = np.asarray(val)
 
     if (val < 0).any():
         if isinstance(pulses, by_id):
@@ -74,7 +74,7 @@ def _check_pulse_selection(pulses):
         else:
             raise NotImplementedError("Negative pulse indices not supported")
 
-    return type(pulses)(val)
+    return type(pulses)(val.astype(np.uint64))
 
 
 class MPxDetectorBase:
-- 
2.43.0


From 3445ec6744a3768f59442fbda48c6f8ae0204a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:44 +0000
Subject: [PATCH 21/66] fix: detector modules with no files for the selected
 trains

---
 karabo_data/components.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index a3650c3..e717d3c 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -95,7 +95,6 @@ class MPxDetectorBase:
 
         data = data.select([(src, '*') for src in source_to_modno])
         self.detector_name = detector_name
-        self.source_to_modno = source_to_modno
 
         # pandas' missing-data handling converts the data to floats if there
         # are any gaps - so fill them with 0s and convert back to uint64.
@@ -115,6 +114,11 @@ class MPxDetectorBase:
         self.frames_per_train = data_count_values.pop()
         self.data = self._select_trains(data, mod_data_counts, min_modules)
 
+        # Leave out modules which aren't in any file with the selected trains
+        source_to_modno = {s: n for (s, n) in source_to_modno.items()
+                           if s in self.data.instrument_sources}
+        self.source_to_modno = source_to_modno
+
         # This should be a reversible 1-to-1 mapping
         self.modno_to_source = {m: s for (s, m) in source_to_modno.items()}
         assert len(self.modno_to_source) == len(self.source_to_modno)
-- 
2.43.0


From 79b76090d3e45ff6b5a66a50cc9656ed7382b181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:22 +0000
Subject: [PATCH 22/66] fix: slicing a view of stacked detector data keeps
 track of the module axis

---
 karabo_data/stacking.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/karabo_data/stacking.py b/karabo_data/stacking.py
index 6eb920f..b64182e 100644
--- a/karabo_data/stacking.py
+++ b/karabo_data/stacking.py
@@ -1,3 +1,4 @@
+from numbers import Integral
 import numpy as np
 import re
 
@@ -194,8 +195,12 @@ class StackView:
         new_data = {modno: self._get_single_mod(modno, mod_slices)
                     for modno in self._data}
         new_mod_shape = list(new_data.values())[0].shape
+        # Integer indices drop dimensions, moving the modules axis forwards
+        new_stack_axis = len([
+            s for s in mod_slices[:self._stack_axis] if not isinstance(s, Integral)
+        ])
         return StackView(new_data, self._nmodules, new_mod_shape, self.dtype,
-                         self._fillvalue)
+                         self._fillvalue, stack_axis=new_stack_axis)
 
     def asarray(self):
         """Copy this data into a real numpy array
-- 
2.43.0


From 19d70a00100549be175607323ef37fa1d10b1d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:22 +0000
Subject: [PATCH 23/66] fix: refuse negative module numbers out of range in
 stacked data

---
 karabo_data/stacking.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/stacking.py b/karabo_data/stacking.py
index b64182e..fe30bc4 100644
--- a/karabo_data/stacking.py
+++ b/karabo_data/stacking.py
@@ -169,6 +169,9 @@ class StackView:
         mod_slices = slices[:self._stack_axis] + slices[self._stack_axis + 1:]
 
         if isinstance(modno, int):
+            if not -self._nmodules <= modno < self._nmodules:
+                raise IndexError("Module {} is out of range for {} modules"
+                                 .format(modno, self._nmodules))
             if modno < 0:
                 modno += self._nmodules
             return self._get_single_mod(modno, mod_slices)
-- 
2.43.0


From c68ebd6b7e95610c65e18d19fad05a6504387fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:22 +0000
Subject: [PATCH 24/66] fix: fill missing modules of integer detector data with
 0

---
 karabo_data/stacking.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karabo_data/stacking.py b/karabo_data/stacking.py
index fe30bc4..40c5eb5 100644
--- a/karabo_data/stacking.py
+++ b/karabo_data/stacking.py
@@ -54,7 +54,7 @@ def stack_data(train, data, axis=-3, xcept=()):
     return np.stack(ordered_arrays, axis=axis)
 
 
-def stack_detector_data(train, data, axis=-3, modules=16, fillvalue=np.nan,
+def stack_detector_data(train, data, axis=-3, modules=16, fillvalue=None,
                         real_array=True):
     """Stack data from detector modules in a train.
 
@@ -118,6 +118,8 @@ def stack_detector_data(train, data, axis=-3, modules=16, fillvalue=np.nan,
 
     dtype = dtypes.pop()
     shape = shapes.pop()
+    if fillvalue is None:
+        fillvalue = np.nan if issubclass(dtype.type, np.inexact) else 0
     stack = StackView(
         modno_arrays, modules, shape, dtype, fillvalue, stack_axis=axis
     )
-- 
2.43.0


From 60a154898680d161a2c3afa9ecd70765e7c41494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:22 +0000
Subject: [PATCH 25/66] fix: refuse to stack detector data along an axis it
 does not have

---
 karabo_data/stacking.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/stacking.py b/karabo_data/stacking.py
index 40c5eb5..7ba3874 100644
--- a/karabo_data/stacking.py
+++ b/karabo_data/stacking.py
@@ -143,6 +143,9 @@ class StackView:
         self._fillvalue = fillvalue
         self._mod_shape = mod_shape
         self.ndim = len(mod_shape) + 1
+        if not -self.ndim <= stack_axis < self.ndim:
+            raise ValueError("Axis {} is out of bounds for stacking {}D data"
+                             .format(stack_axis, len(mod_shape)))
         self._stack_axis = stack_axis
         if self._stack_axis < 0:
             self._stack_axis += self.ndim
-- 
2.43.0


From 03bc0ce2dcde0bd52df82b6a7416aeeda9eb5e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:39 +0000
Subject: [PATCH 26/66] fix: stopping a ZMQStreamer does not wait for requests
 or data

---
 karabo_data/export.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index df25cdb..c96e27f 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -12,7 +12,7 @@ program. If not, see <https://opensource.org/licenses/BSD-3-Clause>
 
 from argparse import ArgumentParser
 import os.path as osp
-from queue import Queue
+from queue import Empty, Queue
 from threading import Event, Thread
 from time import time
 
@@ -24,6 +24,9 @@ from .reader import RunDirectory, H5File
 
 __all__ = ['ZMQStreamer', 'serve_files']
 
+# Interval in seconds to check if the server thread should stop
+POLL_INTERVAL = 0.1
+
 
 class REPInterface(Thread):
     def __init__(self, context, port, buffer):
@@ -39,14 +42,27 @@ class REPInterface(Thread):
             interface.bind('tcp://*:{}'.format(self.port))
 
             while not self.stopped():
+                # Don't wait indefinitely, so stop() can end this thread
+                if not interface.poll(POLL_INTERVAL * 1000):
+                    continue
                 req = interface.recv()
                 if req != b'next':
                     raise RuntimeError('Unknown request:', req)
-                interface.send_multipart(self.buffer.get())
+                msg = self.next_message()
+                if msg is not None:
+                    interface.send_multipart(msg)
         finally:
             interface.setsockopt(zmq.LINGER, 0)
             interface.close()
 
+    def next_message(self):
+        """Wait for data to send; returns None if we should stop instead"""
+        while not self.stopped():
+            try:
+                return self.buffer.get(timeout=POLL_INTERVAL)
+            except Empty:
+                pass
+
     def stop(self):
         self._stop_event.set()
 
-- 
2.43.0


From 96eeffae3b318c148f88de1f218a7a77d25e4612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:39 +0000
Subject: [PATCH 27/66] fix: serve_files sends all trains before stopping

---
 karabo_data/export.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index c96e27f..39dc3de 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -51,8 +51,10 @@ class REPInterface(Thread):
                 msg = self.next_message()
                 if msg is not None:
                     interface.send_multipart(msg)
+                    self.buffer.task_done()
         finally:
-            interface.setsockopt(zmq.LINGER, 0)
+            # Allow time for the last reply to be transferred
+            interface.setsockopt(zmq.LINGER, 10000)
             interface.close()
 
     def next_message(self):
@@ -134,6 +136,12 @@ class ZMQStreamer:
             self._interface.join()
             self._interface = None
 
+    def wait_sent(self):
+        """Wait until all data fed in has been sent, or the server has failed
+        """
+        while self._buffer.unfinished_tasks and self._interface.is_alive():
+            self._interface.join(POLL_INTERVAL)
+
     def _serialize(self, data, metadata=None):
         if not metadata:
             metadata = {src: v.get('metadata', {}) for src, v in data.items()}
@@ -259,6 +267,7 @@ def serve_files(path, port, source_glob='*', key_glob='*', **kwargs):
     for tid, train_data in data.trains():
         if train_data:
             streamer.feed(train_data)
+    streamer.wait_sent()
     streamer.stop()
 
 
-- 
2.43.0


From e81ae6d081519e128193968ad0aec6750c289ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:39 +0000
Subject: [PATCH 28/66] fix: adding dummy timestamps does not change the
 caller's metadata

---
 karabo_data/export.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index 39dc3de..5ec24e7 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -145,6 +145,8 @@ class ZMQStreamer:
     def _serialize(self, data, metadata=None):
         if not metadata:
             metadata = {src: v.get('metadata', {}) for src, v in data.items()}
+        # Copy to leave the caller's dictionaries as they are
+        metadata = {src: dict(metadata[src]) for src in data}
 
         if self.dummy_timestamps:
             ts = time()
-- 
2.43.0


From 27a3bc22a73d80c4fd9fc31fc359c356ba704c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:39 +0000
Subject: [PATCH 29/66] fix: use explicit metadata & dummy timestamps for every
 source and protocol version

---
 karabo_data/export.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index 5ec24e7..7812cfe 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -143,10 +143,13 @@ class ZMQStreamer:
             self._interface.join(POLL_INTERVAL)
 
     def _serialize(self, data, metadata=None):
-        if not metadata:
-            metadata = {src: v.get('metadata', {}) for src, v in data.items()}
+        if metadata is None:
+            metadata = {}
         # Copy to leave the caller's dictionaries as they are
-        metadata = {src: dict(metadata[src]) for src in data}
+        metadata = {
+            src: dict(metadata.get(src) or v.get('metadata', {}))
+            for src, v in data.items()
+        }
 
         if self.dummy_timestamps:
             ts = time()
@@ -162,6 +165,11 @@ class ZMQStreamer:
                     metadata[src].update(update_dummy)
 
         if self.protocol_version == '1.0':
+            # Metadata is part of the data in this version
+            data = {
+                src: dict(v, metadata=metadata[src]) if metadata[src] else v
+                for src, v in data.items()
+            }
             return [self.pack(data)]
 
         msg = []
-- 
2.43.0


From 8cb6e90066810543e412189d89ca116eea428813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:40 +0000
Subject: [PATCH 30/66] fix: stream numpy boolean scalars

---
 karabo_data/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index 7812cfe..23b09a8 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -179,7 +179,7 @@ class ZMQStreamer:
             for key, value in props.items():
                 if isinstance(value, np.ndarray):
                     arrays.append((key, value))
-                elif isinstance(value, np.number):
+                elif isinstance(value, (np.number, np.bool_)):
                     # Convert numpy type to native Python type
                     main_data[key] = value.item()
                 else:
-- 
2.43.0


From 606f810a8619edd2da31e1c8b020738d3fcf3d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:40 +0000
Subject: [PATCH 31/66] fix: use --source and --key options of
 karabo-bridge-serve-files

---
 karabo_data/export.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index 23b09a8..512e868 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -295,4 +295,6 @@ def main(argv=None):
     )
     args = ap.parse_args(argv)
 
-    serve_files(args.path, args.port)
+    serve_files(
+        args.path, args.port, source_glob=args.source, key_glob=args.key
+    )
-- 
2.43.0


From 7631466fafca4a5a8aa09bd73c360700a2b3f09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:11 +0000
Subject: [PATCH 32/66] fix: validation reports missing, mismatched &
 overflowing indexes

---
 karabo_data/validation.py | 113 +++++++++++++++++++++++---------------
 1 file changed, 69 insertions(+), 44 deletions(-)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index e669a59..6c3fec5 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -72,55 +72,80 @@ class FileValidator:
 
     def check_indices(self):
         for src in self.file.instrument_sources:
-            src_groups = set()
-            for key in self.file.get_keys(src):
-                ds_path = 'INSTRUMENT/{}/{}'.format(src, key.replace('.', '/'))
-                group = key.split('.', 1)[0]
-                src_groups.add((src, group))
-                first, count = self.file.get_index(src, group)
-                data_dim0 = self.file.file[ds_path].shape[0]
-                if np.any((first + count) > data_dim0):
-                    max_end = (first + count).max()
-                    self.record(
-                        'Index referring to data ({}) outside dataset ({})'.format(
-                            max_end, data_dim0
-                        ),
-                        dataset=ds_path,
-                    )
-
-            for src, group in src_groups:
-                record = partial(self.record, dataset='INDEX/{}/{}'.format(src, group))
-                first, count = self.file.get_index(src, group)
-
-                if (first.ndim != 1) or (count.ndim != 1):
-                    record(
-                        "Index first / count are not 1D",
-                        first_shape=first.shape,
-                        count_shape=count.shape,
-                    )
-                    continue
-
-                if first.shape != count.shape:
-                    record(
-                        "Index first & count have different number of entries",
-                        first_shape=first.shape,
-                        count_shape=count.shape,
-                    )
-
-                if first.shape != self.file.train_ids.shape:
-                    record(
-                        "Index has wrong number of entries",
-                        index_shape=first.shape,
-                        trainids_shape=self.file.train_ids.shape,
-                    )
-
-                check_index_contiguous(first, count, record)
+            try:
+                keys = self.file.get_keys(src)
+            except Exception as e:
+                self.record(
+                    'Could not find data for source',
+                    dataset='INSTRUMENT/{}'.format(src), error=e
+                )
+                continue
+
+            for group in {key.split('.', 1)[0] for key in keys}:
+                self.check_index(
+                    src, group, [k for k in keys if k.split('.', 1)[0] == group]
+                )
+
+    def check_index(self, src, group, keys):
+        record = partial(self.record, dataset='INDEX/{}/{}'.format(src, group))
+        try:
+            first, count = self.file.get_index(src, group)
+        except Exception as e:
+            record("Could not read index", error=e)
+            return
+
+        if (first.ndim != 1) or (count.ndim != 1):
+            record(
+                "Index first / count are not 1D",
+                first_shape=first.shape,
+                count_shape=count.shape,
+            )
+            return
+
+        if first.shape != self.file.train_ids.shape:
+            record(
+                "Index has wrong number of entries",
+                index_shape=first.shape,
+                trainids_shape=self.file.train_ids.shape,
+            )
+
+        if first.shape != count.shape:
+            record(
+                "Index first & count have different number of entries",
+                first_shape=first.shape,
+                count_shape=count.shape,
+            )
+            return
+
+        for key in keys:
+            ds_path = 'INSTRUMENT/{}/{}'.format(src, key.replace('.', '/'))
+            shape = self.file.file[ds_path].shape
+            if not shape:
+                self.record("Dataset is not an array", dataset=ds_path)
+                continue
+
+            data_dim0 = shape[0]
+            # Separate checks, because adding large numbers could overflow
+            outside = (
+                (first > data_dim0) | (count > data_dim0)
+                | ((first + count) > data_dim0)
+            )
+            if np.any(outside):
+                max_end = max(int(f) + int(c) for (f, c) in zip(first, count))
+                self.record(
+                    'Index referring to data ({}) outside dataset ({})'.format(
+                        max_end, data_dim0
+                    ),
+                    dataset=ds_path,
+                )
+
+        check_index_contiguous(first, count, record)
 
 
 def check_index_contiguous(firsts, counts, record):
     probs = []
 
-    if firsts[0] != 0:
+    if firsts.size > 0 and firsts[0] != 0:
         record("Index doesn't start at 0")
 
     gaps = firsts[1:].astype(np.int64) - (firsts + counts)[:-1]
-- 
2.43.0


From 7fb885106baac97da0d1b2177f170d6662e34bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:11 +0000
Subject: [PATCH 33/66] fix: validate runs with no cached files map

---
 karabo_data/validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index 6c3fec5..6421cb6 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -216,6 +216,8 @@ class RunValidator:
         cache = RunFilesMap(self.run_dir)
         for f_access in self.run.files:
             f_cache = cache.get(f_access.filename)
+            if f_cache is None:
+                continue  # Not (or no longer) in the cache
             if (
                     f_cache['control_sources'] != f_access.control_sources
                  or f_cache['instrument_sources'] != f_access.instrument_sources
-- 
2.43.0


From f5645e593a93700bfbaa004a7e7bc76e8d8ef12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:23 +0000
Subject: [PATCH 34/66] fix: validation reports files with conflicting data

---
 karabo_data/validation.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index 6421cb6..cfc2fcf 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -181,7 +181,14 @@ class RunValidator:
             else:
                 files.append(fa)
 
-        self.run = DataCollection(files)
+        self.files = files
+        self.conflict = None
+        try:
+            self.run = DataCollection(files)
+        except ValueError as e:
+            # Data for the same source & train in different files
+            self.run = None
+            self.conflict = e
         self.problems = []
 
     def validate(self):
@@ -192,6 +199,7 @@ class RunValidator:
     def run_checks(self):
         self.problems = []
         self.check_files_openable()
+        self.check_conflicts()
         self.check_files()
         self.check_files_map()
         return self.problems
@@ -200,13 +208,20 @@ class RunValidator:
         for path, err in self.files_excluded:
             self.problems.append(dict(msg="Could not open file", file=path, error=err))
 
-        if not self.run.files:
+        if not self.files:
             self.problems.append(
                 dict(msg="No usable files found", directory=self.run_dir)
             )
 
+    def check_conflicts(self):
+        if self.conflict is not None:
+            self.problems.append(dict(
+                msg="Conflicting data in different files",
+                directory=self.run_dir, error=self.conflict,
+            ))
+
     def check_files(self):
-        for f in self.run.files:
+        for f in self.files:
             fv = FileValidator(f)
             self.problems.extend(fv.run_checks())
 
@@ -214,7 +229,7 @@ class RunValidator:
         # Outdated cache entries we can detect with the file's stat() are not a
         # problem. Loading the cache file will discard those automatically.
         cache = RunFilesMap(self.run_dir)
-        for f_access in self.run.files:
+        for f_access in self.files:
             f_cache = cache.get(f_access.filename)
             if f_cache is None:
                 continue  # Not (or no longer) in the cache
-- 
2.43.0


From 1d6a49658e596db61b1f3fcd7501770e293c74d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:04 +0000
Subject: [PATCH 35/66] fix: validation notices indexes with last before first

---
 karabo_data/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 4c880bd..a7d9422 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -180,7 +180,8 @@ class FileAccess:
         if 'count' in ix_group:
             counts = ix_group['count'][:ntrains]
         else:
-            status = ix_group['status'][:ntrains]
+            # Convert status to avoid numpy using floats for mixed integer types
+            status = ix_group['status'][:ntrains].astype(np.uint64)
             counts = np.uint64((ix_group['last'][:ntrains] - firsts + 1) * status)
         return firsts, counts
 
-- 
2.43.0


From 746484982aa221c2327ab0cd4f547a5ce3c91c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:48 +0000
Subject: [PATCH 36/66] fix: validation checks all parts of old format indexes

---
 karabo_data/validation.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index cfc2fcf..663c873 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -102,12 +102,17 @@ class FileValidator:
             )
             return
 
-        if first.shape != self.file.train_ids.shape:
-            record(
-                "Index has wrong number of entries",
-                index_shape=first.shape,
-                trainids_shape=self.file.train_ids.shape,
-            )
+        # count may be calculated from other datasets, so check all of them
+        ix_group = self.file.file['INDEX/{}/{}'.format(src, group)]
+        for name in {'first', 'last', 'status', 'count'}.intersection(ix_group):
+            ds_shape = ix_group[name].shape
+            if ds_shape[0] < self.file.train_ids.size:
+                record(
+                    "Index has wrong number of entries",
+                    index_shape=ds_shape,
+                    index_name=name,
+                    trainids_shape=self.file.train_ids.shape,
+                )
 
         if first.shape != count.shape:
             record(
-- 
2.43.0


From 4b379f422f461c89d7063b1132ef9008020c9e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:33 +0000
Subject: [PATCH 37/66] fix: Fill gaps with 0 when assembling images of
 integers

---
 karabo_data/geometry2/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index e2e2a47..d8ed89b 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -912,7 +912,10 @@ class SnappedGeometry:
         """Make an output array for self.position_modules()
         """
         shape = extra_shape + self.size_yx
-        return np.full(shape, np.nan, dtype=dtype)
+        # Only floats (& complex numbers) can be NaN, so other types are 0
+        # where there are no pixels.
+        fill = np.nan if np.issubdtype(dtype, np.inexact) else 0
+        return np.full(shape, fill, dtype=dtype)
 
     def position_modules(self, data, out=None):
         """Implementation for position_modules_fast
-- 
2.43.0


From 9b0856be8af3823148cd4cb6181ac4d48b90b81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:37 +0000
Subject: [PATCH 38/66] fix: AGIPD pixel size with quadrant positions in other
 units

---
 karabo_data/geometry2/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index d8ed89b..9fa0fc9 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -654,8 +654,8 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
                            + x_orient * tile_width * a
                 tiles.append(GeometryFragment(
                     corner_pos=np.array([corner_x, corner_y, 0.]),
-                    ss_vec=np.array([x_orient, 0, 0]) * unit,
-                    fs_vec=np.array([0, y_orient, 0]) * unit,
+                    ss_vec=np.array([x_orient, 0, 0]) * cls.pixel_size,
+                    fs_vec=np.array([0, y_orient, 0]) * cls.pixel_size,
                     ss_pixels=cls.frag_ss_pixels,
                     fs_pixels=cls.frag_fs_pixels,
                 ))
-- 
2.43.0


From 9d1067f72c7ebb78034528fe98d5e0445f545377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:49 +0000
Subject: [PATCH 39/66] fix: data_coords_to_positions with int8 or uint64
 module numbers

---
 karabo_data/geometry2/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 9fa0fc9..1ec5708 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -576,8 +576,11 @@ class DetectorGeometryBase:
         # Convert coordinates within each module to coordinates in a tile
         tilenos, tile_ss, tile_fs = self._module_coords_to_tile(slow_scan, fast_scan)
 
-        # The indexes of the relevant tiles in the arrays assembled above
-        all_tiles_ix = (module_no * self.n_tiles_per_module) + tilenos
+        # The indexes of the relevant tiles in the arrays assembled above.
+        # Small integer types could overflow, and uint64 would become float.
+        all_tiles_ix = (
+            module_no.astype(np.int64) * self.n_tiles_per_module
+        ) + tilenos
 
         # Select the relevant tile geometry for each set of coordinates
         coords_tile_corner = tiles_corner_pos[all_tiles_ix]
-- 
2.43.0


From d9f1692089e8f66a2d208d6310ddb84dc4330644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:47 +0000
Subject: [PATCH 40/66] fix: position_modules_interpolate with positions in
 metres

---
 karabo_data/geometry2/__init__.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 1ec5708..1e4bcc9 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -798,31 +798,40 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
         """
         assert data.shape == (16, 512, 128)
         size_yx, centre = self._get_dimensions()
-        tmp = np.empty((16 * 8,) + size_yx, dtype=data.dtype)
+        # Integers can't represent NaN for the gaps, or interpolated values
+        dtype = np.result_type(data.dtype, np.float32)
+        tmp = np.empty((16 * 8,) + size_yx, dtype=dtype)
 
         for i, (module, mod_data) in enumerate(zip(self.modules, data)):
             tiles_data = np.split(mod_data, 8)
             for j, (tile, tile_data) in enumerate(zip(module, tiles_data)):
                 # We store (x, y, z), but numpy indexing, and hence affine_transform,
-                # work like [y, x]. Rearrange the numbers:
-                fs_vec_yx = tile.fs_vec[:2][::-1]
-                ss_vec_yx = tile.ss_vec[:2][::-1]
+                # work like [y, x]. Rearrange the numbers, and convert metres to
+                # pixels:
+                fs_vec_yx = (tile.fs_vec[:2] / self._pixel_shape)[::-1]
+                ss_vec_yx = (tile.ss_vec[:2] / self._pixel_shape)[::-1]
 
                 # Offset by centre to make all coordinates positive
-                corner_pos_yx = tile.corner_pos[:2][::-1] + centre
+                corner_pos_yx = (
+                    (tile.corner_pos[:2] / self._pixel_shape)[::-1] + centre
+                )
 
                 # Make the rotation matrix
                 rotn = np.stack((ss_vec_yx, fs_vec_yx), axis=-1)
 
                 # affine_transform takes a mapping from *output* to *input*.
                 # So we reverse the forward transformation.
+                # Array indexes refer to the middle of a pixel, so they are 0.5
+                # less than the coordinates, which start from its corner.
+                # Round to avoid losing pixels on the edges of the tile if the
+                # numbers are very slightly outside it.
                 transform = np.linalg.inv(rotn)
-                offset = np.dot(rotn, corner_pos_yx)  # this seems to work, but is it right?
+                offset = np.dot(transform, 0.5 - corner_pos_yx) - 0.5
 
                 affine_transform(
-                    tile_data,
-                    transform,
-                    offset=offset,
+                    tile_data.astype(dtype, copy=False),
+                    np.around(transform, 9),
+                    offset=np.around(offset, 6),
                     cval=np.nan,
                     output_shape=size_yx,
                     output=tmp[i * 8 + j],
-- 
2.43.0


From 8d96029ad9920cc5e59c27b0f18d6c36f49a91ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:17 +0000
Subject: [PATCH 41/66] fix: CrystFEL geometry files with very small vector
 components

---
 karabo_data/geometry2/crystfel_fmt.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/karabo_data/geometry2/crystfel_fmt.py b/karabo_data/geometry2/crystfel_fmt.py
index ace71a3..5574ea9 100644
--- a/karabo_data/geometry2/crystfel_fmt.py
+++ b/karabo_data/geometry2/crystfel_fmt.py
@@ -45,9 +45,14 @@ PANEL_TEMPLATE = """
 def _crystfel_format_vec(vec):
     """Convert an array of 3 numbers to CrystFEL format like "+1.0x -0.1y"
     """
-    s = '{:+}x {:+}y'.format(*vec[:2])
+    # CrystFEL splits these at every + and -, so it doesn't understand exponents
+    # (e.g. 1e-05).
+    def fmt(n):
+        return np.format_float_positional(n, trim='0', sign=True)
+
+    s = '{}x {}y'.format(fmt(vec[0]), fmt(vec[1]))
     if vec[2] != 0:
-        s += ' {:+}z'.format(vec[2])
+        s += ' {}z'.format(fmt(vec[2]))
     return s
 
 
-- 
2.43.0


From 35a113b7ee6122cd631744cceec432aeb02888d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 42/66] fix: coffset in CrystFEL geometry files is in metres

---
 karabo_data/geometry2/__init__.py     | 3 ++-
 karabo_data/geometry2/crystfel_fmt.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 1e4bcc9..82108d9 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -33,7 +33,8 @@ class GeometryFragment:
     @classmethod
     def from_panel_dict(cls, d):
         res = d['res']
-        corner_pos = np.array([d['cnx'], d['cny'], d['coffset']]) / res
+        # The corner x & y are in pixels, but coffset is in metres
+        corner_pos = np.array([d['cnx'] / res, d['cny'] / res, d['coffset']])
         ss_vec = np.array([d['ssx'], d['ssy'], d['ssz']]) / res
         fs_vec = np.array([d['fsx'], d['fsy'], d['fsz']]) / res
         ss_pixels = d['max_ss'] - d['min_ss'] + 1
diff --git a/karabo_data/geometry2/crystfel_fmt.py b/karabo_data/geometry2/crystfel_fmt.py
index 5574ea9..0b9a393 100644
--- a/karabo_data/geometry2/crystfel_fmt.py
+++ b/karabo_data/geometry2/crystfel_fmt.py
@@ -78,7 +78,8 @@ def frag_to_crystfel(fragment, p, a, ss_slice, fs_slice, dims, pixel_size):
         fs_vec=_crystfel_format_vec(fragment.fs_vec/ pixel_size),
         corner_x=c[0],
         corner_y=c[1],
-        coffset=c[2],
+        # Unlike the corner position, this is in metres
+        coffset=fragment.corner_pos[2],
     )
 
 def write_crystfel_geom(self, filename, *,
-- 
2.43.0


From 1395bea6559c8b3b2f1eafcfd1d0222ea3216dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 43/66] fix: create QuickView from an array

---
 karabo_data/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index 7ad4850..c85b46c 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -51,7 +51,7 @@ class QuickView:
     _current_index = 0
 
     def __init__(self, data=None):
-        if data:
+        if data is not None:
             self.data = data
 
     @property
-- 
2.43.0


From 72edd74c9210adacc923919c28c288a06e6fce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 44/66] fix: setting QuickView.pos shows the frame

---
 karabo_data/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index c85b46c..d83842b 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -62,8 +62,8 @@ class QuickView:
     def pos(self, pos):
         if self._data is not None:
             if 0 <= pos < len(self):
+                self.display(pos)
                 self._current_index = pos
-                self.show()
             else:
                 err = "value should be 0 < value < " "{}".format(self._data.shape[0])
                 raise ValueError(err)
-- 
2.43.0


From b5ec2f1488fea57a6a03384c7f5bb5bf01ed090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 45/66] fix: QuickView.next() stops at the last frame

---
 karabo_data/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index d83842b..2781cb6 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -82,7 +82,7 @@ class QuickView:
         self.display()
 
     def next(self):
-        if self._current_index < len(self):
+        if self._current_index < len(self) - 1:
             self._current_index += 1
             self.display()
 
-- 
2.43.0


From 763e4202dd9c5a3154c1c72954291d5a5fe546bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 46/66] fix: QuickView.previous() as documented

---
 karabo_data/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index 2781cb6..cf9c7d3 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -91,6 +91,8 @@ class QuickView:
             self._current_index -= 1
             self.display()
 
+    previous = prev
+
     def display(self, index=None):
         import matplotlib.pyplot as plot
 
-- 
2.43.0


From bc065c0d94a895f078a6df0201e7023be0824439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 47/66] fix: info() for data without trains

---
 karabo_data/reader.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index a7d9422..cb39e54 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1084,11 +1084,15 @@ class DataCollection:
         """Show information about the selected data.
         """
         # time info
-        first_train = self.train_ids[0]
-        last_train = self.train_ids[-1]
         train_count = len(self.train_ids)
-        span_sec = (last_train - first_train) / 10
-        span_txt = str(datetime.timedelta(seconds=span_sec))
+        if train_count == 0:
+            first_train = last_train = '-'
+            span_txt = '0.0'
+        else:
+            first_train = self.train_ids[0]
+            last_train = self.train_ids[-1]
+            span_sec = (last_train - first_train) / 10
+            span_txt = str(datetime.timedelta(seconds=span_sec))
 
         detector_modules = {}
         for source in self.detector_sources:
-- 
2.43.0


From b4db7c58750ccd935cd9302640a31c5e91a3e08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 48/66] fix: train_info() lists only selected sources

---
 karabo_data/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index cb39e54..f77ebe2 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1186,6 +1186,9 @@ class DataCollection:
         files = [f for f in self.files if train_id in f.train_ids]
         ctrl = set().union(*[f.control_sources for f in files])
         inst = set().union(*[f.instrument_sources for f in files])
+        # Leave out sources in the same files which are not selected
+        ctrl &= self.control_sources
+        inst &= self.instrument_sources
 
         # disp
         print('Train [{}] information'.format(train_id))
-- 
2.43.0


From 114d7ee958a6c6f16ef04e3f2891bceed2378513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 49/66] fix: info() for detector data without images

---
 karabo_data/reader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index f77ebe2..711e367 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1112,10 +1112,12 @@ class DataCollection:
         print("{} detector modules ({})".format(
             len(self.detector_sources), detector_name
         ))
-        if len(detector_modules) > 0:
-            # Show detail on the first module (the others should be similar)
-            mod_key = sorted(detector_modules)[0]
+        # Show detail on the first module (the others should be similar)
+        for mod_key in sorted(detector_modules):
             mod_source = detector_modules[mod_key]
+            if not any('image.data' in f.get_keys(mod_source)
+                       for f in self._source_index[mod_source]):
+                continue  # E.g. a file written with only the headers
             dinfo = self.detector_info(mod_source)
             module = ' '.join(mod_key)
             dims = ' x '.join(str(d) for d in dinfo['dims'])
@@ -1124,6 +1126,7 @@ class DataCollection:
             print("  {} frames per train, up to {} frames total".format(
                 dinfo['frames_per_train'], dinfo['total_frames']
             ))
+            break
         print()
 
         non_detector_inst_srcs = self.instrument_sources - self.detector_sources
-- 
2.43.0


From 961e2d5f0afa75823fe64d2b12194e1a1bc33cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 50/66] fix: detector_info() gives the largest number of frames
 per train

---
 karabo_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 711e367..43e2530 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1158,7 +1158,7 @@ class DataCollection:
             warn("Varying number of frames per train: %s" % counts)
 
         if counts:
-            fpt = int(counts.pop())
+            fpt = int(max(counts))
         else:
             fpt = 0
 
-- 
2.43.0


From 8f6630a16999512e34503549de454f6e583ee3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 51/66] fix: detector_info() when the first file has no frames

---
 karabo_data/reader.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 43e2530..80f3a98 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1148,11 +1148,13 @@ class DataCollection:
         - 'total_frames' (estimated assuming all trains have data)
         """
         source_files = self._source_index[source]
-        file0 = sorted(source_files, key=lambda fa: fa.filename)[0]
-
-        _, counts = file0.get_index(source, 'image')
-        counts = set(np.unique(counts))
-        counts.discard(0)
+        # Look at the first file, or a later one if that has no frames
+        for file0 in sorted(source_files, key=lambda fa: fa.filename):
+            _, counts = file0.get_index(source, 'image')
+            counts = set(np.unique(counts))
+            counts.discard(0)
+            if counts:
+                break
 
         if len(counts) > 1:
             warn("Varying number of frames per train: %s" % counts)
-- 
2.43.0


From cdb6b5f94edfc1f64fe1854da5a01731177b8fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 52/66] fix: lsxfel for several files with aggregated data

---
 karabo_data/lsxfel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/lsxfel.py b/karabo_data/lsxfel.py
index 2e20ab6..66977f0 100644
--- a/karabo_data/lsxfel.py
+++ b/karabo_data/lsxfel.py
@@ -55,7 +55,7 @@ def summarise_file(path):
             len(h5file.train_ids), dinfo['frames_per_train'], dinfo['total_frames']
         ))
     else:
-        print("  {} trains, {} sources".format(ntrains, len(h5file.sources)))
+        print("  {} trains, {} sources".format(ntrains, len(h5file.all_sources)))
 
 
 def describe_run(path):
-- 
2.43.0


From 7ef29ad5012b53f27380b869178d885bf03b78bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 53/66] fix: lsxfel description of files with unknown data

---
 karabo_data/read_machinery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index 475107f..2ae66b1 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -193,7 +193,7 @@ class FilenameInfo:
                 self._rawcorr_descr.get(rawcorr, '?'), name, moduleno
             )
         else:
-            self.description = "Unknown data source ({})", datasrc
+            self.description = "Unknown data source ({})".format(datasrc)
 
 
 def find_proposal(propno):
-- 
2.43.0


From 7f5eaac895ca5b465a04668ee059a32eae6fa7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 54/66] fix: lsxfel for files without the standard file names

---
 karabo_data/read_machinery.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index 2ae66b1..74b9dcb 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -178,7 +178,9 @@ class FilenameInfo:
     def __init__(self, path):
         self.basename = osp.basename(path)
         nameparts = self.basename[:-3].split('-')
-        assert len(nameparts) == 4, self.basename
+        if len(nameparts) != 4:
+            self.description = "Unknown data file"
+            return
         rawcorr, runno, datasrc, segment = nameparts
         m = re.match(r'([A-Z]+)(\d+)', datasrc)
 
-- 
2.43.0


From e4e2bdc86d004a534ebf7a95c20ce599ea91cada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:17 +0000
Subject: [PATCH 55/66] fix: lsxfel for detector files without images

---
 karabo_data/lsxfel.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/karabo_data/lsxfel.py b/karabo_data/lsxfel.py
index 66977f0..f802149 100644
--- a/karabo_data/lsxfel.py
+++ b/karabo_data/lsxfel.py
@@ -11,6 +11,13 @@ from .read_machinery import FilenameInfo
 from .reader import H5File, RunDirectory
 
 
+def find_detector_source(h5file):
+    """Get a detector source with image data in the file, None if there isn't one"""
+    for source in sorted(h5file.detector_sources):
+        if 'image.data' in h5file.keys_for_source(source):
+            return source
+
+
 def describe_file(path):
     """Describe a single HDF5 data file"""
     basename = os.path.basename(path)
@@ -21,8 +28,8 @@ def describe_file(path):
     print(len(h5file.train_ids), "trains")
     print()
 
-    if info.is_detector:
-        detector_source = next(iter(h5file.detector_sources))
+    detector_source = find_detector_source(h5file) if info.is_detector else None
+    if detector_source is not None:
         detector_info = h5file.detector_info(detector_source)
         print("{} × {} pixels".format(*detector_info['dims']))
         print("{} frames per train, {} total".format(
@@ -48,8 +55,8 @@ def summarise_file(path):
     h5file = H5File(path)
     ntrains = len(h5file.train_ids)
 
-    if info.is_detector:
-        detector_source = next(iter(h5file.detector_sources))
+    detector_source = find_detector_source(h5file) if info.is_detector else None
+    if detector_source is not None:
         dinfo = h5file.detector_info(detector_source)
         print("  {} trains, {} frames/train, {} total frames".format(
             len(h5file.train_ids), dinfo['frames_per_train'], dinfo['total_frames']
-- 
2.43.0


From 0befb09268086f47c8a1b9da556186c524fd29e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 56/66] fix: lsxfel shows the name of a run directory given
 with a trailing slash

---
 karabo_data/lsxfel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/lsxfel.py b/karabo_data/lsxfel.py
index f802149..991d032 100644
--- a/karabo_data/lsxfel.py
+++ b/karabo_data/lsxfel.py
@@ -66,7 +66,7 @@ def summarise_file(path):
 
 
 def describe_run(path):
-    basename = os.path.basename(path)
+    basename = os.path.basename(os.path.abspath(path))
     print(basename, ": Run directory")
     print()
 
-- 
2.43.0


From cf103848393be5d127ab20655df712e4a584c8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 57/66] fix: lsxfel for proposals containing runs without data

---
 karabo_data/lsxfel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karabo_data/lsxfel.py b/karabo_data/lsxfel.py
index 991d032..d46d3d2 100644
--- a/karabo_data/lsxfel.py
+++ b/karabo_data/lsxfel.py
@@ -92,7 +92,8 @@ def summarise_run(path, indent=''):
                 n_other += 1
 
     if len(segment_sequences) < 1:
-        raise ValueError("No data files recognised in %s" % path)
+        print("{}{} : No data files recognised".format(indent, basename))
+        return
 
     # Take the shortest group of segments to make reading quicker
     first_group = sorted(segment_sequences.values(), key=len)[0]
-- 
2.43.0


From 44e57962176a27c12614315c4f54342e61a7b841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:25 +0000
Subject: [PATCH 58/66] fix: lsxfel counted files with other extensions

---
 karabo_data/lsxfel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/lsxfel.py b/karabo_data/lsxfel.py
index d46d3d2..eee95e9 100644
--- a/karabo_data/lsxfel.py
+++ b/karabo_data/lsxfel.py
@@ -83,7 +83,7 @@ def summarise_run(path, indent=''):
     segment_sequences = defaultdict(list)
     n_detector = n_other = 0
     for f in sorted(os.listdir(path)):
-        m = re.match(r'(.+)-S\d+\.h5', osp.basename(f))
+        m = re.match(r'(.+)-S\d+\.h5$', f)
         if m:
             segment_sequences[m.group(1)].append(f)
             if FilenameInfo(f).is_detector:
-- 
2.43.0


From dd0669cd783414c2549a0394ddae6eafa47c5d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 59/66] fix: lsxfel shows names of several directories given
 with trailing slashes

---
 karabo_data/lsxfel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karabo_data/lsxfel.py b/karabo_data/lsxfel.py
index eee95e9..55d084e 100644
--- a/karabo_data/lsxfel.py
+++ b/karabo_data/lsxfel.py
@@ -75,7 +75,7 @@ def describe_run(path):
 
 
 def summarise_run(path, indent=''):
-    basename = os.path.basename(path)
+    basename = os.path.basename(os.path.abspath(path))
 
     # Accessing all the files in a run can be slow. To get the number of trains,
     # pick one set of segments (time slices of data from the same source).
@@ -152,7 +152,7 @@ def main(argv=None):
     else:
         exit_code = 0
         for path in paths:
-            basename = os.path.basename(path)
+            basename = os.path.basename(os.path.abspath(path))
 
             if os.path.isdir(path):
                 contents = os.listdir(path)
-- 
2.43.0


From b4e290ac82c147ffe2aac04cab07a373b5ba9e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 60/66] fix: write() closes the file it has written

---
 karabo_data/writer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/karabo_data/writer.py b/karabo_data/writer.py
index b276a17..f1b9dd2 100644
--- a/karabo_data/writer.py
+++ b/karabo_data/writer.py
@@ -107,6 +107,7 @@ class FileWriter:
         self.write_indexes()
         self.write_metadata()
         self.set_writer()
+        self.file.close()
 
 
 class VirtualFileWriter(FileWriter):
-- 
2.43.0


From ba7ab4af18d5e916f9b45d67092114c29bce9976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 61/66] fix: rows of get_dataframe() in train order

---
 karabo_data/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 80f3a98..b8c9e8e 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -639,7 +639,8 @@ class DataCollection:
                     continue
                 series.append(self.get_series(source, key))
 
-        return pd.concat(series, axis=1)
+        # Rows in train order, also when some trains are missing from some series
+        return pd.concat(series, axis=1, sort=True)
 
     def get_array(self, source, key, extra_dims=None, roi=by_index[...]):
         """Return a labelled array for a particular data field.
-- 
2.43.0


From 7b638892541ed51ea24f7df1b912d8ad2231146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:48 +0000
Subject: [PATCH 62/66] fix: hdf5_to_cbf() failed for the current file format,
 ignored the header and left the file open

---
 karabo_data/utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index cf9c7d3..92b6867 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -136,10 +136,14 @@ def numpy_to_cbf(np_array, index=0, header=None):
 
 def hdf5_to_cbf(in_h5file, cbf_filename, index, header=None):
     """Conversion from HDF5 file to cbf binary image file"""
-    tmpf = h5py.File(in_h5file, 'r')
-    paths = list(tmpf["METADATA/dataSourceId"])
-    image_path = [p for p in paths if p.endswith(b"image")][0]
-    images = tmpf[image_path + b"/data"]
-    cbf_out = numpy_to_cbf(images, index=index)
+    with h5py.File(in_h5file, 'r') as tmpf:
+        if "METADATA/dataSourceId" in tmpf:
+            paths = list(tmpf["METADATA/dataSourceId"])
+        else:
+            # File format version 1.0 onwards
+            paths = list(tmpf["METADATA/dataSources/dataSourceId"])
+        image_path = [p for p in paths if p.endswith(b"image")][0]
+        images = tmpf[image_path + b"/data"]
+        cbf_out = numpy_to_cbf(images, index=index, header=header)
     cbf_out.write(cbf_filename)
     print("Convert {} index {} to {}".format(in_h5file, index, cbf_filename))
-- 
2.43.0


From eee2227851b76a90f03a542a3db714ada530edb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:48 +0000
Subject: [PATCH 63/66] fix: older LPDGeometry applied the unit only to part of
 the positions

---
 karabo_data/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/geometry.py b/karabo_data/geometry.py
index 7157a40..8ce32e6 100644
--- a/karabo_data/geometry.py
+++ b/karabo_data/geometry.py
@@ -75,7 +75,7 @@ class GeometryFragment:
     @classmethod
     def from_h5_group(cls, group, unit=1e-3):
         children = {
-            key: GeometryFragment.from_h5_group(val)
+            key: GeometryFragment.from_h5_group(val, unit=unit)
             for (key, val) in group.items()
             if isinstance(val, h5py.Group)
         }
-- 
2.43.0


From 691616546f4f69df5c98fd5af5e4c1e76a7cb39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:48 +0000
Subject: [PATCH 64/66] fix: AGIPD geometries were compared on axes 20 metres
 wide

---
 karabo_data/geometry2/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 82108d9..37a9247 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -723,25 +723,27 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
 
         rects = []
         arrows = []
+        # Fragment positions are in metres, the plot is in pixels
+        px_scale = self._get_plot_scale_factor('px')
         for p, module in enumerate(self.modules):
             for a, fragment in enumerate(module):
-                corners = fragment.corners()[:, :2]  # Drop the Z dimension
+                corners = fragment.corners()[:, :2] * px_scale  # Drop the Z dimension
                 corner1, corner1_opp = corners[0], corners[2]
 
                 rects.append(Polygon(corners))
                 if a in {0, 7}:
-                    cx, cy, _ = fragment.centre()
+                    cx, cy, _ = fragment.centre() * px_scale
                     ax.text(cx, cy, str(a),
                             verticalalignment='center',
                             horizontalalignment='center')
                 elif a == 4:
-                    cx, cy, _ = fragment.centre()
+                    cx, cy, _ = fragment.centre() * px_scale
                     ax.text(cx, cy, 'p{}'.format(p),
                             verticalalignment='center',
                             horizontalalignment='center')
 
                 panel2 = other.modules[p][a]
-                corners2 = panel2.corners()[:, :2]
+                corners2 = panel2.corners()[:, :2] * px_scale
                 corner2, corner2_opp = corners2[0], corners2[2]
                 dx, dy = corner2 - corner1
                 if not (dx == dy == 0):
-- 
2.43.0


From bd21d3ff0dbb7c2e12b9ca3115c4b72e4209538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:48 +0000
Subject: [PATCH 65/66] fix: DSSC data plotted in metres was stretched along y

---
 karabo_data/geometry2/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 37a9247..596f3e3 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -1000,7 +1000,8 @@ class SnappedGeometry:
         _extent = np.array((min_x - 0.5, max_x + 0.5, min_y - 0.5, max_y + 0.5))
         cross_size = 20
         if axis_units == 'm':
-            _extent *= self.geom.pixel_size
+            # Pixels may not be square (DSSC)
+            _extent *= np.repeat(self.geom._pixel_shape, 2)
             cross_size *= self.geom.pixel_size
 
         # Use a dark grey for missing data
@@ -1484,7 +1485,7 @@ class DSSC_1MGeometry(DetectorGeometryBase):
                                     **kwargs)
         # Squash image to physically equal aspect ratio, so a circle projected
         # on the detector looks like a circle on screen.
-        ax.set_aspect(204/236.)
+        ax.set_aspect(204/236. if axis_units == 'px' else 'equal')
         return ax
 
     @classmethod
-- 
2.43.0


From 7f5352fea228a6e866e4171cd0a8ba348772efe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:52 +0000
Subject: [PATCH 66/66] fix: select pulses by ID from trains whose pulse IDs
 are not in order

Iterating over detector trains with a slice of pulse IDs assumed that the IDs
are sorted, and otherwise included frames outside the slice or left some out,
unlike get_array().
---
 karabo_data/components.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index e717d3c..bb0adb6 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -457,14 +457,17 @@ class MPxDetectorTrainIterator:
         Returns an array or slice of the indexes to include.
         """
         val = self.pulses.value
-        N = len(pulse_ids)
         if isinstance(val, slice):
             if val.step == 1:
-                after_start = np.nonzero(pulse_ids >= val.start)[0]
-                after_stop = np.nonzero(pulse_ids >= val.stop)[0]
-                start_ix = after_start[0] if (after_start.size > 0) else N
-                stop_ix = after_stop[0] if (after_stop.size > 0) else N
-                return slice(start_ix, stop_ix)
+                # Pulse IDs are normally sorted, so this should be contiguous
+                ixs = np.nonzero(
+                    (pulse_ids >= val.start) & (pulse_ids < val.stop)
+                )[0]
+                if ixs.size == 0:
+                    return slice(0, 0)
+                if ixs[-1] - ixs[0] + 1 == ixs.size:
+                    return slice(ixs[0], ixs[-1] + 1)
+                return ixs
 
             # step != 1
             desired = np.arange(val.start, val.stop, step=val.step, dtype=np.uint64)
-- 
2.43.0

