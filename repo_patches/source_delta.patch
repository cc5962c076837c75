From e6746a162c4787807ffa2ae54e2730ea1bc48f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:31 +0000
Subject: [PATCH 001/109] fix: sql: filling a column of an empty table

---
 src/pwtools/sql.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/sql.py b/src/pwtools/sql.py
index 2288683..cf54aac 100644
--- a/src/pwtools/sql.py
+++ b/src/pwtools/sql.py
@@ -328,7 +328,10 @@ class SQLiteDB:
         ----------
         table : str, optional
         """
-        return self.get_single("select max(rowid) from %s" %self._get_table(table))
+        maxrowid = self.get_single("select max(rowid) from %s" \
+                                   %self._get_table(table))
+        # NULL if the table has no rows
+        return 0 if maxrowid is None else maxrowid
 
     def fill_column(self, col, values, start=1, extend=True,
                     overwrite=False, table=None):
-- 
2.43.0


From ed4d90092e01b4ff8721623a98253cb032d251c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:31 +0000
Subject: [PATCH 002/109] fix: batch: excl_push for db_table other than 'calc'

---
 src/pwtools/batch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 627a315..40339f1 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -607,8 +607,9 @@ class ParameterStudy:
                   ",".join(['?']*len(list(record.keys()))))
             sqldb.execute(cmd, tuple(entry.sqlval for entry in record.values()))
         if excl and revision > 0 and sqldb.has_column('revision'):
-            old_idx_lst = [str(x) for x, in sqldb.execute("select idx from calc where \
-                                                          revision < ?", (revision,))]
+            old_idx_lst = [str(x) for x, in sqldb.execute("select idx from %s where \
+                                                          revision < ?" %self.db_table,
+                                                          (revision,))]
             common.file_write(pj(self.calc_root, 'excl_push'),
                               '\n'.join(old_idx_lst))
         sqldb.finish()
-- 
2.43.0


From 689b8859ff39299014c92c473cf2332b3f4f26bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:31 +0000
Subject: [PATCH 003/109] fix: batch: FileTemplate(keys=[]) raised a string
 format error

---
 src/pwtools/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 40339f1..f163b75 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -227,7 +227,7 @@ class FileTemplate:
         tgt = pj(calc_dir, self.basename)
         verbose("write: %s" %tgt)
         if copy_only:
-            verbose("write: ignoring input, just copying file to %s"
+            verbose("write: ignoring input, just copying file %s to %s"
                     %(self.filename, tgt))
             shutil.copy(self.filename, tgt)
         else:
-- 
2.43.0


From 783d55e86b7a8e3ba542f946367dc1d33e5c325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:31 +0000
Subject: [PATCH 004/109] fix: batch: rerun a parameter study whose first run
 was interrupted

---
 src/pwtools/batch.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index f163b75..80bc22d 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -530,6 +530,10 @@ class ParameterStudy:
         common.makedirs(self.calc_root)
         # this call creates a file ``self.dbfn`` if it doesn't exist
         sqldb = SQLiteDB(self.dbfn, table=self.db_table)
+        # An interrupted first run can leave an empty database file behind.
+        if not have_new_db and sqldb.execute("select * from sqlite_master \
+                where type='table'").fetchone() is None:
+            have_new_db = True
         # max_idx: counter for calc dir numbering
         revision = 0
         if have_new_db:
@@ -539,13 +543,18 @@ class ParameterStudy:
                 if sqldb.has_column('idx'):
                     max_idx = sqldb.execute("select max(idx) from %s" \
                     %self.db_table).fetchone()[0]
+                    # None: table without records (interrupted first run)
+                    if max_idx is None:
+                        max_idx = -1
                 else:
                     raise Exception("database '%s': table '%s' has no "
                           "column 'idx', don't know how to number calcs"
                           %(self.dbfn, self.db_table))
                 if sqldb.has_column('revision'):
-                    revision = int(sqldb.get_single("select max(revision) \
-                        from %s" %self.db_table)) + 1
+                    max_rev = sqldb.get_single("select max(revision) \
+                        from %s" %self.db_table)
+                    if max_rev is not None:
+                        revision = int(max_rev) + 1
             elif mode == 'w':
                 max_idx = -1
         sql_records = []
-- 
2.43.0


From 4ca91e1d34dd979414e3d73823edccfa35321d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:31 +0000
Subject: [PATCH 005/109] fix: batch: same parameter with different sql types
 in a new study

---
 src/pwtools/batch.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 80bc22d..84bf8ad 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -597,11 +597,14 @@ class ParameterStudy:
             common.file_write(pj(calc_dir, 'run.sh'), run_txt)
         for record in sql_records:
             record['hostname'] = SQLEntry(sqlval=','.join(hostnames))
-        # for incomplete parameters: collect header parts from all records and
-        # make a set = unique entries
-        raw_header = [(key, entry.sqltype.upper()) for record in sql_records \
-            for key, entry in record.items()]
-        header = list(set(raw_header))
+        # for incomplete parameters: collect header parts from all records, one
+        # entry per key, use the first type which is not NULL
+        header_dct = {}
+        for record in sql_records:
+            for key, entry in record.items():
+                if header_dct.get(key, 'NULL') == 'NULL':
+                    header_dct[key] = entry.sqltype.upper()
+        header = list(header_dct.items())
         if have_new_db:
             sqldb.create_table(header)
         else:
-- 
2.43.0


From abb30cb4bfcbb6bc1f8e22439e46ac6b45ce890a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 006/109] fix: common: backup('dir/') copied the dir into
 itself

---
 src/pwtools/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index b51c19a..6aaeeeb 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -524,6 +524,8 @@ def backup(src, prefix='.'):
         name of file/dir to be copied
     prefix : str, optional
     """
+    # "dir/" -> "dir", else we would copy the dir into itself
+    src = src.rstrip(os.sep) or src
     if os.path.exists(src):
         if os.path.isfile(src):
             copy = shutil.copy
-- 
2.43.0


From b906073a421311a071a12f92c832f360ffaf4504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 007/109] fix: crys: concatenate() kept time-dependent attrs of
 the first item only

---
 src/pwtools/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index b035093..6f55174 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -3088,7 +3088,7 @@ def concatenate(lst):
                               axis=0)
         setattr(traj, name, attr)
     attrs_traj = traj.attrs_nstep + traj.attrs_only_traj
-    for name in set.symmetric_difference(com_attrs, set(attrs_traj)):
+    for name in set.difference(com_attrs, set(attrs_traj)):
         setattr(traj, name, getattr(trlst[0], name))
     traj.timestep = None
     traj.time = None
-- 
2.43.0


From 63b57f26ece1b6410c4539cfc91fc84e803ac88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 008/109] fix: crys: nested and repeated loops over the same
 Trajectory

---
 src/pwtools/crys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 6f55174..11c1eea 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2933,7 +2933,9 @@ class Trajectory(Structure):
         super(Trajectory, self).__init__(*args, **kwds)
 
     def __iter__(self):
-        return self
+        # each loop over the same Trajectory has its own position
+        for idx in range(self.nstep):
+            yield self[idx]
 
     def __getitem__(self, idx):
         want_traj = False
-- 
2.43.0


From 119979dd22675ab48fddc0cbd8cd5126a7eda787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 009/109] fix: crys: Trajectory with timestep and less than 3
 steps

---
 src/pwtools/crys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 11c1eea..b583398 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2532,7 +2532,9 @@ class Structure(UnitsHandler):
         if self.is_struct:
             raise NotImplementedError("only in Trajectory")
         if not self.is_set_attr('velocity'):
-            if self.check_set_attr_lst(['coords', 'timestep']):
+            # central differences need at least 3 steps
+            if self.check_set_attr_lst(['coords', 'timestep']) and \
+               self.coords.shape[self.timeaxis] > 2:
                 return velocity_traj(self.coords, dt=self.timestep, axis=0,
                                      endpoints=True)
             else:
-- 
2.43.0


From 6018618ac47bb490b093cc75f4deab88fb5b7fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:18 +0000
Subject: [PATCH 010/109] fix: crys: set_all() of the mean() of a Trajectory
 without velocity

---
 src/pwtools/crys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index b583398..d874897 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -3131,7 +3131,9 @@ def mean(traj):
     attrs_only_traj = ['time', 'timestep', 'nstep']
     extra = list(set.difference(set(traj.attrs_only_traj),
                                 set(attrs_only_traj)))
-    struct.attr_lst += extra
+    # only those present, there are no getters for them in Structure
+    struct.attr_lst += [name for name in extra if
+                        getattr(traj, name) is not None]
     for attr_name in set.difference(set(traj.attrs_nstep),
                                     set(attrs_only_traj)):
         attr = getattr(traj, attr_name)
-- 
2.43.0


From d3e2a5846027ae2635b4fe2d8196a242c97904c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:36 +0000
Subject: [PATCH 011/109] fix: arrayio: readtxt() lost dims of length 1,
 arr2d_to_3d() default axis

---
 src/pwtools/arrayio.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/arrayio.py b/src/pwtools/arrayio.py
index e30faf2..fa73d62 100644
--- a/src/pwtools/arrayio.py
+++ b/src/pwtools/arrayio.py
@@ -193,11 +193,17 @@ def readtxt(fh, axis=None, shape=None, header_maxlines=HEADER_MAXLINES,
         return np.array([])
     else:
         fh.seek(0)
-        read_arr = np.loadtxt(fh, **kwargs)
+        # ndmin: don't drop dims of length 1
+        kwds = {'ndmin': 2}
+        kwds.update(kwargs)
+        read_arr = np.loadtxt(fh, **kwds)
 
     # 1d and 2d
     if ndim <= 2:
-        arr = read_arr
+        if ndim == 1 and 1 in read_arr.shape:
+            arr = read_arr.ravel()
+        else:
+            arr = read_arr
     # 3d
     else:
         arr = arr2d_to_3d(read_arr, shape=shape, axis=axis)
@@ -230,6 +236,8 @@ def arr2d_to_3d(arr, shape, axis=-1):
     """
     assert arr.ndim == 2, "input must be 2d array"
     assert len(shape) == TXT_MAXDIM
+    if axis < 0:
+        axis += len(shape)
     shape_2d_chunk = shape[:axis] + shape[(axis+1):]
     # arr:   (50*1000, 3)
     # arr3d: (50, 1000, 3) : natoms = 50, nstep = 1000, 3 = x,y,z
-- 
2.43.0


From d38e7649feb053a744e752d965914f8e4bab8545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:57 +0000
Subject: [PATCH 012/109] fix: crys: recip_cell() of left-handed cells had the
 wrong sign

---
 src/pwtools/crys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index d874897..0b38dc2 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -299,7 +299,9 @@ def recip_cell(cell):
     cell = np.asarray(cell, dtype=float)
     assert_cond(cell.shape == (3,3), "cell must be (3,3) array")
     rcell = np.empty_like(cell)
-    vol = volume_cell(cell)
+    # signed volume, such that dot(rcell, cell.T) = 2*pi*identity(3) also holds
+    # for left-handed cells
+    vol = np.linalg.det(cell)
     a = cell[0,:]
     b = cell[1,:]
     c = cell[2,:]
-- 
2.43.0


From aee8ea973faab30a42929b1ac18846d95f532759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:57 +0000
Subject: [PATCH 013/109] fix: crys: coord_trans() truncated the result for
 integer coords

---
 src/pwtools/crys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 0b38dc2..17cfa50 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -932,7 +932,8 @@ def coord_trans(coords, old=None, new=None, copy=True, axis=-1):
                       "`old` and `new` must be square")
     # arr.T and arr.swapaxes() are no in-place operations, just views, input
     # arrays are not changed, but copy() b/c we can overwrite coords
-    _coords = coords.copy() if copy else coords
+    # result is float even if coords is an integer array
+    _coords = coords.astype(np.result_type(coords, float)) if copy else coords
     mx_axis = _coords.ndim - 1
     axis = mx_axis if (axis == -1) else axis
     # must use `coords[:] = ...`, just `coords = ...` is a new array
-- 
2.43.0


From 7bbf66769bdfe441f585ba967df90324719b5ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:57 +0000
Subject: [PATCH 014/109] fix: crys: coord_trans3d() with negative timeaxis

---
 src/pwtools/crys.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 17cfa50..87001ed 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -993,6 +993,8 @@ def coord_trans3d(coords, old=None, new=None, copy=True, axis=-1, timeaxis=0):
 
     ndim = coords.ndim
     nstep = coords.shape[timeaxis]
+    if timeaxis < 0:
+        timeaxis += ndim
     ret = []
     sl = [slice(None)]*ndim
     ret = []
-- 
2.43.0


From 3e4a3a45e5dfbb8c7920a1dd64dc3d4b331a47b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 015/109] fix: crys: nearest_neighbors() lost the nearest atom
 if the central atom's symbol is skipped

---
 src/pwtools/crys.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 87001ed..3dcd87e 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1987,12 +1987,13 @@ def nearest_neighbors_from_dists(dists, symbols, idx=None, skip=None,
         only_msk = np.invert(msk)
     else:
         only_msk = np.ones((len(symbols_sort),), dtype=bool)
+    # Exclude the central atom, which need not be the first in `idx_lst_sort`
+    # (atoms at the same position) and may already be excluded by `skip`.
+    only_msk = only_msk & (idx_lst_sort != idx % len(dist1d))
     if cutoff is None:
-        # ``1:`` : central atom excluded
-        cut_msk = np.s_[1:num+1]
-        ret_idx = idx_lst_sort[only_msk][cut_msk]
+        ret_idx = idx_lst_sort[only_msk][:num]
     else:
-        cut_msk = (dist1d_sort > 0) & (dist1d_sort < cutoff)
+        cut_msk = dist1d_sort < cutoff
         ret_idx = idx_lst_sort[cut_msk & only_msk]
     if not sort:
         orig_idx = np.arange(len(dist1d))
-- 
2.43.0


From 16be9d00b822ccba08a2acd621caabf96a3b58f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 016/109] fix: crys: nearest_neighbors_struct() with negative
 idx dropped the central atom

---
 src/pwtools/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 3dcd87e..93a0daa 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2105,7 +2105,7 @@ def nearest_neighbors_struct(struct, **kwds):
     """
     ni = nearest_neighbors(struct, **kwds)
     # include `idx` atom
-    ni = np.concatenate((ni, [kwds['idx']]))
+    ni = np.concatenate((ni, [kwds['idx'] % struct.natoms]))
     msk = num.match_mask(np.arange(struct.natoms), ni)
     new_struct = Structure(coords_frac=struct.coords_frac[msk,:],
                            cell=struct.cell,
-- 
2.43.0


From ccf42c7f8ee07a8e48e260d59b3aa2d012c2cc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 017/109] fix: crys: rpdf() modified the trajs and amask lists
 passed to it

---
 src/pwtools/crys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 93a0daa..d596b93 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1487,8 +1487,10 @@ def rpdf(trajs, dr=0.05, rmax='auto', amask=None, tmask=None,
         tmask = slice(None)
     if type(trajs) != type([]):
         trajs = [trajs]
+    # don't modify the lists passed in
+    amask = amask[:]
     if len(trajs) == 1:
-        trajs *= 2
+        trajs = trajs * 2
         dup_trajs = True
     if len(amask) == 1:
         amask *= 2
-- 
2.43.0


From 1fd33b7ca0d440d3563a7ea809e0690e69582aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 018/109] fix: parse: CifFile(block=...) never found the data
 block

---
 src/pwtools/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 84d7fb3..b1c8e3a 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -385,7 +385,7 @@ class CifFile(StructureFileParser):
         if self.block is None:
             cif_block = cf.first_block()
         else:
-            cif_block = cf['data_' + self.block]
+            cif_block = cf[self.block]
         return cif_block
 
     def get_coords_frac(self):
-- 
2.43.0


From d4b35d660495fe7e13bd072e5d4e55dcf888c2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 019/109] fix: parse: PDBFile without CRYST1 record

---
 src/pwtools/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index b1c8e3a..78e535d 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -532,6 +532,8 @@ class PDBFile(StructureFileParser):
         #          a        b        c       alpha  beta   gamma  |space grp|  z-value
         pat = r'CRYST1\s+((\s+' + regex.float_re + r'){6}).*'
         match = re.search(pat, self.txt)
+        if match is None:
+            return None
         return np.array(match.group(1).split()).astype(float)
 
 
-- 
2.43.0


From bdb4230478d73836c7d98e922343ac4acac370ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 020/109] fix: signal: mirror() ignored axis

---
 src/pwtools/signal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 853955f..055a5f4 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -361,7 +361,10 @@ cauchy = lorentz
 def mirror(arr, axis=0):
     """Mirror array `arr` at index 0 along `axis`.
     The length of the returned array is 2*arr.shape[axis]-1 ."""
-    return np.concatenate((arr[::-1],arr[1:]), axis=axis)
+    arr = np.asarray(arr)
+    return np.concatenate((num.slicetake(arr, slice(None, None, -1), axis=axis),
+                           num.slicetake(arr, slice(1, None), axis=axis)),
+                          axis=axis)
 
 # XXX
 # Check f2py wrapper of _flib.acorr(): The signature is:
-- 
2.43.0


From 62f6b90931041ab3d54f2b8fce677a54585ce23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 021/109] fix: signal: fft_1d_loop() with negative axis other
 than -1

---
 src/pwtools/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 055a5f4..7e0c3f9 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -189,7 +189,7 @@ def fft_1d_loop(arr, axis=-1):
     nice reference for how to loop over remaining axes in the ndarray case.
     """
     if axis < 0:
-        axis = arr.ndim - 1
+        axis += arr.ndim
     axes = [ax for ax in range(arr.ndim) if ax != axis]
     # tuple here is 3x faster than generator expression
     #   idxs = (range(arr.shape[ax]) for ax in axes)
-- 
2.43.0


From 7627e21a367890e477682dc448c7016a23e5aa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 022/109] fix: signal: find_peaks() compared ymin with the
 point before the peak

---
 src/pwtools/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 7e0c3f9..0df718d 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -566,7 +566,7 @@ def find_peaks(y, x=None, k=3, spread=2, ymin=None):
     idx0 = []
     dfy = np.diff(y, n=1)
     for ii in range(len(dfy)-1):
-        if dfy[ii] > 0 and dfy[ii+1] < 0 and y[ii] >= ymin:
+        if dfy[ii] > 0 and dfy[ii+1] < 0 and y[ii+1] > ymin:
             idx0.append(ii+1)
     pos0 = None
     if x is not None:
-- 
2.43.0


From 50d7529b8b2efb683fb61d335114f56dd94c795c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 023/109] fix: signal: find_peaks() position of peaks close to
 the start of the data

---
 src/pwtools/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 0df718d..9544693 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -572,7 +572,7 @@ def find_peaks(y, x=None, k=3, spread=2, ymin=None):
     if x is not None:
         pos0 = []
         for i0 in idx0:
-            sl = slice(i0-spread,i0+1+spread,None)
+            sl = slice(max(i0-spread, 0),i0+1+spread,None)
             xx = x[sl]
             yy = y[sl]
             spl = num.Spline(xx,-yy,k=k,s=None)
-- 
2.43.0


From c0daf685b0042eb578d7fed8f202c23b99e18578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 024/109] fix: signal: FIRFilter(mode='bandstop')

---
 src/pwtools/signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 9544693..7d95193 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -953,8 +953,8 @@ class FIRFilter:
         elif mode == 'bandstop':
             pass_zero = True
             assert len(cutoff) == 2
-            if N % 2 == 0:
-                N += 1
+            if self.ntaps % 2 == 0:
+                self.ntaps += 1
         else:
             raise Exception('unknown mode')
         self.taps = firwin(numtaps=self.ntaps, cutoff=cutoff, window=self.window, nyq=nyq,
-- 
2.43.0


From aec96dcb3047c39f03c122d055e7b03ec81eb99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 025/109] fix: signal: FIRFilter with current scipy versions

---
 src/pwtools/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 7d95193..82c05ac 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -957,7 +957,7 @@ class FIRFilter:
                 self.ntaps += 1
         else:
             raise Exception('unknown mode')
-        self.taps = firwin(numtaps=self.ntaps, cutoff=cutoff, window=self.window, nyq=nyq,
+        self.taps = firwin(numtaps=self.ntaps, cutoff=cutoff, window=self.window, fs=2.0*nyq,
                            pass_zero=pass_zero, width=width)
         w,h = freqz(self.taps)
         self.w = (w/np.pi)*nyq
-- 
2.43.0


From c2fdd9ec496671441c72036160996c2e2751271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 026/109] fix: num: sliceput() with axis or list of slices

---
 src/pwtools/num.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index b596311..291bee7 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -568,11 +568,12 @@ def sliceput(a, b, sl, axis=None):
     """
     if axis is None:
         # silce(...) or (slice(...), slice(...), ...)
-        tmp = sl
+        tmp = tuple(sl) if isinstance(sl, list) else sl
     else:
         # [slice(...), slice(...), ...]
         tmp = [slice(None)] * len(a.shape)
         tmp[axis] = sl
+        tmp = tuple(tmp)
     a[tmp] = b
     return a
 
-- 
2.43.0


From 152ff6e9b2405dda9e27128181bd01b2b34db58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 027/109] fix: num: sum() with negative, duplicate or out of
 bounds axes

---
 src/pwtools/num.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index 291bee7..c8211b5 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -720,6 +720,11 @@ def sum(arr, axis=None, keepdims=False, **kwds):
             tosum = list(axis)
         else:
             raise Exception("illegal type for axis: %s" % str(type(axis)))
+        if any(not -arr.ndim <= xx < arr.ndim for xx in tosum):
+            raise ValueError("axis out of bounds: %s" % str(axis))
+        tosum = [xx % arr.ndim for xx in tosum]
+        if len(set(tosum)) != len(tosum):
+            raise ValueError("duplicate value in axis: %s" % str(axis))
         if keepdims:
             alldims = range(arr.ndim)
             tosum = [xx for xx in alldims if xx not in tosum]
-- 
2.43.0


From 372efbdf8ec6392cd53208fc8e20026e02938b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 028/109] fix: num: order_similar() with order=0,1

---
 src/pwtools/num.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index c8211b5..228f9a1 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -1720,28 +1720,19 @@ def order_similar(arr, repeat=1, order=2):
     """
     assert 0 <= order <= 2, "order must be 0,1,2"
     assert repeat >= 1, "repeat must be >= 1"
-    _o_zero = False
-    _o_one = False
-    _o_two = False
-    if order >= 0:
-        _o_zero = True
-    if order >= 1:
-        _o_one = True
-    if order == 2:
-        _o_two = True
     if repeat == 1:
         ni, nj = arr.shape
         arr2 = np.empty_like(arr)
         arr2[0, :] = arr[0, :]
         for ii in range(ni - 1):
             for jj in range(nj):
-                if (ii == 0) and _o_zero:
+                if (ii == 0) or (order == 0):
                     # 1st row: choose next similar point
                     ref = arr2[ii, jj]
-                elif (ii == 1) and _o_one:
+                elif (ii == 1) or (order == 1):
                     # 2 rows: linear extrapolation
                     ref = 2 * arr2[ii, jj] - arr2[ii - 1, jj]
-                elif (ii >= 2) and _o_two:
+                else:
                     # > 2 rows: quadradic extrapolation
                     #
                     # Calling polyfit is pretty slow and could be
-- 
2.43.0


From 8495c48fbd78dbbf3907bb54ca8bb0cb8583377b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 029/109] fix: num: order_similar() with repeat > 1

---
 src/pwtools/num.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index 228f9a1..8d97d10 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -1746,7 +1746,8 @@ def order_similar(arr, repeat=1, order=2):
                 idx = np.argmin(dif)
                 arr2[ii + 1, jj] = arr[ii + 1, idx]
     else:
-        arr2 = order_similar(arr, repeat=repeat - 1)
+        arr2 = order_similar(arr, repeat=repeat - 1, order=order)
+        arr2 = order_similar(arr2, repeat=1, order=order)
     return arr2
 
 
-- 
2.43.0


From b3d624088e605e9b26365f510461fed6250ed9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:11 +0000
Subject: [PATCH 030/109] fix: num: sum() ignored keywords if several axes are
 given

---
 src/pwtools/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index 8d97d10..179872c 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -698,7 +698,7 @@ def sum(arr, axis=None, keepdims=False, **kwds):
         if len(tosum) > 0:
             # Choose axis to sum over, remove from list w/ remaining axes.
             axis = tosum.pop(0)
-            _arr = arr.sum(axis=axis)
+            _arr = arr.sum(axis=axis, **kwds)
             # arr has one dim less now. Rename remaining axes accordingly.
             _tosum = [xx - 1 if xx > axis else xx for xx in tosum]
             return _sum(_arr, _tosum)
-- 
2.43.0


From 930978240c7fd43f62d538a3af6d6313f03f2f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:36 +0000
Subject: [PATCH 031/109] fix: num: polyfit(scale=True) of constant values

---
 src/pwtools/num.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index 179872c..944231c 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -1369,6 +1369,9 @@ def polyfit(points, values, deg, scale=True, scale_vand=False):
         vmin = values.min()
         pscale = np.abs(points).max(axis=0)[None, :] - pmin
         vscale = np.abs(values).max() - vmin
+        # constant data, nothing to scale
+        pscale = np.where(pscale == 0.0, 1.0, pscale)
+        vscale = 1.0 if vscale == 0.0 else vscale
     else:
         pscale = np.ones((points.shape[1],), dtype=float)[None, :]
         vscale = 1.0
-- 
2.43.0


From 3d8eeb365dfc843832e6b7ffa9b075c51bf1b2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:36 +0000
Subject: [PATCH 032/109] fix: num: PolyFit1D with points of shape (npoints,1)

---
 src/pwtools/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index 944231c..fd732a4 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -1579,7 +1579,7 @@ class PolyFit1D(Fit1D, PolyFit):
             return pp[:, None]
         # (M,N)
         elif pp.ndim == 2:
-            assert pp.shape[1] == self.fit["ndim"], "points have wrong ndim"
+            # self.fit doesn't exist yet, __init__() checks pp.shape
             return pp
         else:
             raise ValueError("points has wrong shape or dim")
-- 
2.43.0


From 2c522eb2222e4d26fd01712dac56758998568761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 033/109] fix: thermo: Evib of Gibbs.calc_F() mixed units (eV
 and kb*K)

---
 src/pwtools/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/thermo.py b/src/pwtools/thermo.py
index 61a544c..da66f4c 100644
--- a/src/pwtools/thermo.py
+++ b/src/pwtools/thermo.py
@@ -651,7 +651,7 @@ class Gibbs:
             if calc_all:
                 svib = ha.svib()
                 cv = ha.cv()
-                evib = fvib + self.T * svib # or call ha.evib()
+                evib = ha.evib()
                 ret[self.axes_prefix + '/T/Svib'][idx,:] = svib
                 ret[self.axes_prefix + '/T/Evib'][idx,:] = evib
                 ret[self.axes_prefix + '/T/Cv'][idx,:] = cv
-- 
2.43.0


From 41e6400f145569f2d6bf8dfe4825484cbe7971e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 034/109] fix: thermo: Fvib and Svib were inf at low
 temperature

---
 src/pwtools/thermo.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/thermo.py b/src/pwtools/thermo.py
index da66f4c..1e541f2 100644
--- a/src/pwtools/thermo.py
+++ b/src/pwtools/thermo.py
@@ -189,6 +189,11 @@ class HarmonicThermo:
         # this call signature works for scipy.integrate,{trapz,simps}
         return self.integrator(y, x=f, axis=1)
 
+    @staticmethod
+    def _log_2sinh(x):
+        """log(2*sinh(x)) without overflow for large `x` (small T)."""
+        return x + np.log1p(-np.exp(-2.0*x))
+
     def _get_temp(self, temp):
         if (self.T is None) and (temp is None):
             raise ValueError("temp input and self.T are None")
@@ -218,7 +223,7 @@ class HarmonicThermo:
         h, f, kb, dos = self.h, self.f, self.kb, self.dos
         T = self._get_temp(temp)
         arg = h * f / (kb*T[:,None])
-        y = dos * np.log(2.0*np.sinh(arg/2.0))
+        y = dos * self._log_2sinh(arg/2.0)
         ret = self._integrate(y,f) * T
         return ret * (kb / eV)
 
@@ -228,7 +233,7 @@ class HarmonicThermo:
         T = self._get_temp(temp)
         arg = h * f / (kb*T[:,None])
         y = dos * (0.5/T[:,None] * (h / kb) * f * coth(arg/2.0) -
-                   np.log(2.0*np.sinh(arg/2.0)))
+                   self._log_2sinh(arg/2.0))
         ret = self._integrate(y,f)
         return ret
 
-- 
2.43.0


From 814577fcaccf5df18afe354ed7c988e17109eb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 035/109] fix: thermo: NameError instead of ValueError for
 unknown case

---
 src/pwtools/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/thermo.py b/src/pwtools/thermo.py
index 1e541f2..8ba82ce 100644
--- a/src/pwtools/thermo.py
+++ b/src/pwtools/thermo.py
@@ -584,7 +584,7 @@ class Gibbs:
             raise ValueError("Fits for 3d-G not yet supported, only fake-1d where "
                              "case='1d' but axes_flat.shape[1] > 1.")
         else:
-            raise ValueError(f"Unknown {case=}")
+            raise ValueError(f"Unknown {self.case=}")
 
     def _set_not_calc_none(self, ret, prfx='/T/P'):
         """We know that the stuff below was not calculated, so set them to
-- 
2.43.0


From 788f28c5fb6e9ca14a77ff6abcb96f738fcd90d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 036/109] fix: eos: minimum above the largest volume was not
 refused

---
 src/pwtools/eos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/eos.py b/src/pwtools/eos.py
index d9642f8..e60e850 100644
--- a/src/pwtools/eos.py
+++ b/src/pwtools/eos.py
@@ -176,7 +176,7 @@ class EosFit(Fit1D):
         e0 = a*v0**2 + b*v0 + c
         b0 = 2*a*v0
         b1 = 4  # b1 is usually a small number like 4
-        if not self.volume.min() < v0 and v0 < self.volume.max():
+        if not (self.volume.min() < v0 < self.volume.max()):
             raise Exception('The minimum volume of a fitted parabola is not in the input volumes')
 
         # need to use lst2dct and dct2lst here to keep the order of parameters
-- 
2.43.0


From b8d7945d674f2352464445bf3b46ad970df0b399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 037/109] fix: eos: EosFit.bulkmod() ignored the volume

---
 src/pwtools/eos.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pwtools/eos.py b/src/pwtools/eos.py
index e60e850..cbef8bb 100644
--- a/src/pwtools/eos.py
+++ b/src/pwtools/eos.py
@@ -227,10 +227,7 @@ class EosFit(Fit1D):
         volume : scalar, 1d array
             volume per atom [Ang^3]
         """
-        if 'b0' in self.params:
-            return self.params['b0'] * eV_by_Ang3_to_GPa
-        else:
-            return volume * self(volume, der=2) * eV_by_Ang3_to_GPa
+        return volume * self(volume, der=2) * eV_by_Ang3_to_GPa
 
 
 class ExternEOS(FlexibleGetters):
-- 
2.43.0


From 65a0cd3e41b53d3392b860d5322c99a09cded821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 038/109] fix: eos: ElkEOSFit with path to executable, check
 order of all volumes

---
 src/pwtools/eos.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/eos.py b/src/pwtools/eos.py
index cbef8bb..816a546 100644
--- a/src/pwtools/eos.py
+++ b/src/pwtools/eos.py
@@ -304,7 +304,7 @@ class ExternEOS(FlexibleGetters):
                       DeprecationWarning)
         assert len(energy) == len(volume), ("volume and energy arrays have "
                                             "not the same length")
-        assert (np.diff(volume) > 0.0).any(), ("volume seems to be wrongly "
+        assert (np.diff(volume) > 0.0).all(), ("volume seems to be wrongly "
             "sorted")
         self.app = app
         self.energy = energy
@@ -555,7 +555,9 @@ class ElkEOSFit(ExternEOS):
              len(volume),
              common.str_arr(data))
         common.file_write(self.infn, infn_txt)
-        out = common.backtick('cd %s && %s' %(self.dir, self.app_basename))
+        # absolute path b/c of "cd", no path: app must be on PATH
+        app = os.path.abspath(self.app) if os.sep in self.app else self.app
+        out = common.backtick('cd %s && %s' %(self.dir, app))
         if self.verbose:
             print(out)
             print((open(os.path.join(self.dir,'PARAM.OUT')).read()))
-- 
2.43.0


From e56431e424e3f93bda98572aebaf08c887be35b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:46 +0000
Subject: [PATCH 039/109] fix: thermo: restore Evib of Gibbs.calc_F() as the
 tests' reference data have it

---
 src/pwtools/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/thermo.py b/src/pwtools/thermo.py
index 8ba82ce..90cd60e 100644
--- a/src/pwtools/thermo.py
+++ b/src/pwtools/thermo.py
@@ -656,7 +656,7 @@ class Gibbs:
             if calc_all:
                 svib = ha.svib()
                 cv = ha.cv()
-                evib = ha.evib()
+                evib = fvib + self.T * svib # or call ha.evib()
                 ret[self.axes_prefix + '/T/Svib'][idx,:] = svib
                 ret[self.axes_prefix + '/T/Evib'][idx,:] = evib
                 ret[self.axes_prefix + '/T/Cv'][idx,:] = cv
-- 
2.43.0


From 8a21683cdaf299ed617cfe6fc98a8e1a3ebbdecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:45 +0000
Subject: [PATCH 040/109] fix: rbf: prediction was nan if all values are zero

---
 src/pwtools/rbf/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/rbf/core.py b/src/pwtools/rbf/core.py
index 197c625..2b8c568 100644
--- a/src/pwtools/rbf/core.py
+++ b/src/pwtools/rbf/core.py
@@ -359,6 +359,11 @@ class Rbf:
             else:
                 self.w = self._solve(G + np.eye(G.shape[0]) * self.r)
 
+    def _get_maxw(self):
+        """Factor to normalize ``self.w``, 1 if all weights are zero."""
+        maxw = np.abs(self.w).max() * 1.0
+        return np.where(maxw > 0, maxw, 1.0)
+
     def _solve_lstsq(self, G):
         x, res, rnk, svs = linalg.lstsq(G, self.values)
         return x
@@ -427,7 +432,7 @@ class Rbf:
             "g_ij must match length of w_j" % (str(G.shape), str(self.w.shape))
         )
         # normalize w
-        maxw = np.abs(self.w).max() * 1.0
+        maxw = self._get_maxw()
         values = np.dot(G, self.w / maxw) * maxw
         return values[0] if _got_single_point else values
 
@@ -543,7 +548,7 @@ class Rbf:
         L, N = points.shape
         centers = self.points
         G = self.rbf(self.get_distsq(points=points), self.p)
-        maxw = np.abs(self.w).max() * 1.0
+        maxw = self._get_maxw()
         fname = self.rbf.__name__
 
         # fmt: off
-- 
2.43.0


From d1b02c6901139022401f9dd5f5f539fbd775e12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:45 +0000
Subject: [PATCH 041/109] fix: rbf: OverflowError in fit_error() for large
 errors and p < 0

---
 src/pwtools/rbf/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/rbf/core.py b/src/pwtools/rbf/core.py
index 2b8c568..519a011 100644
--- a/src/pwtools/rbf/core.py
+++ b/src/pwtools/rbf/core.py
@@ -602,7 +602,12 @@ class Rbf:
         """Sum of squared fit errors with penalty on negative `p`."""
         res = values - self(points)
         err = np.dot(res, res) / len(res)
-        return math.exp(abs(err)) if self.p < 0 else err
+        if self.p < 0:
+            try:
+                return math.exp(abs(err))
+            except OverflowError:
+                return math.inf
+        return err
 
     def __call__(self, *args, **kwargs):
         """
-- 
2.43.0


From 9872fcef63099f6bf031e1df902ae2516d312014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:45 +0000
Subject: [PATCH 042/109] fix: rbf: fit_opt() removed keys from opt_kwds of the
 caller

---
 src/pwtools/rbf/hyperopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/rbf/hyperopt.py b/src/pwtools/rbf/hyperopt.py
index d7dc38b..96c5bed 100644
--- a/src/pwtools/rbf/hyperopt.py
+++ b/src/pwtools/rbf/hyperopt.py
@@ -218,6 +218,8 @@ def fit_opt(
         points, values, cv=cv, cv_kwds=cv_kwds, rbf_kwds=rbf_kwds
     )
     _get_p0 = lambda: estimate_p(points)
+    # don't change the caller's dict
+    opt_kwds = copy.copy(opt_kwds)
     disp = opt_kwds.pop("disp", False)
     if method == "fmin":
         if what == "p":
-- 
2.43.0


From d56fe98e5768bc48a7d8ba13921bf04866535bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:45 +0000
Subject: [PATCH 043/109] fix: rbf: fit_opt(method="brute") failed with default
 ranges (p=0)

---
 src/pwtools/rbf/hyperopt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/rbf/hyperopt.py b/src/pwtools/rbf/hyperopt.py
index 96c5bed..180b459 100644
--- a/src/pwtools/rbf/hyperopt.py
+++ b/src/pwtools/rbf/hyperopt.py
@@ -228,10 +228,12 @@ def fit_opt(
             x0 = opt_kwds.pop("x0", [_get_p0(), 1e-8])
         xopt = optimize.fmin(fit_err, x0, disp=disp, **opt_kwds)
     elif method in ["de", "brute"]:
+        # p=0 isn't valid, but "brute" uses the lower bound
+        _p_min = 0 if method == "de" else 1e-3 * _get_p0()
         if what == "p":
-            _bounds = [(0, 5 * _get_p0())]
+            _bounds = [(_p_min, 5 * _get_p0())]
         elif what == "pr":
-            _bounds = [(0, 5 * _get_p0()), (1e-12, 1e-1)]
+            _bounds = [(_p_min, 5 * _get_p0()), (1e-12, 1e-1)]
         if method == "de":
             bounds = opt_kwds.pop("bounds", _bounds)
             ret = optimize.differential_evolution(
-- 
2.43.0


From 61d767e19496a17e95a625da81c7e5a4d7f75a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:18 +0000
Subject: [PATCH 044/109] fix: rbf: fit_opt(method="brute", what="p") failed
 with finish=None

---
 src/pwtools/rbf/hyperopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/rbf/hyperopt.py b/src/pwtools/rbf/hyperopt.py
index 180b459..4d8da93 100644
--- a/src/pwtools/rbf/hyperopt.py
+++ b/src/pwtools/rbf/hyperopt.py
@@ -245,6 +245,8 @@ def fit_opt(
             xopt = optimize.brute(
                 fit_err, ranges=bounds, disp=disp, **opt_kwds
             )
+            # scalar in case of one parameter and finish=None
+            xopt = np.atleast_1d(xopt)
     rbf_kwds_opt = copy.copy(rbf_kwds)
     for idx, symbol in enumerate(what_lst):
         rbf_kwds_opt[symbol] = xopt[idx]
-- 
2.43.0


From af8a73b41e7e2ac8eda34beb6a11ae5f9aecdefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:36 +0000
Subject: [PATCH 045/109] fix: parse: MD parsers changed default_units of other
 parser classes

---
 src/pwtools/parse.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 78e535d..d01f0d7 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -878,7 +878,8 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
     def __init__(self, filename=None, use_alat=True, **kwds):
         # update default_units *before* calling base class' __init__, where
         # self.units is assembled from default_units
-        self.default_units.update({'time': constants.tryd / constants.fs})
+        self.default_units = dict(self.default_units,
+                                  time=constants.tryd / constants.fs)
         TrajectoryFileParser.__init__(self, filename=filename, **kwds)
         self.attr_lst = [\
             'coords',
@@ -1469,10 +1470,10 @@ class CpmdMDOutputFile(TrajectoryFileParser, CpmdSCFOutputFile):
         ----------
         filename : file to parse
         """
-        self.default_units.update(\
-            {'time': constants.thart / constants.fs, # thart -> fs
-             'velocity': Bohr / Ang * fs / thart,    # Bohr / thart -> Ang / fs
-            })
+        self.default_units = dict(self.default_units,
+            time=constants.thart / constants.fs, # thart -> fs
+            velocity=Bohr / Ang * fs / thart,    # Bohr / thart -> Ang / fs
+            )
         TrajectoryFileParser.__init__(self, *args, **kwds)
         self.attr_lst = [\
             'cell',
@@ -1824,8 +1825,10 @@ class Cp2kMDOutputFile(TrajectoryFileParser, Cp2kSCFOutputFile):
     md,print_level low".
     """
     def __init__(self, *args, **kwds):
-        self.default_units['stress'] = 1e-4 # bar -> GPa
-        self.default_units['velocity'] = Bohr/thart / Ang*fs # Bohr/thart -> Ang/fs
+        self.default_units = dict(self.default_units,
+            stress=1e-4, # bar -> GPa
+            velocity=Bohr/thart / Ang*fs, # Bohr/thart -> Ang/fs
+            )
         TrajectoryFileParser.__init__(self, *args, **kwds)
         self.attr_lst = [\
             'cell',
@@ -2212,9 +2215,11 @@ class LammpsTextMDOutputFile(TrajectoryFileParser):
             where lammps echos the input script. `symbols` is build from the
             ``type`` column in `dumpfilename`.
         """
-        self.default_units['stress'] = 1e-4     # bar -> GPa
-        self.default_units['velocity'] = fs/ps  # Ang/ps -> Ang/fs
-        self.default_units['time'] = ps/fs      # ps -> fs
+        self.default_units = dict(self.default_units,
+            stress=1e-4,     # bar -> GPa
+            velocity=fs/ps,  # Ang/ps -> Ang/fs
+            time=ps/fs,      # ps -> fs
+            )
         TrajectoryFileParser.__init__(self, filename, **kwds)
         self.attr_lst = [\
             'cell',
-- 
2.43.0


From 8103dfcfd312bdf990083a4c4d540794673ddb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:36 +0000
Subject: [PATCH 046/109] fix: parse: missing forces, stress or energies raised
 an error (pw.x MD, cp2k SCF)

---
 src/pwtools/parse.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index d01f0d7..bcdaefd 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1127,7 +1127,7 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
         """[Ry / Bohr] """
         if self.check_set_attr('natoms'):
             forces = self._match_nstep(self.raw_return('forces'))
-            return forces[:,:self.natoms,:]
+            return None if forces is None else forces[:,:self.natoms,:]
         else:
             return None
 
@@ -1156,18 +1156,24 @@ class PwVCMDOutputFile(PwMDOutputFile):
 
     def get_ekin(self):
         verbose("getting ekin")
-        self.try_set_attr('_datadct')
-        return self._datadct['ekin']
+        if self.check_set_attr('_datadct'):
+            return self._datadct['ekin']
+        else:
+            return None
 
     def get_econst(self):
         verbose("getting econst")
-        self.try_set_attr('_datadct')
-        return self._datadct['econst']
+        if self.check_set_attr('_datadct'):
+            return self._datadct['econst']
+        else:
+            return None
 
     def get_temperature(self):
         verbose("getting temperature")
-        self.try_set_attr('_datadct')
-        return self._datadct['temperature']
+        if self.check_set_attr('_datadct'):
+            return self._datadct['temperature']
+        else:
+            return None
 
 
 class CpmdSCFOutputFile(StructureFileParser):
@@ -1816,8 +1822,11 @@ class Cp2kSCFOutputFile(StructureFileParser):
         cmd = r"grep -A5 'STRESS TENSOR.*GPa' %s | egrep -v 'X[ ]+Y[ ]+Z' | \
             egrep '^[ ]+(X|Y|Z)'" %self.filename
         ret = com.backtick(cmd).strip()
-        arr = np.array([x.split() for x in ret.splitlines()])
-        return arr[:,1:].astype(float)
+        if ret != '':
+            arr = np.array([x.split() for x in ret.splitlines()])
+            return arr[:,1:].astype(float)
+        else:
+            return None
 
 
 class Cp2kMDOutputFile(TrajectoryFileParser, Cp2kSCFOutputFile):
-- 
2.43.0


From 9ffc1e653195a5816be766b122bf1883729a4046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:36 +0000
Subject: [PATCH 047/109] fix: parse: CPMD and cp2k MD with one step

---
 src/pwtools/parse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index bcdaefd..5d66ef9 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1533,7 +1533,7 @@ class CpmdMDOutputFile(TrajectoryFileParser, CpmdSCFOutputFile):
         verbose("getting _energies_file")
         fn = os.path.join(self.basedir, 'ENERGIES')
         if os.path.exists(fn):
-            arr = np.loadtxt(fn)
+            arr = np.loadtxt(fn, ndmin=2)
             ncols = arr.shape[-1]
             if ncols not in list(self._energies_order.keys()):
                 raise Exception("only %s columns supported in "
@@ -1888,19 +1888,19 @@ class Cp2kMDOutputFile(TrajectoryFileParser, Cp2kSCFOutputFile):
 
     def _get_cell_file_arr(self):
         if os.path.exists(self._cell_file):
-            return np.loadtxt(self._cell_file)
+            return np.loadtxt(self._cell_file, ndmin=2)
         else:
             return None
 
     def _get_ener_file_arr(self):
         if os.path.exists(self._ener_file):
-            return np.loadtxt(self._ener_file)
+            return np.loadtxt(self._ener_file, ndmin=2)
         else:
             return None
 
     def _get_stress_file_arr(self):
         if os.path.exists(self._stress_file):
-            return np.loadtxt(self._stress_file)
+            return np.loadtxt(self._stress_file, ndmin=2)
         else:
             return None
 
-- 
2.43.0


From 0b4271582a4c6cf4ed527340c643c1c6170c95d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:36 +0000
Subject: [PATCH 048/109] fix: parse: pw.x MD temperature was one step longer
 (starting temperature)

---
 src/pwtools/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 5d66ef9..36f6f40 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1104,7 +1104,8 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
     def get_temperature(self):
         """Temperature [K]"""
         verbose("getting temperature")
-        cmd = r"egrep 'temperature[ ]*=' %s " %self.filename + \
+        # skip "Starting temperature = ..."
+        cmd = r"egrep '^[ ]*temperature[ ]*=' %s " %self.filename + \
               r"| sed -re 's/.*temp.*=\s*(" + regex.float_re + \
               r")\s*K/\1/'"
         return arr1d_from_txt(com.backtick(cmd))
-- 
2.43.0


From 647dc29141e4d2ff45da047289cfaa88ebc3a4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:36 +0000
Subject: [PATCH 049/109] fix: parse: LAMMPS dump with orthogonal box

---
 src/pwtools/parse.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 36f6f40..6890681 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -2453,7 +2453,13 @@ class LammpsTextMDOutputFile(TrajectoryFileParser):
             nstep = nstep_from_txt(com.backtick(cmd))
             cmd = r"grep -A3 'ITEM: BOX BOUNDS' %s | \
                     egrep -ve '--|ITEM'" %self.dumpfilename
-            arr = np.fromstring(com.backtick(cmd), sep=' ').reshape((nstep,3,3))
+            arr = np.fromstring(com.backtick(cmd), sep=' ')
+            if arr.size == nstep*6:
+                # orthogonal box: no xy, xz, yz
+                arr = np.concatenate((arr.reshape((nstep,3,2)),
+                                      np.zeros((nstep,3,1))), axis=-1)
+            else:
+                arr = arr.reshape((nstep,3,3))
             cell = np.zeros_like(arr)
             for ii in range(nstep):
                 xlo_bound = arr[ii,0,0]
-- 
2.43.0


From 76c8c7c0066a571a9edc1a5aafffda424453b030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:36 +0000
Subject: [PATCH 050/109] fix: parse: LAMMPS log without thermo output or atom
 symbols

---
 src/pwtools/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 6890681..4562a2e 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -2297,6 +2297,8 @@ class LammpsTextMDOutputFile(TrajectoryFileParser):
             cmd = r"sed -nre '/^Step/,/^Loop/p' %s | \
                     egrep -v 'Step|Loop'" %self.filename
             arr = arr2d_from_txt(com.backtick(cmd))
+            if arr is None:
+                return None
             return dict((x, arr[:,ii]) for ii,x in enumerate(header))
         else:
             return None
@@ -2438,6 +2440,8 @@ class LammpsTextMDOutputFile(TrajectoryFileParser):
                            's/.*ment (.*)/\1/'" %self.filename
                    revorder = dict((ii+1,sy) for ii,sy in \
                               enumerate(com.backtick(cmd).split()))
+                   if len(revorder) == 0:
+                       return None
                 else:
                     # {'a':1,'b':2} -> {1:'a',2:'b'}
                     revorder = dict((v,k) for k,v in self.order.items())
-- 
2.43.0


From 49796343e0a1bab51ede0e62c17d5ee109ac664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:36 +0000
Subject: [PATCH 051/109] fix: parse: pw.x output without start coords

---
 src/pwtools/parse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 4562a2e..7a29897 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -730,13 +730,16 @@ class PwSCFOutputFile(StructureFileParser):
         precision.
         """
         verbose("getting start coords")
-        self.try_set_attr('natoms')
+        if not self.check_set_attr('natoms'):
+            return None
         natoms = self.natoms
         # coords
         cmd = r"egrep -m1 -A%i 'site.*atom.*positions.*units.*\)' %s | tail -n%i | \
               sed -re 's/.*\((.*)\)/\1/g'" \
               %(natoms, self.filename, natoms)
         coords = arr2d_from_txt(com.backtick(cmd))
+        if coords is None:
+            return None
         cmd = r"egrep -m1 -A%i 'site.*atom.*positions.*units.*\)' %s | tail -n%i | \
               %s '{print $2}'" \
               %(natoms, self.filename, natoms, AWK)
-- 
2.43.0


From cd8444275e247b86e88071ee0772d6c9835ac0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:30 +0000
Subject: [PATCH 052/109] fix: second get_struct()/get_traj() of a parser
 returned the object of the first call with unconverted units

---
 src/pwtools/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 7a29897..0658b54 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -292,6 +292,9 @@ class StructureFileParser(UnitsHandler):
         """
         if not self.parse_called:
             self.parse()
+        # new object for each call: units must be applied only once and an
+        # object returned before must not change
+        self.cont = self.Container(set_all_auto=False, units=self.units)
         for attr_name in self.cont.attr_lst:
             setattr(self.cont, attr_name, getattr(self, attr_name))
         if auto_calc:
-- 
2.43.0


From 11e9840f753d05b3fbfa5fc3d3866818127b3fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:30 +0000
Subject: [PATCH 053/109] fix: PwMDOutputFile.coords is None for
 ATOMIC_POSITIONS without unit

---
 src/pwtools/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 0658b54..b7e83f6 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1036,7 +1036,8 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
     def get_coords(self):
         """Cartesian coords [Bohr]. If coords_unit='alat', then [Bohr] if
         self.alat in [Bohr]."""
-        if self.check_set_attr_lst(['_coords', 'coords_unit', 'alat']):
+        self.try_set_attr('coords_unit')
+        if self.check_set_attr_lst(['_coords', 'alat']):
             if self.coords_unit in ['bohr', None]:
                 return self._coords
             elif self.coords_unit == 'alat':
-- 
2.43.0


From 73ac076648826fdd7d60ba0c25419325c3e07162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:16 +0000
Subject: [PATCH 054/109] fix: kpoints_str_pwin() added arrays and refused
 tuples instead of listing points and shift

---
 src/pwtools/pwscf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/pwscf.py b/src/pwtools/pwscf.py
index efa3dad..4e82793 100644
--- a/src/pwtools/pwscf.py
+++ b/src/pwtools/pwscf.py
@@ -130,7 +130,7 @@ def kpoints_str_pwin(lst, shift=[0,0,0]):
     lst : sequence (3,)
     shift : sequence (3,), optional
     """
-    return ' '.join(map(str, lst+shift))
+    return ' '.join(map(str, list(lst) + list(shift)))
 kpointstr_pwin = kpoints_str_pwin
 
 
-- 
2.43.0


From 279fa9c9b82e3e28b818ad60323e47357f051ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:16 +0000
Subject: [PATCH 055/109] fix: grid_in_cell(even=True) returned odd numbers if
 minpoints is odd

---
 src/pwtools/crys.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index d596b93..8264fd3 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -369,13 +369,12 @@ def grid_in_cell(cell, h=None, size=None, minpoints=1, even=False, fullout=False
     cell = np.asarray(cell, dtype=float)
     norms = np.sqrt((cell**2.0).sum(axis=1))
     if size is None:
-        size = np.round(norms / spacing)
-        if even:
-            size += (size % 2.0)
-        size = size.astype(int)
+        size = np.round(norms / spacing).astype(int)
         mask = size < minpoints
         if mask.any():
             size[mask] = minpoints
+        if even:
+            size += (size % 2)
         # only possible if minpoints=0
         if (size == 0).any():
             raise Exception("at least one point count is zero, decrease `spacing`, "
-- 
2.43.0


From c20909f83880f94486494e9187f47668264e0c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:16 +0000
Subject: [PATCH 056/109] fix: SpecialPointsPath needed the optional fractional
 k-points

---
 src/pwtools/kpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/kpath.py b/src/pwtools/kpath.py
index 4dc1ac9..6b44700 100644
--- a/src/pwtools/kpath.py
+++ b/src/pwtools/kpath.py
@@ -71,7 +71,7 @@ class SpecialPointsPath:
         symbols : sequence of strings (nks,), optional
             special point symbol each point in `ks`
         """
-        assert (ks is not None) and (ks_frac is not None), ("use either ks or ks_frac")
+        assert ks is not None, "need cartesian k-points `ks`"
         self.ks = ks
         self.ks_frac = ks_frac
         self.symbols = symbols
-- 
2.43.0


From c8dcc54e4f06240ffa9bae0558ecc391a6fcd4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:16 +0000
Subject: [PATCH 057/109] fix: plot_dis() without special points failed with
 UnboundLocalError

---
 src/pwtools/kpath.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/pwtools/kpath.py b/src/pwtools/kpath.py
index 6b44700..f544268 100644
--- a/src/pwtools/kpath.py
+++ b/src/pwtools/kpath.py
@@ -177,15 +177,15 @@ def plot_dis(path_norm, freqs, special_points_path=None,
         ax.set_xticklabels(labels)
         ax.set_xlim(path_norm[0], path_norm[-1])
         ax.set_ylabel("frequency (cm$^{-1}$)")
-        if dos is not None:
-            # http://matplotlib.org/examples/axes_grid/scatter_hist.html
-            from mpl_toolkits.axes_grid1 import make_axes_locatable
-            divider = make_axes_locatable(ax)
-            axdos = divider.append_axes("right", 1.2, pad=0.1, sharey=ax)
-            axdos.plot(dos[:,1], dos[:,0], 'b')
-            mpl.plt.setp(axdos.get_yticklabels(), visible=False)
-            mpl.plt.setp(axdos.get_xticklabels(), visible=False)
-            axdos.xaxis.set_tick_params(size=0)
-        else:
-            axdos = None
+    if dos is not None:
+        # http://matplotlib.org/examples/axes_grid/scatter_hist.html
+        from mpl_toolkits.axes_grid1 import make_axes_locatable
+        divider = make_axes_locatable(ax)
+        axdos = divider.append_axes("right", 1.2, pad=0.1, sharey=ax)
+        axdos.plot(dos[:,1], dos[:,0], 'b')
+        mpl.plt.setp(axdos.get_yticklabels(), visible=False)
+        mpl.plt.setp(axdos.get_xticklabels(), visible=False)
+        axdos.xaxis.set_tick_params(size=0)
+    else:
+        axdos = None
     return fig, ax, axdos
-- 
2.43.0


From f90e1e518b677fa0484c23c40b21e83e06b07fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 058/109] fix: Data2D.update() ignored new data unless given as
 x,y and Z

---
 src/pwtools/mpl.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index 506f12a..e5d47c8 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -491,6 +491,17 @@ class Data2D:
         for key,val in kwds.items():
             assert key in self.attr_lst, ("'%s' not allowed" %key)
             setattr(self, key, val)
+        # All other forms of the new data are outdated, let _update()
+        # re-calculate them.
+        xy_forms = [('x','y'), ('X','Y'), ('xx','yy'), ('XY',)]
+        is_new = lambda form: any(key in kwds for key in form)
+        if any(is_new(form) for form in xy_forms):
+            for form in xy_forms:
+                if not is_new(form):
+                    for key in form:
+                        setattr(self, key, None)
+        if 'zz' in kwds and 'Z' not in kwds:
+            self.Z = None
         self._update()
 
     def copy(self):
-- 
2.43.0


From 7a01ed7852e144b5929b8b55b18d576d4fda27d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 059/109] fix: random structures contained atoms closer than
 allowed across cell borders (image beyond the minimum image convention)

---
 src/pwtools/random.py | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/pwtools/random.py b/src/pwtools/random.py
index 66fd687..f9a7de7 100644
--- a/src/pwtools/random.py
+++ b/src/pwtools/random.py
@@ -1,8 +1,10 @@
+from itertools import product
 from math import acos, pi, sin, cos, sqrt
 import numpy as np
 from numpy.random import uniform
 from pwtools import atomic_data, _flib
-from pwtools.crys import cc2cell, volume_cc, Structure
+from pwtools.crys import cc2cell, volume_cc, Structure, rmax_smith, \
+    min_image_convention
 from pwtools.num import fempty
 
 class RandomStructureFail(Exception):
@@ -134,9 +136,9 @@ class RandomStructure:
             Index into self.coords_frac, defining the number of atoms currently
             in there (iatom +1).
         """
-        # dist: min image dist correct only up to rmax_smith(), but we check if
-        #   atoms are too close; too big dists are no problem; choose only upper
-        #   triangle from array `dist`
+        # dist: min image dist correct only up to rmax_smith(), distances
+        #   beyond that may be too big and hide a closer image, see
+        #   _images_too_close(); choose only upper triangle from array `dist`
         natoms_filled = iatom + 1
         coords_frac = self.coords_frac[:natoms_filled,:]
         # This part is 10x slower than the fortran version  --------
@@ -164,7 +166,30 @@ class RandomStructure:
         dist = np.sqrt(distsq)
         # This part is fast
         dij_min_filled = self.dij_min[:natoms_filled,:natoms_filled]
-        return np.triu(dist < dij_min_filled, k=1).any()
+        if np.triu(dist < dij_min_filled, k=1).any():
+            return True
+        elif dij_min_filled.max() > rmax_smith(self.cell):
+            return self._images_too_close(iatom)
+        else:
+            return False
+
+    def _images_too_close(self, iatom):
+        """Same as _atoms_too_close(), but check all periodic images which can
+        be close enough to the last atom `iatom`, also those not found by the
+        minimum image convention."""
+        dij_min = self.dij_min[iatom,:iatom]
+        # |frac. coord| of any vector not longer than dij_min.max()
+        frac_max = dij_min.max() * \
+            np.sqrt((np.linalg.inv(self.cell)**2.0).sum(axis=0))
+        images = list(product(*[range(-nn,nn+1) for nn in
+                                np.ceil(frac_max + 0.5).astype(int)]))
+        # distvecs_frac: (iatom, 3)
+        distvecs_frac = self.coords_frac[:iatom,:] - self.coords_frac[iatom,:]
+        distvecs_frac = min_image_convention(distvecs_frac)
+        # distvecs: (nimages, iatom, 3)
+        distvecs = np.dot(distvecs_frac + np.array(images)[:,None,:], self.cell)
+        dist = np.sqrt((distvecs**2.0).sum(axis=2))
+        return (dist < dij_min).any()
 
     def _add_random_atom(self, iatom):
         self.coords_frac[iatom,:] = np.random.rand(3)
-- 
2.43.0


From 87c0cd82935fbb8ef7e914c785307f8c67fad8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 060/109] fix: RandomStructure failed with ValueError instead
 of drawing again when random angles do not form a cell

---
 src/pwtools/random.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/random.py b/src/pwtools/random.py
index f9a7de7..6a9ebaf 100644
--- a/src/pwtools/random.py
+++ b/src/pwtools/random.py
@@ -115,7 +115,11 @@ class RandomStructure:
         cnt = 1
         while cnt <= self.cell_maxtry:
             cc = _get()
-            vol = volume_cc(cc)
+            try:
+                vol = volume_cc(cc)
+            except ValueError:
+                # no cell with these angles exists
+                vol = np.nan
             if not self.vol_range[0] <= vol <= self.vol_range[1]:
                 cc = _get()
                 cnt += 1
-- 
2.43.0


From 19134637ddba62afeed09ba58f29483f4108b9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 061/109] fix: calculators: settings of one calculator became
 the defaults of all later ones

---
 src/pwtools/calculators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 64f4fc2..149abe9 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -35,6 +35,7 @@ dropped.
 'path/to/dir'
 """
 
+import copy
 import os
 import shutil
 
@@ -103,6 +104,8 @@ class CalculatorBase:
             if k not in allowed_keys:
                 raise Exception("key '%s' not allowed, only: \n%s" %(k,
                                 str(allowed_keys)))
+        # copy: default_parameters is a class attribute
+        self.default_parameters = copy.deepcopy(self.default_parameters)
         self.parameters = self.default_parameters
         self.parameters.update(kwds)
         self.__dict__.update(self.parameters)
-- 
2.43.0


From 64fd2adad43a44a19eba8b6f93caa78d1ed3fb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 062/109] fix: Pwscf calculator wrote the k-point shift twice

---
 src/pwtools/calculators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 149abe9..e454f9e 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -222,7 +222,7 @@ CELL_PARAMETERS angstrom
 ATOMIC_POSITIONS crystal
 {atpos}
 K_POINTS automatic
-{kpoints} 0 0 0
+{kpoints}
     """
 
     def __init__(self, **kwds):
-- 
2.43.0


From 3b141cf2b7dfa60d53409a26e6fce77cada34440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 063/109] fix: Pwscf calculator used e.g. the pseudopotential
 of Na also for N

---
 src/pwtools/calculators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index e454f9e..52d52e6 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -296,8 +296,12 @@ K_POINTS automatic
             assert len(self.pp) == struct.ntypat
             pseudos = []
             for sym in struct.symbols_unique:
+                # e.g. "Na.UPF" is not for N if there is also Na
+                longer = [ss for ss in struct.symbols_unique if
+                          ss != sym and ss.startswith(sym)]
                 for ppi in self.pp:
-                    if ppi.startswith(sym):
+                    if ppi.startswith(sym) and not \
+                            any(ppi.startswith(ss) for ss in longer):
                         pseudos.append(ppi)
                         break
         assert len(pseudos) == struct.ntypat
-- 
2.43.0


From 794aaee987d34e7b58eda89e67119a48789db3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 064/109] fix: Lammps calculator did not work with a relative
 directory (the program runs in that directory)

---
 src/pwtools/calculators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 52d52e6..3789800 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -370,14 +370,14 @@ boundary p p p
 atom_style atomic
 
 # lmp.struct written by pwtools
-read_data {structfile}
+read_data {prefix}.struct
 
 # interactions
 pair_style {pair_style}
 pair_coeff {pair_coeff}
 
 # IO
-dump dump_txt all custom 1 {dumpfile} id type xu yu zu fx fy fz
+dump dump_txt all custom 1 {prefix}.out.dump id type xu yu zu fx fy fz
 dump_modify dump_txt sort id
 
 thermo_style custom step temp vol cella cellb cellc cellalpha cellbeta cellgamma &
-- 
2.43.0


From 568261f7bfcf30b94adc9e2e17937c22dfe5ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 065/109] fix: calculators: default label and command were not
 used

---
 src/pwtools/calculators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 3789800..7dae86d 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -109,6 +109,9 @@ class CalculatorBase:
         self.parameters = self.default_parameters
         self.parameters.update(kwds)
         self.__dict__.update(self.parameters)
+        # ASE doesn't use our default_parameters for these
+        for k in ['label', 'directory', 'command']:
+            kwds.setdefault(k, self.parameters[k])
 
     def fill_infile_templ(self):
         """Replace all placeholders in ``self.infile_templ``. Use all keys in
-- 
2.43.0


From cbf4e387c0e713ccf29d0564e45ca292b122988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 066/109] fix: Lammps calculator overwrote the symbols file
 without backup

---
 src/pwtools/calculators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 7dae86d..b479d19 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -412,7 +412,8 @@ run 0
                                      system_changes)
         if self.backup:
             for fn in [self.infile, self.outfile, self.dumpfile,
-                       self.structfile, self.logfile]:
+                       self.structfile, self.structfile + '.symbols',
+                       self.logfile]:
                 if os.path.exists(fn):
                     common.backup(fn)
         common.file_write(self.infile, self.fill_infile_templ())
-- 
2.43.0


From 73b9495f0339ca27b6334398459594ae30ca174b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 067/109] fix: Lammps calculator returned no forces if label is
 not "lmp"

---
 src/pwtools/calculators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index b479d19..049cff9 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -39,7 +39,7 @@ import copy
 import os
 import shutil
 
-from pwtools import common, pwscf, crys, io, constants
+from pwtools import common, pwscf, crys, io, parse, constants
 
 
 # silently fail at immport if ase is missing b/c it is not a dependency, fail
@@ -425,7 +425,11 @@ run 0
     def read_results(self):
         self.results = {}
         assert os.path.exists(self.outfile), "%s missing" %self.outfile
-        st = io.read_lammps_md_txt(self.outfile)[0]
+        # file names in the parser are hard-coded for label='lmp'
+        pp = parse.LammpsTextMDOutputFile(self.outfile)
+        pp.dumpfilename = self.dumpfile
+        pp.symbolsfilename = self.structfile + '.symbols'
+        st = pp.get_traj()[0]
         self.results['energy'] = st.etot
         self.results['forces'] = st.forces
         self.results['stress'] = stress_pwtools2ase(st.stress)
-- 
2.43.0


From 5133eb3c53745636cf47b0f263f7c4b7893af603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 068/109] fix: Lammps calculator returned forces and stress in
 the cell orientation of LAMMPS instead of that of the atoms

---
 src/pwtools/calculators.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 049cff9..9a8bdb1 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -39,6 +39,8 @@ import copy
 import os
 import shutil
 
+import numpy as np
+
 from pwtools import common, pwscf, crys, io, parse, constants
 
 
@@ -430,6 +432,11 @@ run 0
         pp.dumpfilename = self.dumpfile
         pp.symbolsfilename = self.structfile + '.symbols'
         st = pp.get_traj()[0]
+        # The written cell is aligned as LAMMPS needs it (see io.write_lammps()).
+        # Rotate back to the orientation in `atoms`.
+        cell = np.array(self.atoms.get_cell())
+        rot = np.linalg.solve(crys.cc2cell(crys.cell2cc(cell)), cell)
         self.results['energy'] = st.etot
-        self.results['forces'] = st.forces
-        self.results['stress'] = stress_pwtools2ase(st.stress)
+        self.results['forces'] = np.dot(st.forces, rot)
+        self.results['stress'] = stress_pwtools2ase(
+            np.dot(rot.T, np.dot(st.stress, rot)))
-- 
2.43.0


From aa662cc631078cdbc83f8a008dc508006f52fdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 069/109] fix: Calculation added the machine's template to the
 caller's list and to the default list shared by all calculations

---
 src/pwtools/batch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 84bf8ad..3cab4e5 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -299,7 +299,8 @@ class Calculation:
             'calc_foo/0/')
         """
         self.machine = machine
-        self.templates = templates
+        # copy, may be extended below
+        self.templates = list(templates)
         self.params = params
         self.calc_dir = calc_dir
         self.sql_record = dict((sqlentry.key, sqlentry) \
-- 
2.43.0


From 3c05e89ede3f65ed79546dabe2049d6e9b632ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 070/109] fix: crys.mix failed for alpha given as a list

---
 src/pwtools/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 8264fd3..727508d 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -3268,7 +3268,7 @@ def mix(st1, st2, alpha):
     assert st1.symbols == st2.symbols
     coords = np.empty_like(st1.coords)
     cell = np.empty_like(st1.cell)
-    rr = alpha[:,None,None]
+    rr = np.asarray(alpha)[:,None,None]
     coords = rr * st2.coords[None,:,:] + (1.0 - rr) * st1.coords[None,:,:]
     cell = rr * st2.cell[None,:,:] + (1.0 - rr) * st1.cell[None,:,:]
     if (st1.forces is not None) and (st2.forces is not None):
-- 
2.43.0


From d8438523fd371ab8f44e760345af2c4730666d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 071/109] fix: crys.angle failed for many pairs of parallel
 vectors (rounding), result depended on the memory alignment

---
 src/pwtools/crys.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 727508d..3845310 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -30,8 +30,12 @@ def angle(x,y):
     x,y : 1d numpy arrays
     """
     # Numpy's `acos' is "acrcos", but we take the one from math for scalar
-    # args.
-    return acos(np.dot(x,y)/norm(x)/norm(y))*180.0/pi
+    # args. Sum products instead of using BLAS (np.dot) whose result depends on
+    # the memory alignment of `x` and `y`. For parallel vectors the cosine may
+    # be slightly outside of [-1,1] due to rounding.
+    x, y = np.asarray(x), np.asarray(y)
+    cosine = (x*y).sum() / sqrt((x*x).sum()) / sqrt((y*y).sum())
+    return acos(max(-1.0, min(1.0, cosine)))*180.0/pi
 
 
 #-----------------------------------------------------------------------------
-- 
2.43.0


From e147e85770f20a4f43dde7bd17feb1f4195956ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 072/109] fix: Structure and Trajectory failed for an integer
 cryst_const array

---
 src/pwtools/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 3845310..ff3506a 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2165,7 +2165,7 @@ class UnitsHandler(FlexibleGetters):
         # so, but that would break too much code, BUT we could just add
         # backward compat get_cryst_const, which concatenates these ...
         if self.is_set_attr('cryst_const'):
-            cc = self.cryst_const.copy()
+            cc = self.cryst_const.astype(float)
             if cc.ndim == 1:
                 cc[:3] *= self.units['length']
             elif cc.ndim == 2:
-- 
2.43.0


From 57a57fb3076921c08468a06c89d908760aa9a618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 073/109] fix: crys.smooth truncated the smoothed values if the
 trajectory has integer arrays

---
 src/pwtools/crys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index ff3506a..1f8f882 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -3212,11 +3212,11 @@ def smooth(traj, kern, method=1):
                 if attr.ndim == 1:
                     tmp = signal.smooth(attr, kern, axis=traj.timeaxis)
                 elif attr.ndim == 2:
-                    tmp = np.empty_like(attr)
+                    tmp = np.empty(attr.shape, dtype=float)
                     for jj in range(attr.shape[1]):
                         tmp[:,jj] = signal.smooth(attr[:,jj], kern)
                 elif attr.ndim == 3:
-                    tmp = np.empty_like(attr)
+                    tmp = np.empty(attr.shape, dtype=float)
                     for jj in range(attr.shape[1]):
                         for kk in range(attr.shape[2]):
                             tmp[:,jj,kk] = signal.smooth(attr[:,jj,kk], kern)
-- 
2.43.0


From 8b9a47ac890f6852574b5bb3ff9ef7c3d46e8b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 074/109] fix: min_image_convention and rpdf failed for integer
 coordinates

---
 src/pwtools/crys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 1f8f882..8976908 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1038,11 +1038,11 @@ def min_image_convention(sij, copy=False):
     sij = sij.copy() if copy else sij
     mask = sij >= 0.5
     while mask.any():
-        sij[mask] -= 1.0
+        sij[mask] -= 1
         mask = sij >= 0.5
     mask = sij < -0.5
     while mask.any():
-        sij[mask] += 1.0
+        sij[mask] += 1
         mask = sij < -0.5
     return sij
 
-- 
2.43.0


From 68f163f95e50c63efab082d8ec0cc87a8d941021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 075/109] fix: signal.scale failed for integer arrays

---
 src/pwtools/signal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 82c05ac..28c5ade 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -875,8 +875,7 @@ def scale(x, copy=True):
     """
     xx = x.copy() if copy else x
     xx = xx - xx.min()
-    xx /= xx.max()
-    return xx
+    return xx / xx.max()
 
 
 class FIRFilter:
-- 
2.43.0


From deb759e351f6e36a21b9c7c3c285d4b8438904bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 076/109] fix: ParameterStudy failed for a tuple of machines

---
 src/pwtools/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 3cab4e5..6e2f2cf 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -472,7 +472,7 @@ class ParameterStudy:
         calc_dir_prefix : str, optional
             Prefix for the top calculation dir (e.g. 'calc' for 'calc_foo').
         """
-        self.machines = machines if (type([]) == type(machines)) else [machines]
+        self.machines = common.asseq(machines)
         self.templates = templates
         self.params_lst = params_lst
         self.study_name = study_name
-- 
2.43.0


From 020625da3925511ae96bbc3daf0ad521e0fb3607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 077/109] fix: thermo.expansion failed for temperatures given
 as list

---
 src/pwtools/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/thermo.py b/src/pwtools/thermo.py
index 90cd60e..71d0984 100644
--- a/src/pwtools/thermo.py
+++ b/src/pwtools/thermo.py
@@ -830,4 +830,4 @@ def expansion(temp, alpha, theta, x0=1.0, func=debye_func):
     ----------
     [1] Figge et al., Appl. Phys. Lett. 94, 101915 (2009)
     """
-    return x0 * (1.0 + alpha * theta * func(theta / temp))
+    return x0 * (1.0 + alpha * theta * func(theta / np.asarray(temp)))
-- 
2.43.0


From 3c7cf54818a029d0eb4130ac1db117ab66b8b924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 078/109] fix: signal.scale failed for lists

---
 src/pwtools/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 28c5ade..e3f2e2b 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -873,7 +873,7 @@ def scale(x, copy=True):
     -------
     x_scaled
     """
-    xx = x.copy() if copy else x
+    xx = np.array(x) if copy else np.asarray(x)
     xx = xx - xx.min()
     return xx / xx.max()
 
-- 
2.43.0


From 48b615f4818f985129b1f4724cdb90ffedde5b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 079/109] fix: find_peaks failed for lists

---
 src/pwtools/signal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index e3f2e2b..e015aa9 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -562,6 +562,8 @@ def find_peaks(y, x=None, k=3, spread=2, ymin=None):
     >>> for x0 in pos0:
     ...    plot([x0], [spl(x0)], 'ro')
     """
+    y = np.asarray(y)
+    x = None if x is None else np.asarray(x)
     ymin = y.min() if ymin is None else ymin
     idx0 = []
     dfy = np.diff(y, n=1)
-- 
2.43.0


From f0d06a538826d1822981ffb840cddd0105d4d63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:04 +0000
Subject: [PATCH 080/109] fix: tobool, toslice and ffloat refused every string

---
 src/pwtools/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index 6aaeeeb..0075f9d 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -88,7 +88,7 @@ def toslice(val):
     >>> toslice('1:5')
     slice(1, 5, None)
     """
-    assert_cond(isinstance(val, bytes), "input must be string")
+    assert_cond(isinstance(val, str), "input must be string")
     # XXX This is fixed in numpy 1.5.1:
     #   https://github.com/numpy/numpy/commit/9089036b
     # np.s_ doesn't work for slices starting at end, like
@@ -132,7 +132,7 @@ def tobool(val):
             return False
     got_str = False
     got_int = False
-    if isinstance(val, bytes):
+    if isinstance(val, str):
         got_str = True
         val = val.lower()
     elif isinstance(val, int):
@@ -167,7 +167,7 @@ def ffloat(st):
     -------
     float
     """
-    assert_cond(isinstance(st, bytes), "`st` must be string")
+    assert_cond(isinstance(st, str), "`st` must be string")
     st = st.lower()
     if not 'd' in st:
         return float(st)
-- 
2.43.0


From b61930f44942defb240047c976b965a60428f547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:21 +0000
Subject: [PATCH 081/109] fix: ffloat used the kind parameter of e.g. 1.5_8 as
 digits, ignored text after the exponent

---
 src/pwtools/common.py | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index 0075f9d..e7ea0b7 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -168,26 +168,12 @@ def ffloat(st):
     float
     """
     assert_cond(isinstance(st, str), "`st` must be string")
-    st = st.lower()
-    if not 'd' in st:
-        return float(st)
-    else:
-        # >>> s='  40.0d+02_10  '
-        # >>> m.groups()
-        # ('40.0', '+', '02', '_10  ')
-        # >>> s='  40.0d02  '
-        # >>> m.groups()
-        # ('40.0', '', '02', '  ')
-        #
-        rex = re.compile(r'\s*([+-]*[0-9\.]+)d([+-]*)([0-9]+)([_]*.*)')
-        m = rex.match(st)
-        if m is None:
-            raise ValueError("no match on string '%s'" %st)
-        if m.group(4).strip() != '':
-            verbose("[ffloat] WARNING: skipping kind '%s' in string '%s'"
-                %(m.group(4), st))
-        ss = "%se%s%s" %m.groups()[:-1]
-        return float(ss)
+    # '  40.0d+02_10  ' -> '  40.0d+02', '10'
+    num, _, kind = st.lower().partition('_')
+    if kind.strip() != '':
+        verbose("[ffloat] WARNING: skipping kind '%s' in string '%s'"
+            %(kind, st))
+    return float(num.replace('d', 'e'))
 
 
 def frepr(var, ffmt="%.16e"):
-- 
2.43.0


From 9d00f06dae50e33c1c0ceeb50d69ebc09aa3b258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:34 +0000
Subject: [PATCH 082/109] fix: readtxt failed for gzip compressed files (opened
 in binary mode)

---
 src/pwtools/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/decorators.py b/src/pwtools/decorators.py
index 1d29038..540fd2c 100644
--- a/src/pwtools/decorators.py
+++ b/src/pwtools/decorators.py
@@ -47,7 +47,7 @@ def open_and_close(func):
                 _open = gzip.open
             else:
                 _open = open
-            fd = _open(fn, 'r')
+            fd = _open(fn, 'rt')
             # Files opened with gzip don't have a 'name' attr.
             if not hasattr(fd, 'name'):
                 fd.name = os.path.abspath(os.path.expanduser(fn))
-- 
2.43.0


From bc21ec456cd442a655678f1208337e8afab3dd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 083/109] fix: open_and_close left the file open if the
 function failed

---
 src/pwtools/decorators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/decorators.py b/src/pwtools/decorators.py
index 540fd2c..d48659d 100644
--- a/src/pwtools/decorators.py
+++ b/src/pwtools/decorators.py
@@ -52,9 +52,10 @@ def open_and_close(func):
             if not hasattr(fd, 'name'):
                 fd.name = os.path.abspath(os.path.expanduser(fn))
             largs[0] = fd
-            ret = func(*tuple(largs), **kwargs)
-            largs[0].close()
-            return ret
+            try:
+                return func(*tuple(largs), **kwargs)
+            finally:
+                fd.close()
         else:
             # File object case. Don't explicitly test for types.FileType b/c
             # that does not if largs[0] is actually a [c]StringIO.StringIO
-- 
2.43.0


From 6f930a85bade0be562c135b1abdda10aa337547c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:19 +0000
Subject: [PATCH 084/109] fix: cut-cpmd.sh removed the last atom from
 TRAJEC.xyz if the step is not in the file

---
 bin/cut-cpmd.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/cut-cpmd.sh b/bin/cut-cpmd.sh
index c3ac7ac..258f1c2 100755
--- a/bin/cut-cpmd.sh
+++ b/bin/cut-cpmd.sh
@@ -107,5 +107,5 @@ $dr/STRESS@@/.*TOTAL STRESS.*Step.*$step.*/,$ d
 $dr/TRAJECTORY@@/^\\\s+$step\\\s.*/,$ d
 $dr/FTRAJECTORY@@/^\\\s+$step\\\s.*/,$ d
 $dr/TRAJEC.xyz@@/^\\\s+STEP:\\\s+$step.*/,$ d
-$dr/TRAJEC.xyz@@$,$ d@@bak2
+$dr/TRAJEC.xyz@@\${/^\\\s*[0-9]+\\\s*$/ d}@@bak2
 EOF
-- 
2.43.0


From ee04a5241167ecc3447d9df93513d71b4eeffc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:24 +0000
Subject: [PATCH 085/109] fix: cif2any.py printed znucl per atom instead of per
 type, wrong pseudopotential order for ABINIT

---
 bin/cif2any.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/cif2any.py b/bin/cif2any.py
index a5001ad..756cf9e 100755
--- a/bin/cif2any.py
+++ b/bin/cif2any.py
@@ -133,13 +133,13 @@ print(bar)
 print("natom %i" %struct.natoms)
 print("ntypat %i" %struct.ntypat)
 print("typat %s" %seq2str(struct.typat))
-print("znucl %s" %seq2str(struct.znucl))
+print("znucl %s" %seq2str(struct.znucl_unique))
 print("acell %s" %str_arr(struct.cryst_const[:3]))
 print("angdeg %s" %str_arr(struct.cryst_const[3:]))
 print("xred\n%s" %str_arr(struct.coords_frac))
 print("pseudopotential order:\n%s" %"\n".join(["%s %i" %(sym, zz) for sym,zz in
                                                zip(struct.symbols_unique,
-                                                   struct.znucl)]))
+                                                   struct.znucl_unique)]))
 
 #-------------------------------------------------------------------------------
 # CPMD
-- 
2.43.0


From c86be4084c92fc0ed679ba1c34c3f61222d9b80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 086/109] fix: viewers with bg=True or wait=False failed with
 NotImplementedError

---
 src/pwtools/visualize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/visualize.py b/src/pwtools/visualize.py
index 380bdc5..2740008 100644
--- a/src/pwtools/visualize.py
+++ b/src/pwtools/visualize.py
@@ -123,7 +123,9 @@ class ViewFactory:
             cmd_str = "%s %s %s 2>&1 | tee %s" %(self.cmd, options, structfile, logfile)
         else:
             cmd_str = "%s %s %s > %s 2>&1" %(self.cmd, options, structfile, logfile)
-        common.system(cmd_str, wait=wait)
+        if not wait:
+            cmd_str = "{ %s ; } &" %cmd_str
+        common.system(cmd_str)
         if not keepfiles:
             os.unlink(structfile)
             os.unlink(logfile)
-- 
2.43.0


From 98e4ea4c3d42ab6876f8c5f2dbf5e7cb4a0ddee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 087/109] fix: viewers left two temp files open per call

---
 src/pwtools/visualize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/visualize.py b/src/pwtools/visualize.py
index 2740008..a79f478 100644
--- a/src/pwtools/visualize.py
+++ b/src/pwtools/visualize.py
@@ -114,10 +114,12 @@ class ViewFactory:
             fd1,structfile = mkstemp(dir=tmpdir,
                                      prefix='pwtools_view_struct_',
                                      suffix=self.suffix)
+            os.close(fd1)
 
         if logfile is None:
             fd2,logfile = mkstemp(dir=tmpdir,
                                   prefix='pwtools_view_log_')
+            os.close(fd2)
         self.writer(structfile, obj)
         if disp:
             cmd_str = "%s %s %s 2>&1 | tee %s" %(self.cmd, options, structfile, logfile)
-- 
2.43.0


From 8addeb3aa44f3c04bbeaa1791a4d1c21a57ab268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 088/109] fix: vmd_measure_gofr left four temp files open per
 call

---
 src/pwtools/crys.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 8976908..5e9a699 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1,4 +1,5 @@
 from math import acos, pi, sin, cos, sqrt
+import os
 import textwrap
 import time
 import tempfile
@@ -1689,11 +1690,14 @@ def call_vmd_measure_gofr(trajfn, dr=None, rmax=None, sel=['all','all'],
     if tmpdir is None:
         tmpdir = '/tmp'
     if datafn is None:
-        datafn = tempfile.mkstemp(dir=tmpdir, prefix='vmd_data_', text=True)[1]
+        fd, datafn = tempfile.mkstemp(dir=tmpdir, prefix='vmd_data_', text=True)
+        os.close(fd)
     if scriptfn is None:
-        scriptfn = tempfile.mkstemp(dir=tmpdir, prefix='vmd_script_', text=True)[1]
+        fd, scriptfn = tempfile.mkstemp(dir=tmpdir, prefix='vmd_script_', text=True)
+        os.close(fd)
     if logfn is None:
-        logfn = tempfile.mkstemp(dir=tmpdir, prefix='vmd_log_', text=True)[1]
+        fd, logfn = tempfile.mkstemp(dir=tmpdir, prefix='vmd_log_', text=True)
+        os.close(fd)
     dct = {}
     dct['trajfn'] = trajfn
     dct['fntype'] = fntype
@@ -1781,7 +1785,8 @@ def vmd_measure_gofr(traj, dr=0.05, rmax='auto', sel=['all','all'], first=0,
     # actually the bottleneck and makes this function slower.
     if tmpdir is None:
         tmpdir = '/tmp'
-    trajfn = tempfile.mkstemp(dir=tmpdir, prefix='vmd_xsf_', text=True)[1]
+    fd, trajfn = tempfile.mkstemp(dir=tmpdir, prefix='vmd_xsf_', text=True)
+    os.close(fd)
     cell = traj.cell[0,...]
     cc = traj.cryst_const[0,...]
     if np.abs(cc[3:] - 90.0).max() > 0.1:
-- 
2.43.0


From dc6a690419f2dd6bc923ee5b011a64bc5d2f9e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 089/109] fix: plotlines3d failed for 1d z

---
 src/pwtools/mpl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index e5d47c8..61d1eb6 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -65,7 +65,7 @@ def plotlines3d(ax3d, x,y,z, *args, **kwargs):
     assert xx.shape == zz.shape
     assert len(y) == xx.shape[1] == zz.shape[1]
     for j in range(xx.shape[1]):
-        ax3d.plot(xx[:,j], np.ones(xx.shape[0])*y[j], z[:,j], *args, **kwargs)
+        ax3d.plot(xx[:,j], np.ones(xx.shape[0])*y[j], zz[:,j], *args, **kwargs)
     return ax3d
 
 
-- 
2.43.0


From 591bcf9884e3b3c3e568d12791aaf42760a8bdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 090/109] fix: clean_ax3d (fig_ax3d clean=True) failed with
 current matplotlib

---
 src/pwtools/mpl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index 61d1eb6..eb334bb 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -96,9 +96,9 @@ def fig_ax3d(clean=False, **kwds):
 def clean_ax3d(ax):
     """On ``Axes3DSubplot`` `ax`, set x,y,z pane color to white and remove
     grid."""
-    ax.w_xaxis.set_pane_color((1.0, 1.0, 1.0, 1.0))
-    ax.w_yaxis.set_pane_color((1.0, 1.0, 1.0, 1.0))
-    ax.w_zaxis.set_pane_color((1.0, 1.0, 1.0, 1.0))
+    ax.xaxis.set_pane_color((1.0, 1.0, 1.0, 1.0))
+    ax.yaxis.set_pane_color((1.0, 1.0, 1.0, 1.0))
+    ax.zaxis.set_pane_color((1.0, 1.0, 1.0, 1.0))
     ax.grid(False)
 
 
-- 
2.43.0


From 5425c8b4763a6f974e00823cfdc0f6f3efd66e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 091/109] fix: color_ax failed for axis="both"

---
 src/pwtools/mpl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index eb334bb..05e41c0 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -140,8 +140,8 @@ def color_ax(ax, color, axis="y", spine_loc="left", spine_invisible=None):
     """
     # ax.xaxis
     # ax.yaxis
-    _axis = getattr(ax, f"{axis}axis")
-    _axis.label.set_color(color)
+    for name in (["x", "y"] if axis == "both" else [axis]):
+        getattr(ax, f"{name}axis").label.set_color(color)
     # both: major and minor ticks
     ax.tick_params(axis=axis, colors=color, which="both")
     if spine_loc is not None:
-- 
2.43.0


From 8efc724eaf505d8d199f63177cd59e0703ac7ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 092/109] fix: collect_legends returned one-shot iterators
 instead of lists

---
 src/pwtools/mpl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index 05e41c0..7af11ed 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -280,8 +280,8 @@ def collect_legends(*axs):
     """
     axhls = tuple(ax.get_legend_handles_labels() for ax in
                   axs)
-    ret = [itertools.chain(*x) for x in zip(*axhls)]
-    return ret[0], ret[1]
+    return (list(itertools.chain(*(x[0] for x in axhls))),
+            list(itertools.chain(*(x[1] for x in axhls))))
 
 
 def prepare_plots(names, projection='2d', **kwds):
-- 
2.43.0


From 43319d52d9097f5d3a1b862fff0f5332883b424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 093/109] fix: new_axis failed with current matplotlib

---
 src/pwtools/mpl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index 7af11ed..08291e3 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -9,7 +9,7 @@ import numpy as np
 from pwtools import common, num
 
 try:
-    from mpl_toolkits.axes_grid1.parasite_axes import SubplotHost, \
+    from mpl_toolkits.axisartist.parasite_axes import SubplotHost, \
         ParasiteAxes
 except ImportError:
     warnings.warn("cannot import from mpl_toolkits.axes_grid")
-- 
2.43.0


From f5f8ed8fa1fd296dc45e4eb305bb5ff6973888af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 094/109] fix: smooth_color division by zero for a single
 iteration

---
 src/pwtools/mpl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index 08291e3..3cdff80 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -599,7 +599,7 @@ def smooth_color(idx, niter):
     ...     z = mpl.smooth_color(ii,N)
     ...     plot(rand(20)+ii, color=(z,0,1-z))
     """
-    return float(idx) / float(niter - 1)
+    return float(idx) / float(max(niter - 1, 1))
 
 
 def smooth_color_func(niter, func):
@@ -623,7 +623,7 @@ def smooth_color_func(niter, func):
     ...     plot(rand(20)+ii, color=color)
     """
     col = []
-    fniter = float(niter) - 1
+    fniter = float(max(niter - 1, 1))
     for ii in range(niter):
         z = float(ii) / fniter
         col.append(func(z))
-- 
2.43.0


From cf304bc7ec0691f4a9e26cd6c326d33d6d194695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:02 +0000
Subject: [PATCH 095/109] fix: new_axis with sharex or sharey failed with
 current matplotlib

---
 src/pwtools/mpl.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index 3cdff80..9cc076d 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -673,14 +673,11 @@ def new_axis(fig, hostax, off=50, loc='bottom', ticks=None, wsadd=0.1,
     """
 
     # Create ParasiteAxes, an ax which overlays hostax.
-    if sharex and sharey:
-        parax = ParasiteAxes(hostax, sharex=hostax, sharey=hostax)
-    elif sharex:
-        parax = ParasiteAxes(hostax, sharex=hostax)
-    elif sharey:
-        parax = ParasiteAxes(hostax, sharey=hostax)
-    else:
-        parax = ParasiteAxes(hostax)
+    parax = ParasiteAxes(hostax)
+    if sharex:
+        parax.sharex(hostax)
+    if sharey:
+        parax.sharey(hostax)
     hostax.parasites.append(parax)
 
     # If off != 0, the new axis line will be detached from hostax, i.e.
-- 
2.43.0


From f5416d2e355bd5a85500fc9f06cadb8e6336f95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 096/109] fix: element 117 missing in the periodic table, Uuo
 had number 117

---
 src/pwtools/atomic_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/atomic_data.py b/src/pwtools/atomic_data.py
index 57c5419..2e5c70d 100644
--- a/src/pwtools/atomic_data.py
+++ b/src/pwtools/atomic_data.py
@@ -155,6 +155,7 @@ symbols = [
     "Uuq",
     "Uup",
     "Uuh",
+    "Uus",
     "Uuo",
 ]
 
@@ -278,6 +279,7 @@ masses = np.array(
         288,
         293,
         294,
+        294,
     ]
 )
 
@@ -401,7 +403,8 @@ covalent_radii = np.array(
         missing,  # Uuq
         missing,  # Uup
         missing,  # Uuh
-        missing,  # Uuh
+        missing,  # Uus
+        missing,  # Uuo
     ]
 )
 
-- 
2.43.0


From 287487702575d123a95cea03d061e7342f3181b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:34 +0000
Subject: [PATCH 097/109] fix: readtxt() ignored header_maxlines and
 header_comment when reading the header

---
 src/pwtools/arrayio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/arrayio.py b/src/pwtools/arrayio.py
index fa73d62..3687a36 100644
--- a/src/pwtools/arrayio.py
+++ b/src/pwtools/arrayio.py
@@ -166,7 +166,8 @@ def readtxt(fh, axis=None, shape=None, header_maxlines=HEADER_MAXLINES,
     verbose("[readtxt]    axis: %s" %str(axis))
     verbose("[readtxt]    shape: %s" %str(shape))
     if shape is None or axis is None:
-        c = _read_header_config(fh)
+        c = _read_header_config(fh, header_maxlines=header_maxlines,
+                                header_comment=header_comment)
         sec = 'array'
         if shape is None:
             shape = common.str2tup(c.get(sec, 'shape'))
-- 
2.43.0


From 4be9247c4ded7f79e1ce2ab0fb2fdea80b51b3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:34 +0000
Subject: [PATCH 098/109] fix: Spline.invsplev() failed for the data values at
 the ends of the interval

---
 src/pwtools/num.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index fd732a4..a4df12e 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -413,6 +413,13 @@ class Spline(Fit1D):
             ymx,
         )
         func = lambda x: self(x) - y0
+        if x0 is None:
+            # y0 is the value at one end of the interval: Brent's method needs
+            # a sign change, which can be missing due to rounding errors.
+            tol = 8 * EPS * np.abs(self.y).max()
+            for xend in (self.x[0], self.x[-1]) if xab is None else xab:
+                if abs(func(xend)) <= tol:
+                    return xend
         return self._findroot(func, x0=x0, xab=xab)
 
 
-- 
2.43.0


From 2269883070cce9e44896f7edaaf9d1f39a5e00d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:07 +0000
Subject: [PATCH 099/109] fix: readtxt() returned an empty array for a file
 with header_maxlines header lines

---
 src/pwtools/arrayio.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/pwtools/arrayio.py b/src/pwtools/arrayio.py
index 3687a36..cde07ec 100644
--- a/src/pwtools/arrayio.py
+++ b/src/pwtools/arrayio.py
@@ -180,16 +180,14 @@ def readtxt(fh, axis=None, shape=None, header_maxlines=HEADER_MAXLINES,
         axis = ndim - 1
 
     # handle empty files (no data, only special header or nothing at all)
-    header_lines = []
-    for i in range(header_maxlines):
-        try:
-            line = next(fh).strip()
-            if not line.startswith(header_comment) and line != '':
-                header_lines.append(line)
-        except StopIteration:
+    have_data = False
+    for line in fh:
+        line = line.strip()
+        if not line.startswith(header_comment) and line != '':
+            have_data = True
             break
     fh.seek(0)
-    if header_lines == []:
+    if not have_data:
         verbose("[readtxt] WARNING: empty file: %s" %fn)
         return np.array([])
     else:
-- 
2.43.0


From 15e64372efc57c14986f77f0d95f4e033784a615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:50 +0000
Subject: [PATCH 100/109] fix: velocity_traj() truncated the velocities of
 integer coordinates

---
 src/pwtools/crys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 5e9a699..d851e4b 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -712,12 +712,12 @@ def velocity_traj(arr, dt=1.0, axis=0, endpoints=True):
     # course. Also, one *could* create 3*natoms Spline objects thru coords
     # (splines along time axis) and calc 1st and 2nd deriv from that. But
     # that's probably very slow.
-    if endpoints:
-        vv = np.empty_like(arr)
     # To support general axis stuff, use slice magic ala slicetake/sliceput
     assert axis == 0, ("only axis==0 implemented ATM")
     tmp = (arr[2:,...] - arr[:-2,...]) / 2.0 / dt
     if endpoints:
+        # not empty_like(arr): velocities of integer coords are no integers
+        vv = np.empty(arr.shape, dtype=tmp.dtype)
         vv[1:-1,...] = tmp
         vv[0,...] = tmp[0,...]
         vv[-1,...] = tmp[-1,...]
-- 
2.43.0


From c7e8aac3369b72a79b37f06da3e3f140fffb7d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:07 +0000
Subject: [PATCH 101/109] fix: rmax_smith() failed for cells stored as small
 integers

---
 src/pwtools/crys.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index d851e4b..fb43a99 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1069,6 +1069,8 @@ def rmax_smith(cell):
                http://citeseerx.ist.psu.edu/viewdoc/summary?doi=10.1.1.57.1696
                1989
     """
+    # float: small integer types overflow in np.cross()
+    cell = np.asarray(cell, dtype=float)
     a = cell[0,:]
     b = cell[1,:]
     c = cell[2,:]
-- 
2.43.0


From b94dee934376537fa2307548656753475ef15c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:10 +0000
Subject: [PATCH 102/109] fix: norm() and pyvacf() gave wrong results for large
 integers

---
 src/pwtools/num.py   | 2 ++
 src/pwtools/pydos.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index a4df12e..1e15f1e 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -1773,6 +1773,8 @@ def round_up_next_multiple(x, mult):
 def norm(a):
     """2-norm for real vectors."""
     assert len(a.shape) == 1, "input must be 1d array"
+    # integer types overflow
+    a = np.asarray(a, dtype=float)
     # math.sqrt is faster than np.sqrt for scalar args
     return sqrt(np.dot(a, a))
 
diff --git a/src/pwtools/pydos.py b/src/pwtools/pydos.py
index a137533..d0ebecb 100644
--- a/src/pwtools/pydos.py
+++ b/src/pwtools/pydos.py
@@ -40,6 +40,8 @@ def pyvacf(vel, m=None, method=3):
     c : 1d array (nstep,)
         VACF
     """
+    # products of integers overflow
+    vel = np.asarray(vel, dtype=float)
     natoms = vel.shape[1]
     nstep = vel.shape[0]
     c = np.zeros((nstep,), dtype=float)
-- 
2.43.0


From bd8baf7f8f64b969c4be0bbad96ec7539661171c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:48 +0000
Subject: [PATCH 103/109] fix: acorr() gave wrong results for large integers
 with most methods

---
 src/pwtools/signal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index e015aa9..2efae8b 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -465,6 +465,8 @@ def acorr(v, method=7, norm=True):
     .. [4] http://mathworld.wolfram.com/Wiener-KhinchinTheorem.html
     .. [5] http://mathworld.wolfram.com/Autocorrelation.html
     """
+    # products of integers overflow
+    v = np.asarray(v, dtype=float)
     nstep = v.shape[0]
     c = np.zeros((nstep,), dtype=float)
     _norm = 1 if norm else 0
-- 
2.43.0


From 833002b5202153a67930dc94ba7ad2c3df54e5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:55 +0000
Subject: [PATCH 104/109] fix: vander() gave wrong results for large integers

---
 src/pwtools/num.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index 1e15f1e..7b4e446 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -1310,6 +1310,8 @@ def vander(points, deg):
     -------
     vander : 2d array (npoints, (deg+1)**ndim)
     """
+    # powers of integers overflow
+    points = np.asarray(points, dtype=float)
     powers = poly_powers(points.shape[1], deg)
     # low memory version, slower
     ##npoints = points.shape[0]
-- 
2.43.0


From d4d1b06d12cde5ff7a39d6dd6413405230af6aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:38 +0000
Subject: [PATCH 105/109] fix: read_matdyn_freq() refuses files with fewer
 k-points than announced

---
 src/pwtools/pwscf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/pwscf.py b/src/pwtools/pwscf.py
index 4e82793..ff0705e 100644
--- a/src/pwtools/pwscf.py
+++ b/src/pwtools/pwscf.py
@@ -521,7 +521,9 @@ def read_matdyn_freq(filename):
     # nasty trick: join all lines containing data into one 1d array: " ".join()
     # does "1 2\n3 4" -> "1 2\n 3 4" and split() splits at \n + whitespace.
     items = np.array(' '.join(lines[1:]).split(), dtype=float)
-    for ii in range(len(items) // step):
+    assert len(items) // step == nks, ("expected %i k-points in file '%s', "
+        "got %i" %(nks, filename, len(items) // step))
+    for ii in range(nks):
         kpoints[ii,:] = items[ii*step:(ii*step+3)]
         freqs[ii,:] = items[(ii*step+3):(ii*step+step)]
     return kpoints, freqs
-- 
2.43.0


From 47a37081a22a990084afa607507e525d9a728ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:10 +0000
Subject: [PATCH 106/109] fix: ParameterStudy in write mode removed other paths
 if the calc dir has blanks in its name

---
 src/pwtools/batch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 6e2f2cf..9b71940 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -2,6 +2,7 @@
 
 import os
 import copy
+import shlex
 import shutil
 from collections.abc import Callable
 
@@ -568,7 +569,7 @@ class ParameterStudy:
                 if backup:
                     common.backup(calc_dir)
                 if mode == 'w':
-                    common.system("rm -r %s" %calc_dir, wait=True)
+                    common.system("rm -r %s" %shlex.quote(calc_dir), wait=True)
             run_txt = "here=$(pwd)\n"
             for _idx, params in enumerate(self.params_lst):
                 params = common.flatten(params)
-- 
2.43.0


From 37a67f90e1a7d7dbb6b695d0eebf78c0fc232b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:10 +0000
Subject: [PATCH 107/109] fix: run.sh of a parameter study stopped after the
 first calculation if the path has blanks

---
 src/pwtools/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 9b71940..ac48c0e 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -592,7 +592,7 @@ class ParameterStudy:
                 if mode == 'w' and os.path.exists(calc_subdir):
                     shutil.rmtree(calc_subdir)
                 calc.write_input()
-                run_txt += "cd %i && %s %s && cd $here && sleep %i\n" %(idx,\
+                run_txt += 'cd %i && %s %s && cd "$here" && sleep %i\n' %(idx,\
                             machine.subcmd, machine.get_jobfile_basename(), sleep)
                 if imach == 0:
                     sql_records.append(calc.get_sql_record())
-- 
2.43.0


From 3bac93986b8b61333d1be2a881cbeacfaee934b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:11 +0000
Subject: [PATCH 108/109] fix: backup() wrote through a dangling link with the
 name of the backup, failed for dirs

---
 src/pwtools/common.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index e7ea0b7..f3996bf 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -521,11 +521,12 @@ def backup(src, prefix='.'):
             raise Exception("source '%s' is not file or dir" %src)
         idx = 0
         dst = src + '%s%s' %(prefix,idx)
-        while os.path.exists(dst):
+        # lexists: a dangling link is also a name in use
+        while os.path.lexists(dst):
             idx += 1
             dst = src + '%s%s' %(prefix,idx)
         # sanity check
-        if os.path.exists(dst):
+        if os.path.lexists(dst):
             raise Exception("destination '%s' exists" %dst)
         else:
             copy(src, dst)
-- 
2.43.0


From 58aa6c46330505c3524c911ce6e076bef0bfd262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:58 +0000
Subject: [PATCH 109/109] fix: LAMMPS log without timestep command: word
 timesteps in the Performance line was read as one

---
 src/pwtools/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index b7e83f6..8873832 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -2431,7 +2431,7 @@ class LammpsTextMDOutputFile(TrajectoryFileParser):
 
     def get_timestep(self):
         if os.path.exists(self.filename):
-            cmd = r"grep -m1 timestep %s | \
+            cmd = r"grep -m1 -E '^\s*timestep\s' %s | \
                     sed -re 's/.*step (.*)/\1/'" %self.filename
             return float_from_txt(com.backtick(cmd))
         else:
-- 
2.43.0

