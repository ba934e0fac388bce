From 062ca3ea4736f3cc1218b938a34f4637cefdd572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 01/75] fix: ParameterStudy: use db_table instead of hardcoded
 'calc' for excl_push

---
 src/pwtools/batch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 627a315..40339f1 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -607,8 +607,9 @@ class ParameterStudy:
                   ",".join(['?']*len(list(record.keys()))))
             sqldb.execute(cmd, tuple(entry.sqlval for entry in record.values()))
         if excl and revision > 0 and sqldb.has_column('revision'):
-            old_idx_lst = [str(x) for x, in sqldb.execute("select idx from calc where \
-                                                          revision < ?", (revision,))]
+            old_idx_lst = [str(x) for x, in sqldb.execute("select idx from %s where \
+                                                          revision < ?" %self.db_table,
+                                                          (revision,))]
             common.file_write(pj(self.calc_root, 'excl_push'),
                               '\n'.join(old_idx_lst))
         sqldb.finish()
-- 
2.43.0


From a50e302a8753d3361f7ef2984fa602db7850a24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 02/75] fix: ParameterStudy: quote calc dir name when removing
 it in mode 'w'

---
 src/pwtools/batch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 40339f1..6638a12 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -2,6 +2,7 @@
 
 import os
 import copy
+import shlex
 import shutil
 from collections.abc import Callable
 
@@ -558,7 +559,7 @@ class ParameterStudy:
                 if backup:
                     common.backup(calc_dir)
                 if mode == 'w':
-                    common.system("rm -r %s" %calc_dir, wait=True)
+                    common.system("rm -r -- %s" %shlex.quote(calc_dir), wait=True)
             run_txt = "here=$(pwd)\n"
             for _idx, params in enumerate(self.params_lst):
                 params = common.flatten(params)
-- 
2.43.0


From 42df8228354b2937b560124607fb27a43e91559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 03/75] fix: FileTemplate: keys=[] (copy only) raised TypeError

---
 src/pwtools/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 6638a12..9cdfb8c 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -228,7 +228,7 @@ class FileTemplate:
         tgt = pj(calc_dir, self.basename)
         verbose("write: %s" %tgt)
         if copy_only:
-            verbose("write: ignoring input, just copying file to %s"
+            verbose("write: ignoring input, just copying file %s to %s"
                     %(self.filename, tgt))
             shutil.copy(self.filename, tgt)
         else:
-- 
2.43.0


From d56d2492f713792ee918c7aa1a30834079516494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 04/75] fix: Calculation: don't modify the templates list
 passed in

---
 src/pwtools/batch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 9cdfb8c..c983cea 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -300,7 +300,9 @@ class Calculation:
             'calc_foo/0/')
         """
         self.machine = machine
-        self.templates = templates
+        # copy b/c we append machine.template below, don't modify the list
+        # passed in (or the default one)
+        self.templates = list(templates)
         self.params = params
         self.calc_dir = calc_dir
         self.sql_record = dict((sqlentry.key, sqlentry) \
-- 
2.43.0


From f62a849bc8aed6f4b1a746babdd550f1c5830179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 05/75] fix: ParameterStudy: quote $here in run.sh

---
 src/pwtools/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index c983cea..02c5a9b 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -584,7 +584,7 @@ class ParameterStudy:
                 if mode == 'w' and os.path.exists(calc_subdir):
                     shutil.rmtree(calc_subdir)
                 calc.write_input()
-                run_txt += "cd %i && %s %s && cd $here && sleep %i\n" %(idx,\
+                run_txt += "cd %i && %s %s && cd \"$here\" && sleep %i\n" %(idx,\
                             machine.subcmd, machine.get_jobfile_basename(), sleep)
                 if imach == 0:
                     sql_records.append(calc.get_sql_record())
-- 
2.43.0


From f6ad0bc691df727aac96bf484000ba59f43f408c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 06/75] fix: ParameterStudy: make append work after an
 interrupted first call

---
 src/pwtools/batch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 02c5a9b..d380d1b 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -529,10 +529,12 @@ class ParameterStudy:
                 common.backup(self.dbfn)
             if mode == 'w':
                 os.remove(self.dbfn)
-        have_new_db = not os.path.exists(self.dbfn)
         common.makedirs(self.calc_root)
         # this call creates a file ``self.dbfn`` if it doesn't exist
         sqldb = SQLiteDB(self.dbfn, table=self.db_table)
+        # The table can be missing or empty if the first call was interrupted.
+        have_table = sqldb.has_table(self.db_table)
+        have_new_db = not have_table or sqldb.get_max_rowid() is None
         # max_idx: counter for calc dir numbering
         revision = 0
         if have_new_db:
@@ -596,7 +598,7 @@ class ParameterStudy:
         raw_header = [(key, entry.sqltype.upper()) for record in sql_records \
             for key, entry in record.items()]
         header = list(set(raw_header))
-        if have_new_db:
+        if not have_table:
             sqldb.create_table(header)
         else:
             for record in sql_records:
-- 
2.43.0


From 4de477167b3cf27855f444b432548ede7df6e5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 07/75] fix: ParameterStudy: don't commit a part of the rows if
 interrupted

---
 src/pwtools/batch.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index d380d1b..71f81b4 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -605,19 +605,24 @@ class ParameterStudy:
                 for key, entry in record.items():
                     if not sqldb.has_column(key):
                         sqldb.add_column(key, entry.sqltype.upper())
-        for record in sql_records:
-            cmd = "insert into %s (%s) values (%s)"\
-                %(self.db_table,
-                  ",".join(list(record.keys())),
-                  ",".join(['?']*len(list(record.keys()))))
-            sqldb.execute(cmd, tuple(entry.sqlval for entry in record.values()))
-        if excl and revision > 0 and sqldb.has_column('revision'):
-            old_idx_lst = [str(x) for x, in sqldb.execute("select idx from %s where \
-                                                          revision < ?" %self.db_table,
-                                                          (revision,))]
-            common.file_write(pj(self.calc_root, 'excl_push'),
-                              '\n'.join(old_idx_lst))
-        sqldb.finish()
+        try:
+            for record in sql_records:
+                cmd = "insert into %s (%s) values (%s)"\
+                    %(self.db_table,
+                      ",".join(list(record.keys())),
+                      ",".join(['?']*len(list(record.keys()))))
+                sqldb.execute(cmd, tuple(entry.sqlval for entry in record.values()))
+            if excl and revision > 0 and sqldb.has_column('revision'):
+                old_idx_lst = [str(x) for x, in sqldb.execute("select idx from %s where \
+                                                              revision < ?" %self.db_table,
+                                                              (revision,))]
+                common.file_write(pj(self.calc_root, 'excl_push'),
+                                  '\n'.join(old_idx_lst))
+            sqldb.finish()
+        except BaseException:
+            # all or nothing, SQLiteDB.__del__ would commit what we have so far
+            sqldb.conn.rollback()
+            raise
 
 
 def conv_table(xx, yy, ffmt="%15.4f", sfmt="%15s", mode='last', orig=False,
-- 
2.43.0


From 635ed1c73f12116f2eacb466273bba76b62e2df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 08/75] fix: backup: don't follow a dangling link which has the
 name of the new backup

---
 src/pwtools/common.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index b51c19a..311c4bd 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -532,12 +532,13 @@ def backup(src, prefix='.'):
         else:
             raise Exception("source '%s' is not file or dir" %src)
         idx = 0
+        # lexists: don't copy through an existing dangling link
         dst = src + '%s%s' %(prefix,idx)
-        while os.path.exists(dst):
+        while os.path.lexists(dst):
             idx += 1
             dst = src + '%s%s' %(prefix,idx)
         # sanity check
-        if os.path.exists(dst):
+        if os.path.lexists(dst):
             raise Exception("destination '%s' exists" %dst)
         else:
             copy(src, dst)
-- 
2.43.0


From fec1700e0d95485c7f9a411f795512ae51c63dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 09/75] fix: backup: don't place the backup inside the source
 dir for src='dir/'

---
 src/pwtools/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index 311c4bd..2ed492d 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -524,6 +524,8 @@ def backup(src, prefix='.'):
         name of file/dir to be copied
     prefix : str, optional
     """
+    # 'dir/' -> 'dir', else the backup would go into dir itself
+    src = src.rstrip(os.sep) or src
     if os.path.exists(src):
         if os.path.isfile(src):
             copy = shutil.copy
-- 
2.43.0


From e5357dd07f2ae9cccb153e04979e907338d8efba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:50 +0000
Subject: [PATCH 10/75] fix: FlexibleGetters.dump: report write errors, close
 files

---
 src/pwtools/base.py | 8 ++++++--
 src/pwtools/io.py   | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/base.py b/src/pwtools/base.py
index 539d1cd..2b07534 100644
--- a/src/pwtools/base.py
+++ b/src/pwtools/base.py
@@ -162,7 +162,10 @@ class FlexibleGetters:
             dr = os.path.dirname(dump_filename)
             if dr != '':
                 common.makedirs(dr)
-        pickle.dump(self, open(dump_filename, 'wb'), protocol=2)
+        # Don't rely on the garbage collector to close (= flush) the file, write
+        # errors would be lost.
+        with open(dump_filename, 'wb') as fh:
+            pickle.dump(self, fh, protocol=2)
 
     def load(self, dump_filename):
         """Load pickled object.
@@ -185,7 +188,8 @@ class FlexibleGetters:
                        DeprecationWarning)
         # this does not work:
         #   self = pickle.load(...)
-        self.__dict__.update(pickle.load(open(dump_filename, 'rb')).__dict__)
+        with open(dump_filename, 'rb') as fh:
+            self.__dict__.update(pickle.load(fh).__dict__)
 
     def is_set_attr(self, attr):
         """Check if self has the attribute self.<attr> and if it is _not_ None.
diff --git a/src/pwtools/io.py b/src/pwtools/io.py
index 5f2a0cb..d0f0912 100644
--- a/src/pwtools/io.py
+++ b/src/pwtools/io.py
@@ -321,7 +321,8 @@ def load_h5(*args, **kwds):
 def read_pickle(filename):
     """Load object written by ``pickle.dump()``, e.g. files written by
     :meth:`~pwtools.base.FlexibleGetters.dump()`."""
-    return pickle.load(open(filename, 'rb'))
+    with open(filename, 'rb') as fh:
+        return pickle.load(fh)
 
 
 class ReadFactory:
-- 
2.43.0


From efbf2b8f36b7e756db736dcd55d02da081df989a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 11/75] fix: writetxt, file_write: close the file if writing
 fails

---
 src/pwtools/arrayio.py | 41 +++++++++++++++++++++--------------------
 src/pwtools/common.py  |  5 ++---
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/pwtools/arrayio.py b/src/pwtools/arrayio.py
index e30faf2..3b30206 100644
--- a/src/pwtools/arrayio.py
+++ b/src/pwtools/arrayio.py
@@ -109,26 +109,27 @@ def writetxt(fn, arr, axis=-1, maxdim=TXT_MAXDIM, header=True):
     """
     verbose("[writetxt] writing: %s" %fn)
     common.assert_cond(arr.ndim <= maxdim, 'no rank > %i arrays supported' %maxdim)
-    fh = open(fn, 'wb+')
-    if header:
-        c = ConfigParser()
-        sec = 'array'
-        c.add_section(sec)
-        c.set(sec, 'shape', common.seq2str(arr.shape))
-        c.set(sec, 'axis', str(axis))
-        _write_header_config(fh, c)
-    # 1d and 2d case
-    if arr.ndim < maxdim:
-        np.savetxt(fh, arr)
-    # 3d
-    else:
-        # TODO get rid of loop?
-        # write 2d arrays, one by one
-        sl = [slice(None)]*arr.ndim
-        for ind in range(arr.shape[axis]):
-            sl[axis] = ind
-            np.savetxt(fh, arr[tuple(sl)])
-    fh.close()
+    # with: if writing fails, don't leave buffered data behind which would be
+    # flushed into the file whenever `fh` happens to be garbage collected
+    with open(fn, 'wb+') as fh:
+        if header:
+            c = ConfigParser()
+            sec = 'array'
+            c.add_section(sec)
+            c.set(sec, 'shape', common.seq2str(arr.shape))
+            c.set(sec, 'axis', str(axis))
+            _write_header_config(fh, c)
+        # 1d and 2d case
+        if arr.ndim < maxdim:
+            np.savetxt(fh, arr)
+        # 3d
+        else:
+            # TODO get rid of loop?
+            # write 2d arrays, one by one
+            sl = [slice(None)]*arr.ndim
+            for ind in range(arr.shape[axis]):
+                sl[axis] = ind
+                np.savetxt(fh, arr[tuple(sl)])
 
 
 @open_and_close
diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index 2ed492d..5749e84 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -354,9 +354,8 @@ def file_write(fn, txt):
     """Write string `txt` to file with name `fn`. No check is made wether the
     file exists and/or is nonempty. Yah shalleth know whath thy is doingth.
     shell$ echo $string > $file """
-    fd = open(fn, 'w')
-    fd.write(txt)
-    fd.close()
+    with open(fn, 'w') as fd:
+        fd.write(txt)
 
 
 def file_readlines(fn):
-- 
2.43.0


From 7ae3d8861bb0356c84797649400d25f4035f5124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:42 +0000
Subject: [PATCH 12/75] fix: write_h5, read_h5: close the file in case of
 errors

---
 src/pwtools/io.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/pwtools/io.py b/src/pwtools/io.py
index d0f0912..79a78bb 100644
--- a/src/pwtools/io.py
+++ b/src/pwtools/io.py
@@ -277,10 +277,9 @@ def write_h5(fn, dct, **kwds):
     >>> write_h5('file.h5', old, mode='w')
     """
     mode = kwds.pop('mode') if 'mode' in kwds else 'a'
-    fh = h5py.File(fn, mode=mode, **kwds)
-    for key,val in dct.items():
-        fh[key] = val
-    fh.close()
+    with h5py.File(fn, mode=mode, **kwds) as fh:
+        for key,val in dct.items():
+            fh[key] = val
 
 
 def read_h5(fn):
@@ -299,15 +298,14 @@ def read_h5(fn):
     >>> read_h5('foo.h5').keys()
     ['/a/b/d1', '/a/b/d2', '/a/c/d3', '/x/y/z']
     """
-    fh = h5py.File(fn, mode='r')
     dct = {}
     def get(name, obj):
         if isinstance(obj, h5py.Dataset):
             _name = name if name.startswith('/') else '/'+name
             val = obj[()]
             dct[_name] = obj.asstr()[()] if isinstance(val, bytes) else val
-    fh.visititems(get)
-    fh.close()
+    with h5py.File(fn, mode='r') as fh:
+        fh.visititems(get)
     return dct
 
 
-- 
2.43.0


From 10a6369d6e6d929912238969a58b7a9fd403ffce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 13/75] fix: readtxt: detect truncated files, restore shapes
 with axes of length one

---
 src/pwtools/arrayio.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/arrayio.py b/src/pwtools/arrayio.py
index 3b30206..ea588b3 100644
--- a/src/pwtools/arrayio.py
+++ b/src/pwtools/arrayio.py
@@ -132,6 +132,16 @@ def writetxt(fn, arr, axis=-1, maxdim=TXT_MAXDIM, header=True):
                 np.savetxt(fh, arr[tuple(sl)])
 
 
+def _complete_lines(fh):
+    """Iterate over the lines in `fh`. Raise Exception if the last line is not
+    terminated: the last number in there may be cut off and readable, but
+    wrong."""
+    for line in fh:
+        common.assert_cond(line.endswith('\n'), "last line has no newline, "
+                           "file '%s' truncated?" %common.get_filename(fh))
+        yield line
+
+
 @open_and_close
 def readtxt(fh, axis=None, shape=None, header_maxlines=HEADER_MAXLINES,
             header_comment=HEADER_COMMENT, maxdim=TXT_MAXDIM, **kwargs):
@@ -166,6 +176,7 @@ def readtxt(fh, axis=None, shape=None, header_maxlines=HEADER_MAXLINES,
     verbose("[readtxt] reading: %s" %fn)
     verbose("[readtxt]    axis: %s" %str(axis))
     verbose("[readtxt]    shape: %s" %str(shape))
+    shape_from_header = shape is None
     if shape is None or axis is None:
         c = _read_header_config(fh)
         sec = 'array'
@@ -191,14 +202,29 @@ def readtxt(fh, axis=None, shape=None, header_maxlines=HEADER_MAXLINES,
     fh.seek(0)
     if header_lines == []:
         verbose("[readtxt] WARNING: empty file: %s" %fn)
+        if shape_from_header:
+            common.assert_cond(0 in shape, "file '%s' truncated, expect data "
+                "of shape %s" %(fn, str(shape)))
+            return np.empty(shape)
         return np.array([])
     else:
         fh.seek(0)
-        read_arr = np.loadtxt(fh, **kwargs)
+        # With any of these, loadtxt() is asked to return something else than
+        # what was written.
+        other = {'usecols', 'skiprows', 'max_rows', 'unpack', 'ndmin'}
+        whole = not other.intersection(kwargs)
+        # don't squeeze axes of length one
+        if whole:
+            kwargs['ndmin'] = max(1, min(ndim, 2))
+        read_arr = np.loadtxt(_complete_lines(fh) if shape_from_header else fh,
+                              **kwargs)
 
     # 1d and 2d
     if ndim <= 2:
         arr = read_arr
+        if shape_from_header and whole:
+            common.assert_cond(arr.shape == shape, "file '%s' truncated? got "
+                "shape %s, expect %s" %(fn, str(arr.shape), str(shape)))
     # 3d
     else:
         arr = arr2d_to_3d(read_arr, shape=shape, axis=axis)
-- 
2.43.0


From 8a9be36944890a8ff917c639d1aafd79a1e62d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 14/75] fix: read_dcd_data_f: raise for missing or truncated
 files instead of stopping the interpreter

---
 src/pwtools/dcd.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pwtools/dcd.py b/src/pwtools/dcd.py
index bbef799..08506c5 100644
--- a/src/pwtools/dcd.py
+++ b/src/pwtools/dcd.py
@@ -252,5 +252,18 @@ def read_dcd_data_f(fn, convang=False, nstephdr=False):
     >>> cc,co = read_dcd_data_f('lammps.dcd', convang=True, nstephdr=False)
     """
     from pwtools import _dcd
+    # The Fortran code can only stop (the Python process!) in case of errors,
+    # so don't let it see missing, empty or truncated files.
+    with open(fn, 'rb') as fd:
+        hdr = np.fromfile(fd, HEADER_DTYPE, 1)
+        assert len(hdr) == 1, "header incomplete in file '{}'".format(fn)
+        fd_rest = os.path.getsize(fn) - HEADER_DTYPE.itemsize
+    # see read_dcd_data()
+    nstep, rest = divmod(fd_rest, 4 + 6*8 + 7*4 + 3*4*int(hdr[0]['natoms']))
+    assert nstep > 0 and rest == 0, ("calculated nstep is not int > 0, cannot "
+                                     "read file '{}'".format(fn))
+    if nstephdr:
+        assert 0 < hdr[0]['9int'][0] <= nstep, ("wrong nstep in header of "
+                                                "file '{}'".format(fn))
     nstep, natoms, timestep = _dcd.get_dcd_file_info(fn, nstephdr)
     return _dcd.read_dcd_data(fn, nstep, natoms, convang)
-- 
2.43.0


From 9f67909798c12d85a6e1b342194030018cb207fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 15/75] fix: read_dcd_data_ref: correct array shapes if there
 is no complete frame

---
 src/pwtools/dcd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/dcd.py b/src/pwtools/dcd.py
index 08506c5..eb8f07b 100644
--- a/src/pwtools/dcd.py
+++ b/src/pwtools/dcd.py
@@ -143,8 +143,9 @@ def read_dcd_data_ref(fn, convang=False):
             coords.append(tmp_coords.copy())
             cryst_const.append(tmp_cryst_const.copy())
     fd.close()
-    coords = np.array(coords, dtype=np.float32)
-    cryst_const = np.array(cryst_const, dtype=np.float64)
+    # reshape: correct shape also for zero frames
+    coords = np.array(coords, dtype=np.float32).reshape((-1,natoms,3))
+    cryst_const = np.array(cryst_const, dtype=np.float64).reshape((-1,6))
     if convang:
         cryst_const[:,3:] = np.arccos(cryst_const[:,3:])*180.0/np.pi
     return cryst_const, coords
-- 
2.43.0


From 6aabadd83f9f078a9518e210efdd792e543b8291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 16/75] fix: readtxt: check explicitly given shapes of 1d and
 2d arrays as for 3d

---
 src/pwtools/arrayio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/arrayio.py b/src/pwtools/arrayio.py
index ea588b3..5fec9cb 100644
--- a/src/pwtools/arrayio.py
+++ b/src/pwtools/arrayio.py
@@ -222,8 +222,8 @@ def readtxt(fh, axis=None, shape=None, header_maxlines=HEADER_MAXLINES,
     # 1d and 2d
     if ndim <= 2:
         arr = read_arr
-        if shape_from_header and whole:
-            common.assert_cond(arr.shape == shape, "file '%s' truncated? got "
+        if whole:
+            common.assert_cond(arr.shape == tuple(shape), "file '%s' truncated? got "
                 "shape %s, expect %s" %(fn, str(arr.shape), str(shape)))
     # 3d
     else:
-- 
2.43.0


From 9e961e8b146e26ee137641b6ad4c80916f24e4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 17/75] fix: SQLiteDB.fill_column: TypeError for empty tables

---
 src/pwtools/sql.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pwtools/sql.py b/src/pwtools/sql.py
index 2288683..7e35372 100644
--- a/src/pwtools/sql.py
+++ b/src/pwtools/sql.py
@@ -361,6 +361,9 @@ class SQLiteDB:
         # ..." to appand rows to the bottom.
         table = self._get_table(table)
         maxrowid = self.get_max_rowid(table)
+        # empty table
+        if maxrowid is None:
+            maxrowid = 0
         assert self.has_column(col, table=table), "column missing: %s" %col
         if not extend:
             assert start <= maxrowid, "start > maxrowid"
-- 
2.43.0


From f31777777b2aea8cf04802d85b04d7ec8761002e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:12 +0000
Subject: [PATCH 18/75] fix: SQLiteDB.get_list1d: don't take BLOB values apart

---
 src/pwtools/sql.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pwtools/sql.py b/src/pwtools/sql.py
index 7e35372..8372878 100644
--- a/src/pwtools/sql.py
+++ b/src/pwtools/sql.py
@@ -1,6 +1,5 @@
 import sqlite3, types
 import numpy as np
-from pwtools import common
 
 import os
 
@@ -453,7 +452,7 @@ class SQLiteDB:
         column, then ``self.cur.fetchall()`` returns a list of tuples like
         ``[(1,), (2,)]`` We call ``fetchall()`` and return the flattened list.
         """
-        return common.flatten(self.execute(*args, **kwargs).fetchall())
+        return [val for row in self.execute(*args, **kwargs) for val in row]
 
     def get_single(self, *args, **kwargs):
         """Return single entry from the table."""
-- 
2.43.0


From f6045fc50aff0c1f4e97ea8aa3b973ea60b4e9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:12 +0000
Subject: [PATCH 19/75] fix: makedb: don't add a part of the rows in case of
 errors

---
 src/pwtools/sql.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/pwtools/sql.py b/src/pwtools/sql.py
index 8372878..5da9487 100644
--- a/src/pwtools/sql.py
+++ b/src/pwtools/sql.py
@@ -742,12 +742,17 @@ def makedb(filename, lists, colnames, table=None, mode='a', close=True, **kwds):
             assert typ == db_typ, ("col: '%s': "
                 "types differ, db: '%s', here: '%s'" %(col, db_typ, typ))
     sql_lists = sql_matrix(lists, header=header, **kwds)
-    for row in sql_lists:
-        ncols = len(row)
-        names = ','.join(colnames)
-        values = ','.join(['?']*ncols)
-        cmd = 'insert into %s (%s) values (%s)' %(table, names, values)
-        db.execute(cmd, [entry.sqlval for entry in row])
+    try:
+        for row in sql_lists:
+            ncols = len(row)
+            names = ','.join(colnames)
+            values = ','.join(['?']*ncols)
+            cmd = 'insert into %s (%s) values (%s)' %(table, names, values)
+            db.execute(cmd, [entry.sqlval for entry in row])
+    except BaseException:
+        # else __del__ commits the rows before the failing one
+        db.conn.rollback()
+        raise
     if close:
         db.finish()
     else:
-- 
2.43.0


From 4d9f0da4d436512dbfab59d804d9ea47a3980e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 20/75] fix: makedb: check types before removing the old
 database in mode 'w'

---
 src/pwtools/sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/sql.py b/src/pwtools/sql.py
index 5da9487..f25ae5b 100644
--- a/src/pwtools/sql.py
+++ b/src/pwtools/sql.py
@@ -724,11 +724,11 @@ def makedb(filename, lists, colnames, table=None, mode='a', close=True, **kwds):
                                "from filename")
     assert len(colnames) == len(lists[0]), ("len(colnames) != length of "
                                             "first list")
+    sqltypes = [find_sqltype(xx) for xx in lists[0]]
+    header = list(zip(colnames, sqltypes))
     if mode == 'w':
         if os.path.exists(filename):
             os.remove(filename)
-    sqltypes = [find_sqltype(xx) for xx in lists[0]]
-    header = list(zip(colnames, sqltypes))
     db = SQLiteDB(filename, table=table)
     if not db.has_table(table):
         db.create_table(header)
-- 
2.43.0


From 43203e217eb9ade4eaa73f52a476bba1b9e4d0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:41 +0000
Subject: [PATCH 21/75] fix: parsers changed default_units of other parser
 classes

The MD parsers updated the class attribute, so that e.g. the stress unit of
Cp2kSCFOutputFile, or the length/time/stress units of CifFile and PDBFile
depended on which parser was used before in the same process.
---
 src/pwtools/parse.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 84d7fb3..bea6c83 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -875,8 +875,10 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
     """
     def __init__(self, filename=None, use_alat=True, **kwds):
         # update default_units *before* calling base class' __init__, where
-        # self.units is assembled from default_units
-        self.default_units.update({'time': constants.tryd / constants.fs})
+        # self.units is assembled from default_units; don't change the class
+        # attribute, which is shared with PwSCFOutputFile
+        self.default_units = dict(self.default_units,
+                                  time=constants.tryd / constants.fs)
         TrajectoryFileParser.__init__(self, filename=filename, **kwds)
         self.attr_lst = [\
             'coords',
@@ -1467,7 +1469,8 @@ class CpmdMDOutputFile(TrajectoryFileParser, CpmdSCFOutputFile):
         ----------
         filename : file to parse
         """
-        self.default_units.update(\
+        # don't change the class attribute, it is shared with CpmdSCFOutputFile
+        self.default_units = dict(self.default_units, **\
             {'time': constants.thart / constants.fs, # thart -> fs
              'velocity': Bohr / Ang * fs / thart,    # Bohr / thart -> Ang / fs
             })
@@ -1822,6 +1825,8 @@ class Cp2kMDOutputFile(TrajectoryFileParser, Cp2kSCFOutputFile):
     md,print_level low".
     """
     def __init__(self, *args, **kwds):
+        # don't change the class attribute, it is shared with Cp2kSCFOutputFile
+        self.default_units = dict(self.default_units)
         self.default_units['stress'] = 1e-4 # bar -> GPa
         self.default_units['velocity'] = Bohr/thart / Ang*fs # Bohr/thart -> Ang/fs
         TrajectoryFileParser.__init__(self, *args, **kwds)
@@ -2210,6 +2215,9 @@ class LammpsTextMDOutputFile(TrajectoryFileParser):
             where lammps echos the input script. `symbols` is build from the
             ``type`` column in `dumpfilename`.
         """
+        # don't change the class attribute, it is shared with all parsers which
+        # don't define their own
+        self.default_units = dict(self.default_units)
         self.default_units['stress'] = 1e-4     # bar -> GPa
         self.default_units['velocity'] = fs/ps  # Ang/ps -> Ang/fs
         self.default_units['time'] = ps/fs      # ps -> fs
-- 
2.43.0


From be5a443f99ba41db46d2a0008c0bc2309eb34d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:04 +0000
Subject: [PATCH 22/75] fix: second get_struct()/get_traj() call of a parser
 returned unconverted values

The container was reused, with units_applied already set, such that the second
call changed the object returned before to the raw units of the file.
---
 src/pwtools/parse.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index bea6c83..ef15fb4 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -105,7 +105,7 @@ Con:
   "empty" file.
 """
 
-import re, sys, os
+import copy, re, sys, os
 from math import acos, pi, sin, cos, sqrt
 
 from io import StringIO
@@ -292,8 +292,13 @@ class StructureFileParser(UnitsHandler):
         """
         if not self.parse_called:
             self.parse()
+        # Always start with a new container and copies of the parsed data. Units
+        # are applied only once per container and what we returned in earlier
+        # calls belongs to the caller.
+        self.cont = self.Container(set_all_auto=False, units=self.units)
         for attr_name in self.cont.attr_lst:
-            setattr(self.cont, attr_name, getattr(self, attr_name))
+            setattr(self.cont, attr_name,
+                    copy.deepcopy(getattr(self, attr_name)))
         if auto_calc:
             self.cont.set_all()
         else:
-- 
2.43.0


From 986cc248b948ceb1e572a0cf27df0f60bb0cde62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:04 +0000
Subject: [PATCH 23/75] fix: temperature of pw.x MD was shifted by one step

The line 'Starting temperature = ...' was taken as the first step.
---
 src/pwtools/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index ef15fb4..ef9682e 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1108,7 +1108,8 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
     def get_temperature(self):
         """Temperature [K]"""
         verbose("getting temperature")
-        cmd = r"egrep 'temperature[ ]*=' %s " %self.filename + \
+        # skip "Starting temperature  =   300.00 K", not part of the trajectory
+        cmd = r"egrep 'temperature[ ]*=' %s | grep -v Starting " %self.filename + \
               r"| sed -re 's/.*temp.*=\s*(" + regex.float_re + \
               r")\s*K/\1/'"
         return arr1d_from_txt(com.backtick(cmd))
-- 
2.43.0


From 59a3801cb3ebaf46f2af3f9eac69a625a203511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:06 +0000
Subject: [PATCH 24/75] fix: pw.x MD/relax: forces, stress, etot of unfinished
 steps were assigned to wrong steps

---
 src/pwtools/parse.py | 47 +++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index ef9682e..b316f8a 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1003,21 +1003,35 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
             else:
                 return None
 
-    def _match_nstep(self, arr):
-        """Get nstep from _coords.shape[0] and return the last nstep steps from
-        the array `arr` along self.timeaxis.
-
-        Used to match forces,stress,... etc to coords b/c for MDs, the former
-        ones are always one step longer b/c of stuff printed in the first SCF
-        loop before the MD starts."""
+    def _match_nstep(self, arr, key):
+        """Match forces, stress, ... in the array `arr` (one entry per SCF run,
+        i.e. per line in the file which matches `key`) to coords.
+
+        Each step consists of an ATOMIC_POSITIONS block and an SCF run after
+        it. For each step, return the first entry found after its
+        ATOMIC_POSITIONS block, starting with the first step. This skips stuff
+        printed in the first SCF loop before the MD starts and doesn't mix up
+        steps if the last SCF run is not (yet) in the file.
+
+        A finished relax repeats the final coords. Repeat the last entry if
+        there is no SCF run for them."""
         if arr is not None:
             if self.check_set_attr('_coords'):
                 nstep = self._coords.shape[self.timeaxis]
-                if arr.shape[self.timeaxis] > nstep:
-                    return num.slicetake(arr, slice(-nstep,None,None),
-                                         axis=self.timeaxis)
-                else:
-                    return arr
+                cmd = r"%s '/ATOMIC_POSITIONS/{n++} /%s/{print n+0}' %s" \
+                    %(AWK, key, self.filename)
+                first = {}
+                for ii,step in enumerate(com.backtick(cmd).split()):
+                    if ii < arr.shape[self.timeaxis]:
+                        first.setdefault(int(step), ii)
+                idx = []
+                while len(idx) < nstep and len(idx) + 1 in first:
+                    idx.append(first[len(idx) + 1])
+                if 0 < len(idx) == nstep - 1 and \
+                   com.backtick("grep -m1 'End of .* Geometry' %s"
+                                %self.filename).strip() != '':
+                    idx.append(idx[-1])
+                return arr.take(idx, axis=self.timeaxis)
             else:
                 return None
         else:
@@ -1122,17 +1136,18 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
 
     def get_stress(self):
         """Stress tensor [kbar]."""
-        return self._match_nstep(self.raw_return('stress'))
+        return self._match_nstep(self.raw_return('stress'), 'P=')
 
     def get_etot(self):
         """[Ry] """
-        return self._match_nstep(self.raw_return('etot'))
+        return self._match_nstep(self.raw_return('etot'), '^!')
 
     def get_forces(self):
         """[Ry / Bohr] """
         if self.check_set_attr('natoms'):
-            forces = self._match_nstep(self.raw_return('forces'))
-            return forces[:,:self.natoms,:]
+            forces = self._match_nstep(self.raw_return('forces'),
+                                       'Forces[ ]+acting[ ]+on[ ]+atoms')
+            return forces[:,:self.natoms,:] if forces is not None else None
         else:
             return None
 
-- 
2.43.0


From 50f1d712a2bf7ca8f2fa2c00fa11e68ebcbcdd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:27 +0000
Subject: [PATCH 25/75] fix: read ENERGIES (cpmd) and cell, ener, stress files
 (cp2k) of unfinished runs

---
 src/pwtools/parse.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index b316f8a..4d676a0 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -220,6 +220,17 @@ def arr2d_from_txt(txt, dtype=np.float64):
         ret = np.atleast_2d(np.loadtxt(StringIO(txt), dtype=dtype))
         return ret
 
+def arr2d_from_file(fn):
+    """Load table file `fn` which may be still growing. Skip a last line
+    without newline, since that was not (yet) written completely. Return a 2d
+    array or None if there is no data."""
+    with open(fn) as fd:
+        lines = [x for x in fd if x.endswith('\n')]
+    if any(x.split('#')[0].strip() != '' for x in lines):
+        return np.loadtxt(lines, ndmin=2)
+    else:
+        return None
+
 def axis_lens(seq, axis=0):
     """Return length of `axis` of all arrays in `seq`.
 
@@ -1548,7 +1559,9 @@ class CpmdMDOutputFile(TrajectoryFileParser, CpmdSCFOutputFile):
         verbose("getting _energies_file")
         fn = os.path.join(self.basedir, 'ENERGIES')
         if os.path.exists(fn):
-            arr = np.loadtxt(fn)
+            arr = arr2d_from_file(fn)
+            if arr is None:
+                return None
             ncols = arr.shape[-1]
             if ncols not in list(self._energies_order.keys()):
                 raise Exception("only %s columns supported in "
@@ -1900,19 +1913,19 @@ class Cp2kMDOutputFile(TrajectoryFileParser, Cp2kSCFOutputFile):
 
     def _get_cell_file_arr(self):
         if os.path.exists(self._cell_file):
-            return np.loadtxt(self._cell_file)
+            return arr2d_from_file(self._cell_file)
         else:
             return None
 
     def _get_ener_file_arr(self):
         if os.path.exists(self._ener_file):
-            return np.loadtxt(self._ener_file)
+            return arr2d_from_file(self._ener_file)
         else:
             return None
 
     def _get_stress_file_arr(self):
         if os.path.exists(self._stress_file):
-            return np.loadtxt(self._stress_file)
+            return arr2d_from_file(self._stress_file)
         else:
             return None
 
-- 
2.43.0


From cb642ee17a25e62aa9f244a4040c743c9cd0dfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:45 +0000
Subject: [PATCH 26/75] fix: cpmd: don't use natoms from incomplete GEOMETRY to
 take apart TRAJECTORY

---
 src/pwtools/parse.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 4d676a0..cccc10c 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1610,6 +1610,13 @@ class CpmdMDOutputFile(TrajectoryFileParser, CpmdSCFOutputFile):
             assert nstep % 1.0 == 0.0, (str(self.__class__) + \
                 "nlines is not a multiple of nstep in %s" %fn)
             nstep = int(nstep)
+            # natoms is the number of lines in GEOMETRY, which may be incomplete.
+            cmd = "%s '/<<<</{if (n) exit; next} n && $1 != nfi {exit} \
+                   {nfi=$1; n++} END{print n+0}' %s" %(AWK, fn)
+            natoms_first = int_from_txt(com.backtick(cmd))
+            assert natoms_first == self.natoms, ("%s: first step in %s has %s "
+                "lines, but natoms=%s" %(str(self.__class__), fn, natoms_first,
+                                         self.natoms))
             # Need to use the slower arrayio.readtxt() here instead of
             # traj_from_txt() which uses fast fromstring() b/c we have
             # comments='<<<<'. The other way would be to  use
-- 
2.43.0


From d95f4540bad813e109b853b2c9ee28823941c7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:45 +0000
Subject: [PATCH 27/75] fix: lammps: natoms of a dump file without the number
 of atoms is None, not 0

---
 src/pwtools/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index cccc10c..993b7be 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -2366,7 +2366,7 @@ class LammpsTextMDOutputFile(TrajectoryFileParser):
     def get_natoms(self):
         if os.path.exists(self.dumpfilename):
             cmd = r"grep -A1 -m1 'ITEM: NUMBER OF ATOMS' %s | tail -n1" %self.dumpfilename
-            return nstep_from_txt(com.backtick(cmd))
+            return int_from_txt(com.backtick(cmd))
         else:
             return None
 
-- 
2.43.0


From c69ba3a5482d22e2d9f1338d4e460b63bc27c297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 28/75] fix: pw.x: forces were assigned to wrong steps and
 atoms if the last block is incomplete

---
 src/pwtools/parse.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 993b7be..60ecccd 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -709,22 +709,22 @@ class PwSCFOutputFile(StructureFileParser):
         if self.check_set_attr('natoms'):
             # nstep: get it from outfile b/c the value in any input file will be
             # wrong if the output file is a concatenation of multiple smaller files
-            key = r'Forces\s+acting\s+on\s+atoms.*$'
-            cmd = r"egrep -c '%s' %s" %(key.replace(r'\s', r'[ ]'), self.filename)
-            nstep = nstep_from_txt(com.backtick(cmd))
-            if nstep > 0:
-                # Need to split traj_from_txt() up into loadtxt() + arr2d_to_3d() b/c
-                # we need to get `nlines` first without an additional "grep -c
-                # ..."
-                cmd = "grep 'atom.*type.*force' %s \
-                    | %s '{print $7\" \"$8\" \"$9}'" %(self.filename, AWK)
-                arr2d = arr2d_from_txt(com.backtick(cmd))
-                nlines = arr2d.shape[0]
+            #
+            # First col: number of the block (= step) to which the line belongs.
+            cmd = "%s '/Forces[ ]+acting[ ]+on[ ]+atoms/{n++} \
+                   /atom.*type.*force/{print n+0,$7,$8,$9}' %s" %(AWK, self.filename)
+            arr2d = arr2d_from_txt(com.backtick(cmd))
+            if arr2d is not None:
+                nlines = np.unique(arr2d[:,0], return_counts=True)[1]
                 # nlines_block = number of force lines per step = N*natoms
-                nlines_block = nlines // nstep
+                nlines_block = nlines[0]
                 assert nlines_block % self.natoms  == 0, ("nlines_block forces doesn't "
                     "match natoms")
-                return arrayio.arr2d_to_3d(arr2d,
+                assert (nlines[:-1] == nlines_block).all(), ("number of "
+                    "force lines differs between steps")
+                # last block may be incomplete
+                nstep = len(nlines) if nlines[-1] == nlines_block else len(nlines) - 1
+                return arrayio.arr2d_to_3d(arr2d[:nstep*nlines_block,1:],
                                            shape=(nstep,nlines_block,3),
                                            axis=self.timeaxis)
             else:
-- 
2.43.0


From cf39164584a99da7f4aeccb3c2ff15920668792f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:00 +0000
Subject: [PATCH 29/75] fix: pw.x: raise error if the start cell is incomplete

---
 src/pwtools/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 60ecccd..63f4206 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -769,7 +769,9 @@ class PwSCFOutputFile(StructureFileParser):
         value."""
         cmd = "egrep -m1 -A3 'crystal.*axes.*units.*(a_0|alat)' %s | tail -n3 | \
                %s '{print $4\" \"$5\" \"$6}'" %(self.filename, AWK)
-        return arr2d_from_txt(com.backtick(cmd))
+        cell = arr2d_from_txt(com.backtick(cmd))
+        assert cell is None or cell.shape == (3,3), "start cell is incomplete"
+        return cell
 
     def get_alat(self, use_alat=None):
         """Lattice parameter "alat" [Bohr]. If use_alat or self.use_alat is
-- 
2.43.0


From fa594de077b8fca79af06b9566cdcc1bf1a289fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 30/75] fix: conversion of parsers to containers depended on
 which getters were called before

---
 src/pwtools/parse.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 63f4206..4964413 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -308,8 +308,11 @@ class StructureFileParser(UnitsHandler):
         # calls belongs to the caller.
         self.cont = self.Container(set_all_auto=False, units=self.units)
         for attr_name in self.cont.attr_lst:
-            setattr(self.cont, attr_name,
-                    copy.deepcopy(getattr(self, attr_name)))
+            # Skip attrs which have a getter but are not set by parse(). Else the
+            # result depends on whether their getters were called before.
+            if attr_name in self.attr_lst or not hasattr(self, 'get_' + attr_name):
+                setattr(self.cont, attr_name,
+                        copy.deepcopy(getattr(self, attr_name)))
         if auto_calc:
             self.cont.set_all()
         else:
-- 
2.43.0


From c1a3aba5737f4e8e0b0db3f8149fcbaa9efe26fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:48 +0000
Subject: [PATCH 31/75] fix: cut-cp2k.sh, cut-cpmd.sh: compare step numbers,
 handle incomplete lines, report errors

- cut-cpmd.sh: step 1 matched 10, 11, ..; the last line of TRAJEC.xyz was removed
  even if there is nothing to cut
- files written every n-th step only were not cut if <step> is not in the file
- incomplete last lines of killed jobs were kept, such that the continued run's
  data was appended to them
- errors (full disk) were not reported, file missing if stopped while renaming
- cut-cp2k.sh: everything was deleted if there is no STEP_START_VAL
- dir names with blanks etc
---
 bin/cut-cp2k.sh | 72 ++++++++++++++++++++++++++------------
 bin/cut-cpmd.sh | 92 ++++++++++++++++++++++++++++++++++---------------
 2 files changed, 115 insertions(+), 49 deletions(-)

diff --git a/bin/cut-cp2k.sh b/bin/cut-cp2k.sh
index bd0f768..2d8d865 100755
--- a/bin/cut-cp2k.sh
+++ b/bin/cut-cp2k.sh
@@ -1,6 +1,6 @@
 #!/bin/bash
 
-prog=$(basename $0)
+prog=$(basename "$0")
 simulate=false
 bakname=bak
 
@@ -53,6 +53,47 @@ err(){
     exit 1
 }
 
+# Cut file $1 with awk program $2. Variables: step = number of the first time
+# step to remove, nlines = number of complete lines. The last line is not
+# complete if the job was killed while writing it. Files where there is nothing
+# to cut are left alone.
+cut_file(){
+    local fn=$1 tmp=$1.cut-tmp nlines
+    [ -f "$fn" ] || return 0
+    echo "$fn"
+    $simulate && return 0
+    nlines=$(wc -l < "$fn") && awk -v step=$step_to_cut -v nlines=$nlines "$2" < "$fn" > "$tmp" \
+        || { rm -f -- "$tmp"; err "cannot cut $fn"; }
+    cmp -s -- "$fn" "$tmp"
+    case $? in
+        0)
+            rm -f -- "$tmp" || err "cannot remove $tmp"
+            ;;
+        1)
+            chmod --reference="$fn" -- "$tmp" && ln -f -- "$fn" "$fn.$bakname" \
+                && mv -f -- "$tmp" "$fn" || { rm -f -- "$tmp"; err "cannot cut $fn"; }
+            ;;
+        *)
+            rm -f -- "$tmp"
+            err "cannot cut $fn"
+            ;;
+    esac
+}
+
+# One step per line. Note that files can be written every n-th step only, such
+# that $step_to_cut need not be there.
+awk_lines='
+    NR > nlines || ($1 ~ /^[0-9]+$/ && $1+0 >= step) {exit}
+    {print}'
+
+# xyz: the line with the step number comes after the one with natoms
+awk_xyz='
+    NR > nlines {exit}
+    /^ *i *=/ {split($0, aa, /[=,]/); if (aa[2]+0 >= step) {exit}}
+    NR > 1 {print last}
+    {last = $0; have = 1}
+    END {if (have && last !~ /^ *[0-9]+ *$/) print last}'
+
 cmdline=$(getopt -o hs -- "$@")
 eval set -- "$cmdline"
 while [ $# -gt 0 ]; do
@@ -97,9 +138,9 @@ file_vel=$dr/PROJECT-vel-1.xyz
 if [ $# -eq 2 ]; then
     step_to_cut=$2
 elif [ $# -eq 1 ]; then
-    [ -f $file_restart ] || err "$file_restart not found, cannot determine step_to_cut"
+    [ -f "$file_restart" ] || err "$file_restart not found, cannot determine step_to_cut"
     # last restart file written at step N
-    last_step=$(awk '/STEP_START_VAL/ {print $2}' $file_restart | tr -d ' ')
+    last_step=$(awk '/STEP_START_VAL/ {print $2}' < "$file_restart" | tr -d ' ')
     # cut all steps N+1 ... end, restart run starts with step N+1
     step_to_cut=$(echo "$last_step + 1" | bc)
 else
@@ -109,25 +150,12 @@ fi
 echo "dir   =   $dr"
 echo "step  =   $step_to_cut"
 
-for fn in $file_cell $file_ener $file_stress; do
-    if [ -f $fn ]; then
-        cmd="sed -i.$bakname -re '/^\s+$step_to_cut\s+/,\$d' $fn"
-        echo $fn
-        $simulate && echo "    $cmd" || eval $cmd
-    fi
-done
+[[ "$step_to_cut" =~ ^[0-9]+$ ]] || err "step is not a number: '$step_to_cut'"
 
-natoms=$(head -n1 $file_pos | tr -d ' ')
-for fn in $file_frc $file_pos $file_vel; do
-    if [ -f $fn ]; then
-        # Cut file, then delete last line, but only if it really contains only
-        # one integer = $natoms.
-        cmd="sed -i.$bakname -re '/i =\s+$step_to_cut,\s+/,\$d' $fn; \
-             if tail -n1 $fn | egrep -q '[ ]+$natoms[ ]*\$'; then \
-                 sed -i -re '\$d' $fn; \
-             fi"
-        echo $fn
-        $simulate && echo "    $cmd" || eval $cmd
-    fi
+for fn in "$file_cell" "$file_ener" "$file_stress"; do
+    cut_file "$fn" "$awk_lines"
 done
 
+for fn in "$file_frc" "$file_pos" "$file_vel"; do
+    cut_file "$fn" "$awk_xyz"
+done
diff --git a/bin/cut-cpmd.sh b/bin/cut-cpmd.sh
index c3ac7ac..945c130 100755
--- a/bin/cut-cpmd.sh
+++ b/bin/cut-cpmd.sh
@@ -1,8 +1,7 @@
 #!/bin/bash
 
-prog=$(basename $0)
+prog=$(basename "$0")
 simulate=false
-sed_opts="-r -e"
 inplace=true
 bakname=bak
 
@@ -28,7 +27,7 @@ $prog [-hs] <dir> <step>
 options:
 --------
 -s : simulate
---not-inplace : don't use ``sed -i.$bakname ...``, use if YKWYAD
+--not-inplace : write the cut files to stdout, don't change them
 
 example
 -------
@@ -83,29 +82,68 @@ dr=$1
 [ -d "$dr" ] || err "not a dir: $dr"
 step=$2
 
-while read conf; do
-    fn=$(echo "$conf" | awk -F '@@' '{print $1}')
-    sedstr=$(echo "$conf" | awk -F '@@' '{print $2}')
-    _bakname=$(echo "$conf" | awk -F '@@' '{print $3}')
-    [ -n "$_bakname" ] && bakname=$_bakname
-    if $inplace; then
-        cmd="sed -i.$bakname $sed_opts '$sedstr' $fn"
-    else
-        cmd="sed $sed_opts '$sedstr' $fn"
-    fi
-    if [ -f $fn ]; then
-        echo ">> $fn <<"
-        echo "  $cmd"
-        $simulate || eval $cmd
-    else
+[[ "$step" =~ ^[0-9]+$ ]] || err "step is not a number: '$step'"
+
+# Cut file $1 with awk program $2. Variables: step = number of the first time
+# step to remove, nlines = number of complete lines. The last line is not
+# complete if the job was killed while writing it. Files where there is nothing
+# to cut are left alone.
+cut_file(){
+    local fn=$1 tmp=$1.cut-tmp nlines
+    if ! [ -f "$fn" ]; then
         msg "not found: $fn"
+        return 0
     fi
-done << EOF
-$dr/CELL@@/.*CELL PARAMETERS.*Step.*$step.*/,$ d
-$dr/ENERGIES@@/^\\\s+$step\\\s.*/,$ d
-$dr/STRESS@@/.*TOTAL STRESS.*Step.*$step.*/,$ d
-$dr/TRAJECTORY@@/^\\\s+$step\\\s.*/,$ d
-$dr/FTRAJECTORY@@/^\\\s+$step\\\s.*/,$ d
-$dr/TRAJEC.xyz@@/^\\\s+STEP:\\\s+$step.*/,$ d
-$dr/TRAJEC.xyz@@$,$ d@@bak2
-EOF
+    echo ">> $fn <<"
+    $simulate && return 0
+    if ! $inplace; then
+        nlines=$(wc -l < "$fn") && awk -v step=$step -v nlines=$nlines "$2" < "$fn" \
+            || err "cannot cut $fn"
+        return 0
+    fi
+    nlines=$(wc -l < "$fn") && awk -v step=$step -v nlines=$nlines "$2" < "$fn" > "$tmp" \
+        || { rm -f -- "$tmp"; err "cannot cut $fn"; }
+    cmp -s -- "$fn" "$tmp"
+    case $? in
+        0)
+            rm -f -- "$tmp" || err "cannot remove $tmp"
+            ;;
+        1)
+            chmod --reference="$fn" -- "$tmp" && ln -f -- "$fn" "$fn.$bakname" \
+                && mv -f -- "$tmp" "$fn" || { rm -f -- "$tmp"; err "cannot cut $fn"; }
+            ;;
+        *)
+            rm -f -- "$tmp"
+            err "cannot cut $fn"
+            ;;
+    esac
+}
+
+# Note that files can be written every n-th step only, such that $step need not
+# be there.
+#
+# header line with step number, then the data
+awk_block='
+    NR > nlines {exit}
+    /Step:/ {split($0, aa, /Step:/); if (aa[2]+0 >= step) {exit}}
+    {print}'
+
+# step number in each line
+awk_lines='
+    NR > nlines || ($1 ~ /^[0-9]+$/ && $1+0 >= step) {exit}
+    {print}'
+
+# xyz: the line with the step number comes after the one with natoms
+awk_xyz='
+    NR > nlines {exit}
+    /STEP:/ {split($0, aa, /STEP:/); if (aa[2]+0 >= step) {exit}}
+    NR > 1 {print last}
+    {last = $0; have = 1}
+    END {if (have && last !~ /^ *[0-9]+ *$/) print last}'
+
+cut_file "$dr/CELL"        "$awk_block"
+cut_file "$dr/ENERGIES"    "$awk_lines"
+cut_file "$dr/STRESS"      "$awk_block"
+cut_file "$dr/TRAJECTORY"  "$awk_lines"
+cut_file "$dr/FTRAJECTORY" "$awk_lines"
+cut_file "$dr/TRAJEC.xyz"  "$awk_xyz"
-- 
2.43.0


From 69ff5eff77c68772080c8ab1cce73d2567e7fb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 32/75] fix: parsers: file names with '=' were taken as
 variable assignment by awk

---
 src/pwtools/parse.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 4964413..b4544d2 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -715,7 +715,7 @@ class PwSCFOutputFile(StructureFileParser):
             #
             # First col: number of the block (= step) to which the line belongs.
             cmd = "%s '/Forces[ ]+acting[ ]+on[ ]+atoms/{n++} \
-                   /atom.*type.*force/{print n+0,$7,$8,$9}' %s" %(AWK, self.filename)
+                   /atom.*type.*force/{print n+0,$7,$8,$9}' < %s" %(AWK, self.filename)
             arr2d = arr2d_from_txt(com.backtick(cmd))
             if arr2d is not None:
                 nlines = np.unique(arr2d[:,0], return_counts=True)[1]
@@ -1034,7 +1034,7 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
         if arr is not None:
             if self.check_set_attr('_coords'):
                 nstep = self._coords.shape[self.timeaxis]
-                cmd = r"%s '/ATOMIC_POSITIONS/{n++} /%s/{print n+0}' %s" \
+                cmd = r"%s '/ATOMIC_POSITIONS/{n++} /%s/{print n+0}' < %s" \
                     %(AWK, key, self.filename)
                 first = {}
                 for ii,step in enumerate(com.backtick(cmd).split()):
@@ -1617,7 +1617,7 @@ class CpmdMDOutputFile(TrajectoryFileParser, CpmdSCFOutputFile):
             nstep = int(nstep)
             # natoms is the number of lines in GEOMETRY, which may be incomplete.
             cmd = "%s '/<<<</{if (n) exit; next} n && $1 != nfi {exit} \
-                   {nfi=$1; n++} END{print n+0}' %s" %(AWK, fn)
+                   {nfi=$1; n++} END{print n+0}' < %s" %(AWK, fn)
             natoms_first = int_from_txt(com.backtick(cmd))
             assert natoms_first == self.natoms, ("%s: first step in %s has %s "
                 "lines, but natoms=%s" %(str(self.__class__), fn, natoms_first,
@@ -1919,7 +1919,7 @@ class Cp2kMDOutputFile(TrajectoryFileParser, Cp2kSCFOutputFile):
         nstep = nstep_from_txt(com.backtick(cmd))
         natoms = int_from_txt(com.backtick("head -n1 %s" %fn))
         cmd = "%s '!/i =.*E =|^[ ]+[0-9]+/ \
-            {print $2\" \"$3\" \"$4}' %s" %(AWK, fn)
+            {print $2\" \"$3\" \"$4}' < %s" %(AWK, fn)
         assert self.timeaxis == 0
         return np.fromstring(common.backtick(cmd), sep=' ').reshape(nstep,natoms,3)
 
@@ -2058,7 +2058,7 @@ class Cp2kRelaxOutputFile(Cp2kMDOutputFile):
 
     def get_etot(self):
         if os.path.exists(self._pos_file):
-            cmd = r"%s '/i =.*E/ {print $6}' %s" %(AWK, self._pos_file)
+            cmd = r"%s '/i =.*E/ {print $6}' < %s" %(AWK, self._pos_file)
             return arr1d_from_txt(com.backtick(cmd))
         else:
             return None
-- 
2.43.0


From 1bb58c279b17ac6e4b478262a2350826abe944af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 33/75] fix: Trajectory: nested and abandoned iterations
 skipped steps

---
 src/pwtools/crys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index b035093..c8321c5 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2933,7 +2933,9 @@ class Trajectory(Structure):
         super(Trajectory, self).__init__(*args, **kwds)
 
     def __iter__(self):
-        return self
+        # Each loop has its own iterator: nested loops, loops left by break or
+        # an exception, loops in several threads.
+        return (self[idx] for idx in range(self.nstep))
 
     def __getitem__(self, idx):
         want_traj = False
-- 
2.43.0


From 6fc007119c6234d68f42a2d552cfc4edad970f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 34/75] fix: concatenate: arrays not present in all items were
 taken from the first one

---
 src/pwtools/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index c8321c5..dcb69ad 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -3090,7 +3090,7 @@ def concatenate(lst):
                               axis=0)
         setattr(traj, name, attr)
     attrs_traj = traj.attrs_nstep + traj.attrs_only_traj
-    for name in set.symmetric_difference(com_attrs, set(attrs_traj)):
+    for name in set.difference(com_attrs, set(attrs_traj)):
         setattr(traj, name, getattr(trlst[0], name))
     traj.timestep = None
     traj.time = None
-- 
2.43.0


From 7235f5483d51a4fc5a57499435251901fc741fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 35/75] fix: distances_traj: stack overflow (segfault) for more
 than a few hundred atoms

---
 src/_ext_src/flib.f90 | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/_ext_src/flib.f90 b/src/_ext_src/flib.f90
index 5d92032..7ab61e6 100644
--- a/src/_ext_src/flib.f90
+++ b/src/_ext_src/flib.f90
@@ -497,8 +497,7 @@ subroutine distances_traj(coords_frac, cell, pbc, natoms, nstep, dists)
     integer :: natoms, pbc, istep, nstep
     double precision, intent(in) :: coords_frac(nstep,natoms,3), cell(nstep,3,3)
     double precision, intent(out) :: dists(nstep,natoms,natoms)
-    double precision :: distsq(natoms,natoms), distvecs_frac(natoms, natoms, 3), &
-                        distvecs(natoms, natoms, 3)
+    double precision, allocatable :: distsq(:,:), distvecs_frac(:,:,:), distvecs(:,:,:)
 
 #ifdef __OPENMP
     !f2py threadsafe
@@ -507,7 +506,13 @@ subroutine distances_traj(coords_frac, cell, pbc, natoms, nstep, dists)
     !f2py intent(in,out,overwrite) dists
 
     ! Without these private(...) statements the routine produces wrong results.
+    !
+    ! Allocate them on the heap. Private automatic arrays are placed on the stack
+    ! of each thread, which is too small if there are more than a few hundred
+    ! atoms.
     !$omp parallel private(distvecs_frac, distvecs, distsq)
+    allocate(distsq(natoms,natoms), distvecs_frac(natoms,natoms,3), &
+             distvecs(natoms,natoms,3))
     !$omp do
     do istep=1,nstep
         call distsq_frac(coords_frac(istep,:,:), &
@@ -516,6 +521,7 @@ subroutine distances_traj(coords_frac, cell, pbc, natoms, nstep, dists)
         dists(istep,:,:) = sqrt(distsq)
     end do
     !$omp end do
+    deallocate(distsq, distvecs_frac, distvecs)
     !$omp end parallel
 end subroutine distances_traj
 
-- 
2.43.0


From a61fa8906ac3d1f89fd9d3da3dad837f42815401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 36/75] fix: slices of trajectories changed the timestep of the
 original if it is an array

---
 src/pwtools/crys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index dcb69ad..28f19c8 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2972,7 +2972,8 @@ class Trajectory(Structure):
         if want_traj:
             obj.nstep = obj.get_nstep()
             if obj.is_set_attr('timestep'):
-                obj.timestep *= timestep_fac
+                # no *=, timestep may be an array, which is not copied above
+                obj.timestep = obj.timestep * timestep_fac
         return obj
 
     def __next__(self):
-- 
2.43.0


From 5989f14596e7f903e27511a8784b88609a339f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 37/75] fix: fvacf failed for OMP_NUM_THREADS='4,2' (nested
 levels) or empty

---
 src/pwtools/pydos.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/pydos.py b/src/pwtools/pydos.py
index a137533..f4bf4d9 100644
--- a/src/pwtools/pydos.py
+++ b/src/pwtools/pydos.py
@@ -159,8 +159,10 @@ def fvacf(vel, m=None, method=2, nthreads=None):
         # OMP_NUM_THREADS here and set number of threads using the "nthreads"
         # arg.
         key = 'OMP_NUM_THREADS'
-        if key in os.environ:
-            nthreads = int(os.environ[key])
+        # Possibly one number per nesting level ("4,2") or empty.
+        val = os.environ.get(key, '').split(',')[0].strip()
+        if val != '':
+            nthreads = int(val)
             c = _flib.vacf(vel, m, c, method, use_m, nthreads)
         else:
             c = _flib.vacf(vel, m, c, method, use_m)
-- 
2.43.0


From ba8ce6a6444fb2c9cea94682185233d511f01c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 38/75] fix: backtick returned partial output of failed and
 killed commands which print nothing to stderr

---
 src/pwtools/common.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index 5749e84..4c487e9 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -697,14 +697,17 @@ def permit_sigpipe():
     signal.signal(signal.SIGPIPE, signal.SIG_DFL)
 
 
-# XXX The error handling is not safe since we raise the exception only when
-# stderr is not empty w/o checking the retcode. This fails if we do
-# backtick('dhwjqdhwjwqdk 2>/dev/null'). This may have been a design decision
-# in order to deal with flaky shell commands. But we should never use that in
-# tests.
-def backtick(call):
+def backtick(call, okcodes=(0,1)):
     """Convenient shell backtick replacement. Raise exception if stderr is not
-    empty.
+    empty or if the exit code is not in `okcodes`.
+
+    Parameters
+    ----------
+    call : str
+        shell command
+    okcodes : sequence of int
+        Exit codes which are not an error. The default includes 1 since this
+        is what grep and friends return if nothing was found.
 
     Examples
     --------
@@ -717,6 +720,10 @@ def backtick(call):
     if err.strip() != b'':
         raise Exception("Error calling command: '%s'\nError message "
             "follows:\n%s" %(call, err))
+    # also killed by a signal: < 0, or 128 + signal in case of pipes
+    if pp.returncode not in okcodes:
+        raise Exception("Error calling command: '%s'\nexit code: %i"
+            %(call, pp.returncode))
     return out.decode()
 
 #-----------------------------------------------------------------------------
-- 
2.43.0


From 039729e34d941613e00c550cba8285428b8e413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 39/75] fix: ElkEOSFit returned results of an earlier run if
 eos.x failed or fit() was called again

---
 src/pwtools/eos.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/eos.py b/src/pwtools/eos.py
index d9642f8..b3a6a10 100644
--- a/src/pwtools/eos.py
+++ b/src/pwtools/eos.py
@@ -9,7 +9,7 @@ the constructor. Has another API than :class:`EosFit`, e.g. the
 """
 
 import os
-import subprocess, types, warnings
+import shlex, subprocess, types, warnings
 import numpy as np
 from pwtools import common, constants, num
 from pwtools.constants import Ry, Ha, Bohr, Ang, eV, eV_by_Ang3_to_GPa
@@ -349,6 +349,9 @@ class ExternEOS(FlexibleGetters):
             | self.spl_bv : Spline thru B(V)
 
         """
+        # Don't keep results of an earlier call.
+        for name in ['ev', 'pv', 'bv', 'spl_ev', 'spl_pv', 'spl_bv']:
+            setattr(self, name, None)
         self._fit(*args, **kwargs)
         self.bv = self.calc_bv()
         self.try_set_attr('spl_ev')
@@ -558,7 +561,19 @@ class ElkEOSFit(ExternEOS):
              len(volume),
              common.str_arr(data))
         common.file_write(self.infn, infn_txt)
-        out = common.backtick('cd %s && %s' %(self.dir, self.app_basename))
+        # Don't read results of an earlier run in the same dir if the app fails
+        # or doesn't write all files.
+        for name in ['PARAM.OUT', 'EVPAI.OUT', 'PVPAI.OUT']:
+            fn = os.path.join(self.dir, name)
+            if os.path.exists(fn):
+                os.remove(fn)
+        # [/path/to/]eos.x
+        if os.path.dirname(self.app) == '':
+            app = self.app
+        else:
+            app = shlex.quote(os.path.abspath(self.app))
+        out = common.backtick('cd %s && %s' %(shlex.quote(self.dir), app),
+                              okcodes=(0,))
         if self.verbose:
             print(out)
             print((open(os.path.join(self.dir,'PARAM.OUT')).read()))
-- 
2.43.0


From 1580cc6f3bada58b2c290d57e52ac7e15ecf689f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 40/75] fix: VMD g(r): failing VMD gave old or no data, temp
 files and descriptors were left behind

---
 src/pwtools/crys.py | 108 ++++++++++++++++++++++++++++----------------
 1 file changed, 69 insertions(+), 39 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 28f19c8..eebbc3a 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1,4 +1,5 @@
 from math import acos, pi, sin, cos, sqrt
+import os
 import textwrap
 import time
 import tempfile
@@ -1678,38 +1679,64 @@ def call_vmd_measure_gofr(trajfn, dr=None, rmax=None, sel=['all','all'],
     assert fntype == 'xsf', ("only XSF files supported")
     if tmpdir is None:
         tmpdir = '/tmp'
-    if datafn is None:
-        datafn = tempfile.mkstemp(dir=tmpdir, prefix='vmd_data_', text=True)[1]
-    if scriptfn is None:
-        scriptfn = tempfile.mkstemp(dir=tmpdir, prefix='vmd_script_', text=True)[1]
-    if logfn is None:
-        logfn = tempfile.mkstemp(dir=tmpdir, prefix='vmd_log_', text=True)[1]
-    dct = {}
-    dct['trajfn'] = trajfn
-    dct['fntype'] = fntype
-    dct['selstr1'] = sel[0]
-    dct['selstr2'] = sel[1]
-    dct['first'] = first
-    dct['last'] = last
-    dct['step'] = step
-    dct['dr'] = dr
-    dct['rmax'] = rmax
-    dct['usepbc'] = usepbc
-    dct['datafn'] = datafn
-    dct['time'] = time.asctime()
-    for key,val in dct.items():
-        vmd_tcl = vmd_tcl.replace('XXX'+key.upper(), str(val))
-    common.file_write(scriptfn, vmd_tcl)
-    cmd = "vmd -dispdev none -eofexit -e %s " %scriptfn
-    if verbose:
-        cmd += "2>&1 | tee %s" %logfn
-    else:
-        cmd += " > %s 2>&1" %logfn
-    out = common.backtick(cmd).strip()
-    if out != '':
-        print(out)
-    data = np.loadtxt(datafn)
-    return data
+    # auto-generated temp files, removed when done
+    tmpfiles = []
+    try:
+        if datafn is None:
+            datafn = _mktmp('vmd_data_', tmpdir, tmpfiles)
+        elif os.path.exists(datafn):
+            # Don't load the result of an earlier run if VMD fails.
+            os.remove(datafn)
+        if scriptfn is None:
+            scriptfn = _mktmp('vmd_script_', tmpdir, tmpfiles)
+        if logfn is None:
+            logfn = _mktmp('vmd_log_', tmpdir, tmpfiles)
+        dct = {}
+        dct['trajfn'] = trajfn
+        dct['fntype'] = fntype
+        dct['selstr1'] = sel[0]
+        dct['selstr2'] = sel[1]
+        dct['first'] = first
+        dct['last'] = last
+        dct['step'] = step
+        dct['dr'] = dr
+        dct['rmax'] = rmax
+        dct['usepbc'] = usepbc
+        dct['datafn'] = datafn
+        dct['time'] = time.asctime()
+        for key,val in dct.items():
+            vmd_tcl = vmd_tcl.replace('XXX'+key.upper(), str(val))
+        common.file_write(scriptfn, vmd_tcl)
+        cmd = "vmd -dispdev none -eofexit -e %s > %s 2>&1" %(scriptfn, logfn)
+        out, success = '', False
+        try:
+            common.backtick(cmd, okcodes=(0,))
+            success = True
+        finally:
+            if os.path.exists(logfn):
+                with open(logfn, errors='replace') as fh:
+                    out = fh.read().strip()
+            if (verbose or not success) and out != '':
+                print(out)
+        # VMD exits with 0 in case of errors in the script.
+        if os.path.getsize(datafn) == 0:
+            raise Exception("no output from VMD: %s" %out)
+        return np.loadtxt(datafn)
+    finally:
+        _rmtmp(tmpfiles)
+
+
+def _mktmp(prefix, tmpdir, tmpfiles):
+    fd, fn = tempfile.mkstemp(dir=tmpdir, prefix=prefix, text=True)
+    tmpfiles.append(fn)
+    os.close(fd)
+    return fn
+
+
+def _rmtmp(tmpfiles):
+    for fn in tmpfiles:
+        if os.path.exists(fn):
+            os.remove(fn)
 
 
 def vmd_measure_gofr(traj, dr=0.05, rmax='auto', sel=['all','all'], first=0,
@@ -1771,7 +1798,6 @@ def vmd_measure_gofr(traj, dr=0.05, rmax='auto', sel=['all','all'], first=0,
     # actually the bottleneck and makes this function slower.
     if tmpdir is None:
         tmpdir = '/tmp'
-    trajfn = tempfile.mkstemp(dir=tmpdir, prefix='vmd_xsf_', text=True)[1]
     cell = traj.cell[0,...]
     cc = traj.cryst_const[0,...]
     if np.abs(cc[3:] - 90.0).max() > 0.1:
@@ -1792,12 +1818,16 @@ def vmd_measure_gofr(traj, dr=0.05, rmax='auto', sel=['all','all'], first=0,
         step = 1
     else:
         traj2 = traj
-    io.write_axsf(trajfn, traj2)
-    ret = call_vmd_measure_gofr(trajfn, dr=dr, rmax=rmax, sel=sel,
-                                fntype='xsf', first=first,
-                                last=last, step=step, usepbc=usepbc,
-                                verbose=verbose,tmpdir=tmpdir)
-    return ret
+    tmpfiles = []
+    try:
+        trajfn = _mktmp('vmd_xsf_', tmpdir, tmpfiles)
+        io.write_axsf(trajfn, traj2)
+        return call_vmd_measure_gofr(trajfn, dr=dr, rmax=rmax, sel=sel,
+                                     fntype='xsf', first=first,
+                                     last=last, step=step, usepbc=usepbc,
+                                     verbose=verbose,tmpdir=tmpdir)
+    finally:
+        _rmtmp(tmpfiles)
 
 
 def distances(struct, pbc=False, squared=False, fullout=False):
-- 
2.43.0


From 003dbbc8916751fdad09e00dc941ba5d925b70ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 41/75] fix: viewers: leaked descriptors and temp files,
 failures were hidden by disp=True, bg=True raised

---
 src/pwtools/visualize.py | 43 +++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/pwtools/visualize.py b/src/pwtools/visualize.py
index 380bdc5..e41d77c 100644
--- a/src/pwtools/visualize.py
+++ b/src/pwtools/visualize.py
@@ -110,23 +110,34 @@ class ViewFactory:
         if self.assert_cmd is not None:
             self.assert_cmd(obj)
         self._set_dummy_symbols(obj)
-        if structfile is None:
-            fd1,structfile = mkstemp(dir=tmpdir,
-                                     prefix='pwtools_view_struct_',
-                                     suffix=self.suffix)
-
-        if logfile is None:
-            fd2,logfile = mkstemp(dir=tmpdir,
-                                  prefix='pwtools_view_log_')
-        self.writer(structfile, obj)
-        if disp:
-            cmd_str = "%s %s %s 2>&1 | tee %s" %(self.cmd, options, structfile, logfile)
-        else:
+        # files to remove, only auto-generated ones in case of errors
+        files = []
+        try:
+            if structfile is None:
+                fd,structfile = mkstemp(dir=tmpdir,
+                                        prefix='pwtools_view_struct_',
+                                        suffix=self.suffix)
+                files.append(structfile)
+                os.close(fd)
+            if logfile is None:
+                fd,logfile = mkstemp(dir=tmpdir,
+                                     prefix='pwtools_view_log_')
+                files.append(logfile)
+                os.close(fd)
+            self.writer(structfile, obj)
             cmd_str = "%s %s %s > %s 2>&1" %(self.cmd, options, structfile, logfile)
-        common.system(cmd_str, wait=wait)
-        if not keepfiles:
-            os.unlink(structfile)
-            os.unlink(logfile)
+            if disp:
+                # Return the exit code of the viewer.
+                cmd_str += "; ret=$?; cat %s; exit $ret" %logfile
+            if not wait:
+                cmd_str = "{ %s; } &" %cmd_str
+            common.system(cmd_str)
+            files = [structfile, logfile]
+        finally:
+            if not keepfiles:
+                for fn in files:
+                    if os.path.exists(fn):
+                        os.unlink(fn)
 
     def _set_dummy_symbols(self, obj):
         if obj.symbols is None:
-- 
2.43.0


From 9f2d75d21394eb8f11794544b3267490f4494f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 42/75] fix: cell2cc: angles of equal cells differed in the
 last bits depending on memory alignment

---
 src/pwtools/crys.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index eebbc3a..529c11f 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -31,8 +31,10 @@ def angle(x,y):
     x,y : 1d numpy arrays
     """
     # Numpy's `acos' is "acrcos", but we take the one from math for scalar
-    # args.
-    return acos(np.dot(x,y)/norm(x)/norm(y))*180.0/pi
+    # args. Don't use np.dot(), where the last bits may depend on the alignment
+    # of the arrays in memory, such that equal vectors have different angles.
+    dot = lambda a,b: (a*b).sum()
+    return acos(dot(x,y)/sqrt(dot(x,x))/sqrt(dot(y,y)))*180.0/pi
 
 
 #-----------------------------------------------------------------------------
-- 
2.43.0


From 9db7ca11c2858fa0b19e151b55d29f5a2080ef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 43/75] fix: calculators: parameters of one instance became the
 defaults of all others

init_params_from_input() wrote the keywords into the class attribute
default_parameters. Default label and command did not reach ASE, such that
Pwscf() and Lammps() with defaults raised.
---
 src/pwtools/calculators.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 64f4fc2..a0d4c73 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -35,6 +35,7 @@ dropped.
 'path/to/dir'
 """
 
+import copy
 import os
 import shutil
 
@@ -97,15 +98,29 @@ class CalculatorBase:
         """Set ``self.parameters = self.default_parameters`` and update with input
         keyword arguments `kwds`. For each key in self.parameters, set
         ``self.<key> = <value>``."""
+        self._check_keys(kwds)
+        # copy: don't change the class attribute, which is shared between all
+        # instances
+        self.parameters = copy.deepcopy(self.default_parameters)
+        self.parameters.update(kwds)
+        self.__dict__.update(self.parameters)
+
+    def _check_keys(self, kwds):
         allowed_keys = list(self.default_parameters.keys())
-        input_keys = list(kwds.keys())
-        for k in input_keys:
+        for k in kwds:
             if k not in allowed_keys:
                 raise Exception("key '%s' not allowed, only: \n%s" %(k,
                                 str(allowed_keys)))
-        self.parameters = self.default_parameters
-        self.parameters.update(kwds)
-        self.__dict__.update(self.parameters)
+
+    def init_ase(self, kwds):
+        """Call ``FileIOCalculator.__init__`` with the input keywords `kwds`
+        and the defaults which it needs. It sets its own ``self.parameters``,
+        without some of the keys."""
+        params = self.parameters
+        FileIOCalculator.__init__(self, **{**kwds,
+                                           'label': params['label'],
+                                           'command': params['command']})
+        self.parameters.update(params)
 
     def fill_infile_templ(self):
         """Replace all placeholders in ``self.infile_templ``. Use all keys in
@@ -259,7 +274,7 @@ K_POINTS automatic
             :func:`~pwtools.common.backup`
         """
         self.init_params_from_input(kwds)
-        FileIOCalculator.__init__(self, **kwds)
+        self.init_ase(kwds)
 
         # ASE keywords
         if self.smearing is not None:
@@ -386,7 +401,7 @@ run 0
         """
 
         self.init_params_from_input(kwds)
-        FileIOCalculator.__init__(self, **kwds)
+        self.init_ase(kwds)
 
         self.infile_templ_keys = list(self.parameters.keys()) + \
             ['prefix', 'dumpfile', 'structfile']
-- 
2.43.0


From 02ded6c7e1e27eba88d3418f6cb6c02d7e93a2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 44/75] fix: calculators: set() had no effect, changed
 directory gave results of old files

set() changed self.parameters, but the input file is made from the attributes.
Results obtained with the old parameters were kept. The file names were made
once in the constructor, but the program runs in the current self.directory.
---
 src/pwtools/calculators.py | 74 +++++++++++++++++++++++++++++---------
 1 file changed, 58 insertions(+), 16 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index a0d4c73..a3325b3 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -102,7 +102,7 @@ class CalculatorBase:
         # copy: don't change the class attribute, which is shared between all
         # instances
         self.parameters = copy.deepcopy(self.default_parameters)
-        self.parameters.update(kwds)
+        self.parameters.update(self._copy_params(kwds))
         self.__dict__.update(self.parameters)
 
     def _check_keys(self, kwds):
@@ -112,6 +112,11 @@ class CalculatorBase:
                 raise Exception("key '%s' not allowed, only: \n%s" %(k,
                                 str(allowed_keys)))
 
+    def _copy_params(self, kwds):
+        # such that we notice if the caller changes e.g. a list in place
+        return dict((k, v if k == 'atoms' else copy.deepcopy(v)) for k,v in
+                    kwds.items())
+
     def init_ase(self, kwds):
         """Call ``FileIOCalculator.__init__`` with the input keywords `kwds`
         and the defaults which it needs. It sets its own ``self.parameters``,
@@ -122,6 +127,39 @@ class CalculatorBase:
                                            'command': params['command']})
         self.parameters.update(params)
 
+    def set(self, **kwds):
+        """Set parameters, same keywords as in the constructor. Results
+        obtained with other parameters are discarded."""
+        self._check_keys(kwds)
+        changed = FileIOCalculator.set(self, **self._copy_params(kwds))
+        if changed:
+            self.results = {}
+            self.__dict__.update(changed)
+            if 'directory' in changed:
+                self.directory = changed['directory']
+            if 'label' in changed:
+                if '/' in changed['label']:
+                    self.label = changed['label']
+                else:
+                    self.prefix = changed['label']
+            if 'command' in changed:
+                self.command = changed['command']
+            self.init_params()
+        return changed
+
+    def init_params(self):
+        """Check ``self.parameters`` and set attributes derived from them."""
+        pass
+
+    @property
+    def infile(self):
+        # hard-coded <label>.(in|out) == <directory>/<prefix>.(in|out)
+        return os.path.join(self.directory, self.prefix + '.in')
+
+    @property
+    def outfile(self):
+        return os.path.join(self.directory, self.prefix + '.out')
+
     def fill_infile_templ(self):
         """Replace all placeholders in ``self.infile_templ``. Use all keys in
         ``self.infile_templ_keys`` as possible placeholders."""
@@ -129,7 +167,7 @@ class CalculatorBase:
                                         in self.infile_templ_keys))
 
 
-class Pwscf(FileIOCalculator, CalculatorBase):
+class Pwscf(CalculatorBase, FileIOCalculator):
     """Pwscf (pw.x) calculator.
 
     ATM, we don't write a ``ase.calculators.calculator.Parameters`` class
@@ -275,21 +313,19 @@ K_POINTS automatic
         """
         self.init_params_from_input(kwds)
         self.init_ase(kwds)
+        self.init_params()
+        self.infile_templ_keys = list(self.parameters.keys()) + \
+            ['natoms', 'ntyp', 'atpos', 'atspec', 'cell', 'kpoints']
 
+    def init_params(self):
         # ASE keywords
         if self.smearing is not None:
             raise NotImplementedError("smearing not implemented")
         if self.xc is not None:
             raise Exception("please use the `pp` keyword instead of `xc`")
 
-        self.ecutrho = 4.0*self.ecutwfc if self.ecutrho is None else self.ecutrho
-
-        # hard-coded <label>.(in|out) == <directory>/<prefix>.(in|out)
-        self.infile = os.path.join(self.directory, self.prefix + '.in')
-        self.outfile = os.path.join(self.directory, self.prefix + '.out')
-
-        self.infile_templ_keys = list(self.parameters.keys()) + \
-            ['natoms', 'ntyp', 'atpos', 'atspec', 'cell', 'kpoints']
+        if self.parameters['ecutrho'] is None:
+            self.ecutrho = 4.0*self.ecutwfc
 
         assert self.pp is not None, "set pp"
         assert self.pseudo_dir is not None, "set pseudo_dir"
@@ -336,7 +372,7 @@ K_POINTS automatic
         self.results['stress'] = stress_pwtools2ase(st.stress)
 
 
-class Lammps(FileIOCalculator, CalculatorBase):
+class Lammps(CalculatorBase, FileIOCalculator):
     """
     LAMMPS calculator.
 
@@ -405,12 +441,18 @@ run 0
 
         self.infile_templ_keys = list(self.parameters.keys()) + \
             ['prefix', 'dumpfile', 'structfile']
-        self.infile = os.path.join(self.directory, self.prefix + '.in')
-        self.outfile = os.path.join(self.directory, self.prefix + '.out')
-        self.dumpfile = os.path.join(self.directory, self.prefix + '.out.dump')
-        self.structfile = os.path.join(self.directory, self.prefix + '.struct')
-        self.logfile = os.path.join(self.directory, 'log.lammps')
 
+    @property
+    def dumpfile(self):
+        return os.path.join(self.directory, self.prefix + '.out.dump')
+
+    @property
+    def structfile(self):
+        return os.path.join(self.directory, self.prefix + '.struct')
+
+    @property
+    def logfile(self):
+        return os.path.join(self.directory, 'log.lammps')
 
     def write_input(self, atoms, properties=None, system_changes=None):
         FileIOCalculator.write_input(self, atoms, properties,
-- 
2.43.0


From 1f9989a2c154ce99efc66239a018da51765a671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 45/75] fix: parse: lammps thermo header with leading spaces
 was not found

---
 src/pwtools/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index b4544d2..cc1931e 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -2331,7 +2331,7 @@ class LammpsTextMDOutputFile(TrajectoryFileParser):
             # Strip all text except for the data columns. Also works for
             # multiple ``run`` or ``minimize`` commands in one input file,
             # which cause wildly mixed text.
-            cmd = r"sed -nre '/^Step/,/^Loop/p' %s | \
+            cmd = r"sed -nre '/^[ ]*Step/,/^Loop/p' %s | \
                     egrep -v 'Step|Loop'" %self.filename
             arr = arr2d_from_txt(com.backtick(cmd))
             return dict((x, arr[:,ii]) for ii,x in enumerate(header))
-- 
2.43.0


From 8b9ff7be7977e9e35b63c7ba353afe0d74fe5a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 46/75] fix: calculators: results of old files after failed
 runs, lammps forces in wrong frame

Old output files of an earlier run, possibly of another calculator, were read
if the program failed but its exit code was hidden (default pw.x command pipes
into tee, mpirun). Partial output gave None as result. The default commands
used fixed file names regardless of the label. Lammps: forces and stress were
those of the rotated cell which lammps works with, with another label than
'lmp' the dump file of another calculator was read, relative directory names
were prepended twice.
---
 src/pwtools/calculators.py | 89 ++++++++++++++++++++++++++++----------
 1 file changed, 65 insertions(+), 24 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index a3325b3..539bcd7 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -39,7 +39,9 @@ import copy
 import os
 import shutil
 
-from pwtools import common, pwscf, crys, io, constants
+import numpy as np
+
+from pwtools import common, pwscf, crys, io, constants, parse
 
 
 # silently fail at immport if ase is missing b/c it is not a dependency, fail
@@ -160,6 +162,31 @@ class CalculatorBase:
     def outfile(self):
         return os.path.join(self.directory, self.prefix + '.out')
 
+    def prepare_files(self, infiles, outfiles):
+        """Backup old files if ``self.backup``. Remove old output files, else
+        we read them again if the program fails to write new ones."""
+        if self.backup:
+            for fn in infiles + outfiles:
+                if os.path.exists(fn):
+                    common.backup(fn)
+        for fn in outfiles:
+            if os.path.lexists(fn):
+                os.remove(fn)
+
+    def set_results(self, st):
+        """Set ``self.results`` from Structure `st`. Raise an error if
+        something is missing in the output files."""
+        natoms = len(self.atoms)
+        for name, shape in [('etot', ()), ('forces', (natoms,3)),
+                            ('stress', (3,3))]:
+            val = getattr(st, name)
+            if val is None or np.shape(val) != shape or \
+               not np.isfinite(val).all():
+                raise Exception("%s: no valid '%s' found" %(self.outfile, name))
+        self.results = {'energy': float(st.etot),
+                        'forces': st.forces,
+                        'stress': stress_pwtools2ase(st.stress)}
+
     def fill_infile_templ(self):
         """Replace all placeholders in ``self.infile_templ``. Use all keys in
         ``self.infile_templ_keys`` as possible placeholders."""
@@ -229,7 +256,7 @@ class Pwscf(CalculatorBase, FileIOCalculator):
         pseudo_dir=None,
         smearing=None,
         xc=None,
-        command="pw.x -input pw.in | tee pw.out",
+        command="pw.x -input PREFIX.in | tee PREFIX.out",
         directory='.',
         )
 
@@ -357,19 +384,17 @@ K_POINTS automatic
         self.natoms = struct.natoms
         self.ntyp = struct.ntypat
 
-        if self.backup:
-            for fn in [self.infile, self.outfile]:
-                if os.path.exists(fn):
-                    common.backup(fn)
+        self.prepare_files([self.infile], [self.outfile])
         common.file_write(self.infile, self.fill_infile_templ())
 
     def read_results(self):
         self.results = {}
         assert os.path.exists(self.outfile), "%s missing" %self.outfile
-        st = io.read_pw_scf(self.outfile)
-        self.results['energy'] = st.etot
-        self.results['forces'] = st.forces
-        self.results['stress'] = stress_pwtools2ase(st.stress)
+        # The exit code of `command` may be that of another program (mpirun,
+        # tee).
+        assert 'JOB DONE' in common.file_read(self.outfile), \
+            "%s: pw.x did not finish" %self.outfile
+        self.set_results(io.read_pw_scf(self.outfile))
 
 
 class Lammps(CalculatorBase, FileIOCalculator):
@@ -402,7 +427,7 @@ class Lammps(CalculatorBase, FileIOCalculator):
         pair_coeff='* * ./AlN.tersoff Al N',
         pair_style='tersoff',
         backup=False,
-        command=f"lmp < lmp.in > lmp.out",  # also writes 'log.lammps'
+        command="lmp < PREFIX.in > PREFIX.out",  # also writes 'log.lammps'
         directory='.',
         )
     implemented_properties = ['energy', 'forces', 'stress']
@@ -414,14 +439,14 @@ boundary p p p
 atom_style atomic
 
 # lmp.struct written by pwtools
-read_data {structfile}
+read_data {prefix}.struct
 
 # interactions
 pair_style {pair_style}
 pair_coeff {pair_coeff}
 
 # IO
-dump dump_txt all custom 1 {dumpfile} id type xu yu zu fx fy fz
+dump dump_txt all custom 1 {prefix}.out.dump id type xu yu zu fx fy fz
 dump_modify dump_txt sort id
 
 thermo_style custom step temp vol cella cellb cellc cellalpha cellbeta cellgamma &
@@ -450,6 +475,10 @@ run 0
     def structfile(self):
         return os.path.join(self.directory, self.prefix + '.struct')
 
+    @property
+    def symbolsfile(self):
+        return self.structfile + '.symbols'
+
     @property
     def logfile(self):
         return os.path.join(self.directory, 'log.lammps')
@@ -457,21 +486,33 @@ run 0
     def write_input(self, atoms, properties=None, system_changes=None):
         FileIOCalculator.write_input(self, atoms, properties,
                                      system_changes)
-        if self.backup:
-            for fn in [self.infile, self.outfile, self.dumpfile,
-                       self.structfile, self.logfile]:
-                if os.path.exists(fn):
-                    common.backup(fn)
+        self.prepare_files([self.infile, self.structfile],
+                           [self.outfile, self.dumpfile, self.logfile])
         common.file_write(self.infile, self.fill_infile_templ())
         io.write_lammps(self.structfile,
                         crys.atoms2struct(atoms),
-                        symbolsbasename=os.path.basename(self.structfile) +
-                            '.symbols')
+                        symbolsbasename=os.path.basename(self.symbolsfile))
 
     def read_results(self):
         self.results = {}
         assert os.path.exists(self.outfile), "%s missing" %self.outfile
-        st = io.read_lammps_md_txt(self.outfile)[0]
-        self.results['energy'] = st.etot
-        self.results['forces'] = st.forces
-        self.results['stress'] = stress_pwtools2ase(st.stress)
+        # The exit code of `command` may be that of another program (mpirun,
+        # tee).
+        assert 'Loop time' in common.file_read(self.outfile), \
+            "%s: lammps did not finish" %self.outfile
+        assert common.file_read(self.dumpfile).endswith('\n'), \
+            "%s: incomplete" %self.dumpfile
+        pp = parse.LammpsTextMDOutputFile(self.outfile)
+        # other defaults than <prefix>.* there
+        pp.dumpfilename = self.dumpfile
+        pp.symbolsfilename = self.symbolsfile
+        st = pp.get_traj()[0]
+        # lammps needs a cell which is aligned in a special way, see
+        # lammps.struct_str(). Rotate vectors and tensors back.
+        cell = np.array(self.atoms.get_cell())
+        rot = np.linalg.solve(crys.cc2cell(crys.cell2cc(cell)), cell)
+        if st.forces is not None:
+            st.forces = np.dot(st.forces, rot)
+        if st.stress is not None:
+            st.stress = np.dot(np.dot(rot.T, st.stress), rot)
+        self.set_results(st)
-- 
2.43.0


From 1a185bcab1072851d6cc36768639b9afc60ef563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 47/75] fix: Pwscf: charge was ignored, wrong pseudopotential
 for symbols which start alike

tuple for kpts raised.
---
 src/pwtools/calculators.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 539bcd7..95836d3 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -41,7 +41,7 @@ import shutil
 
 import numpy as np
 
-from pwtools import common, pwscf, crys, io, constants, parse
+from pwtools import common, pwscf, crys, io, constants, parse, atomic_data
 
 
 # silently fail at immport if ase is missing b/c it is not a dependency, fail
@@ -280,6 +280,7 @@ class Pwscf(CalculatorBase, FileIOCalculator):
     ecutwfc = {ecutwfc},
     ecutrho = {ecutrho},
     nosym = .false.
+    tot_charge = {charge}
 /
     occupations = 'smearing'
     smearing = 'mv',
@@ -299,7 +300,7 @@ CELL_PARAMETERS angstrom
 ATOMIC_POSITIONS crystal
 {atpos}
 K_POINTS automatic
-{kpoints} 0 0 0
+{kpoints}
     """
 
     def __init__(self, **kwds):
@@ -364,17 +365,17 @@ K_POINTS automatic
                                      system_changes)
         struct = crys.atoms2struct(atoms)
         self.cell = common.str_arr(struct.cell)
-        self.kpoints = pwscf.kpoints_str_pwin(kpts2mp(atoms, self.kpts))
+        self.kpoints = pwscf.kpoints_str_pwin(list(kpts2mp(atoms, self.kpts)))
         if isinstance(self.pp, str):
             pseudos = ["%s.%s" %(sym, self.pp) for sym in struct.symbols_unique]
         else:
             assert len(self.pp) == struct.ntypat
-            pseudos = []
-            for sym in struct.symbols_unique:
-                for ppi in self.pp:
-                    if ppi.startswith(sym):
-                        pseudos.append(ppi)
-                        break
+            # 'Na.foo.UPF' is for 'Na', not for 'N'
+            dct = {}
+            for ppi in self.pp:
+                sym = ppi[:2] if ppi[:2] in atomic_data.pt else ppi[:1]
+                dct.setdefault(sym, ppi)
+            pseudos = [dct[sym] for sym in struct.symbols_unique if sym in dct]
         assert len(pseudos) == struct.ntypat
         self.atspec = pwscf.atspec_str(symbols=struct.symbols_unique,
                                        masses=struct.mass_unique,
-- 
2.43.0


From 1e097d89d561ac69697202250a12b006b6524469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 48/75] fix: backtick: a killed command in a pipe gave partial
 output without error

The shell reports only the exit code of the last command.
---
 src/pwtools/common.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index 4c487e9..6ad95b1 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -697,9 +697,22 @@ def permit_sigpipe():
     signal.signal(signal.SIGPIPE, signal.SIG_DFL)
 
 
+# The shell reports only the exit code of the last command in a pipe. Use that
+# of a failed or killed (128 + signal) command before it instead. 141: SIGPIPE,
+# that is OK, the next command (e.g. "grep -m1") had enough.
+_PIPESTATUS = r'''
+__st=("${PIPESTATUS[@]}"); __n=$((${#__st[@]}-1))
+for ((__i=0; __i<__n; __i++)); do
+    case ${__st[$__i]} in 0|1|141) ;; *) exit ${__st[$__i]};; esac
+done
+exit ${__st[$__n]}
+'''
+
+
 def backtick(call, okcodes=(0,1)):
     """Convenient shell backtick replacement. Raise exception if stderr is not
-    empty or if the exit code is not in `okcodes`.
+    empty or if the exit code is not in `okcodes`. If bash is available, then
+    this applies to all commands in a pipe, else only to the last one.
 
     Parameters
     ----------
@@ -713,7 +726,9 @@ def backtick(call, okcodes=(0,1)):
     --------
     >>> print(backtick('ls -l'))
     """
-    pp = subprocess.Popen(call, shell=True,
+    bash = shutil.which('bash')
+    pp = subprocess.Popen(call if bash is None else call + _PIPESTATUS,
+            shell=True, executable=bash,
             stdout=subprocess.PIPE, stderr=subprocess.PIPE,
             preexec_fn=permit_sigpipe)
     out,err = pp.communicate()
-- 
2.43.0


From d30b4288fb407e5dfcf3b11fda6657587fc9d090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:55 +0000
Subject: [PATCH 49/75] fix: ElkEOSFit: incomplete output of eos.x was used

---
 src/pwtools/eos.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/eos.py b/src/pwtools/eos.py
index b3a6a10..5dac1ec 100644
--- a/src/pwtools/eos.py
+++ b/src/pwtools/eos.py
@@ -584,7 +584,9 @@ class ElkEOSFit(ExternEOS):
         # convert energy back to [Ang^3, eV]
         fitev[:,0] *= (Bohr**3 / Ang**3)
         fitev[:,1] *= (Ha / eV)
-        self.ev = fitev
         fitpv = np.loadtxt(os.path.join(self.dir,'PVPAI.OUT'))
+        assert fitev.shape == fitpv.shape == (self.npoints,2), \
+            "EVPAI.OUT or PVPAI.OUT incomplete"
         fitpv[:,0] *= (self.natoms * Bohr**3 / Ang**3)
+        self.ev = fitev
         self.pv = fitpv
-- 
2.43.0


From c89f4184df03b92e7095ff985dcf6a0d9db02fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:12 +0000
Subject: [PATCH 50/75] fix: VMD g(r): data file cut by an error in VMD was
 used; viewers: quote file names

VMD exits with 0 if the script fails halfway, for example if writing the data
file fails. The incomplete file was read and returned. File names with spaces
ended up as several arguments, or redirected the log to another file.
---
 src/pwtools/crys.py      | 18 +++++++++++++-----
 src/pwtools/visualize.py | 11 +++++++----
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 529c11f..6562943 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1,5 +1,6 @@
 from math import acos, pi, sin, cos, sqrt
 import os
+import shlex
 import textwrap
 import time
 import tempfile
@@ -1646,7 +1647,7 @@ def call_vmd_measure_gofr(trajfn, dr=None, rmax=None, sel=['all','all'],
     # [Ang]
 
     # Load molecule file with MD trajectory. Typically, foo.axsf with type=xsf
-    mol new XXXTRAJFN type XXXFNTYPE  waitfor all
+    mol new {XXXTRAJFN} type XXXFNTYPE  waitfor all
 
     # "top" is the current top molecule (the one labeled with "T" in the GUI).
     set molid top
@@ -1673,6 +1674,9 @@ def call_vmd_measure_gofr(trajfn, dr=None, rmax=None, sel=['all','all'],
     foreach r $rad h $hist i $num_int {
         puts $fp "$r $h $i"
     }
+    # Written only if nothing went wrong before. VMD's exit code is always 0.
+    puts $fp "# complete"
+    close $fp
     quit
     """)
     # Skip test if cell is orthogonal, VMD will complain anyway if it isn't
@@ -1709,7 +1713,8 @@ def call_vmd_measure_gofr(trajfn, dr=None, rmax=None, sel=['all','all'],
         for key,val in dct.items():
             vmd_tcl = vmd_tcl.replace('XXX'+key.upper(), str(val))
         common.file_write(scriptfn, vmd_tcl)
-        cmd = "vmd -dispdev none -eofexit -e %s > %s 2>&1" %(scriptfn, logfn)
+        cmd = "vmd -dispdev none -eofexit -e %s > %s 2>&1" %(
+            shlex.quote(scriptfn), shlex.quote(logfn))
         out, success = '', False
         try:
             common.backtick(cmd, okcodes=(0,))
@@ -1721,9 +1726,12 @@ def call_vmd_measure_gofr(trajfn, dr=None, rmax=None, sel=['all','all'],
             if (verbose or not success) and out != '':
                 print(out)
         # VMD exits with 0 in case of errors in the script.
-        if os.path.getsize(datafn) == 0:
-            raise Exception("no output from VMD: %s" %out)
-        return np.loadtxt(datafn)
+        txt = common.file_read(datafn)
+        if not txt.endswith('# complete\n'):
+            raise Exception("no or incomplete output from VMD: %s" %out)
+        arr = np.loadtxt(txt.splitlines(), ndmin=2)
+        assert arr.shape[1] == 3, "no data from VMD: %s" %out
+        return arr
     finally:
         _rmtmp(tmpfiles)
 
diff --git a/src/pwtools/visualize.py b/src/pwtools/visualize.py
index e41d77c..1ede856 100644
--- a/src/pwtools/visualize.py
+++ b/src/pwtools/visualize.py
@@ -35,6 +35,7 @@ command. Or you place these lines in a script and use::
 
 from tempfile import mkstemp
 import os
+import shlex
 from pwtools import io, common
 
 
@@ -125,10 +126,12 @@ class ViewFactory:
                 files.append(logfile)
                 os.close(fd)
             self.writer(structfile, obj)
-            cmd_str = "%s %s %s > %s 2>&1" %(self.cmd, options, structfile, logfile)
+            cmd_str = "%s %s %s > %s 2>&1" %(self.cmd, options,
+                                             shlex.quote(structfile),
+                                             shlex.quote(logfile))
             if disp:
                 # Return the exit code of the viewer.
-                cmd_str += "; ret=$?; cat %s; exit $ret" %logfile
+                cmd_str += "; ret=$?; cat %s; exit $ret" %shlex.quote(logfile)
             if not wait:
                 cmd_str = "{ %s; } &" %cmd_str
             common.system(cmd_str)
@@ -173,9 +176,9 @@ view_jmol = \
 avogadro_cmd = r"""
     __f(){
         if which avogadro2 > /dev/null; then
-            avogadro2 $@
+            avogadro2 "$@"
         else
-            avogadro $@
+            avogadro "$@"
         fi
         };
     __f """
-- 
2.43.0


From 9de174de27b49609cb439d5ef19753f9cfe93bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 51/75] fix: default_repl_keys: remove temp dir and close the
 database in case of errors

---
 src/pwtools/batch.py | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 71f81b4..2f7c989 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -724,24 +724,28 @@ def default_repl_keys():
     # the replacement keys :-)
     import tempfile
     calc_root = tempfile.mkdtemp()
-    jobfn_templ = pj(calc_root, 'foo.job')
-    common.file_write(jobfn_templ, 'dummy job template, go away!')
-    m = Machine(hostname='foo',
-                template=FileTemplate(basename='foo.job',
-                                      templ_dir=calc_root))
-    print("writing test files to: %s, will be deleted" %calc_root)
-    params_lst = [[SQLEntry(key='dummy', sqlval=1)]]
-    study = ParameterStudy(machines=m, params_lst=params_lst,
-                           calc_root=calc_root)
-    study.write_input()
-    db = SQLiteDB(study.dbfn, table='calc')
-    db_keys = [str(x[0]) for x in db.get_header()]
-    for kk in ['dummy', 'hostname']:
-        db_keys.pop(db_keys.index(kk))
-    db.finish()
-    ret = {'ParameterStudy' : db_keys,
-           'Machine' : list(m.get_sql_record().keys())}
-    shutil.rmtree(calc_root)
+    try:
+        jobfn_templ = pj(calc_root, 'foo.job')
+        common.file_write(jobfn_templ, 'dummy job template, go away!')
+        m = Machine(hostname='foo',
+                    template=FileTemplate(basename='foo.job',
+                                          templ_dir=calc_root))
+        print("writing test files to: %s, will be deleted" %calc_root)
+        params_lst = [[SQLEntry(key='dummy', sqlval=1)]]
+        study = ParameterStudy(machines=m, params_lst=params_lst,
+                               calc_root=calc_root)
+        study.write_input()
+        db = SQLiteDB(study.dbfn, table='calc')
+        try:
+            db_keys = [str(x[0]) for x in db.get_header()]
+        finally:
+            db.finish()
+        for kk in ['dummy', 'hostname']:
+            db_keys.pop(db_keys.index(kk))
+        ret = {'ParameterStudy' : db_keys,
+               'Machine' : list(m.get_sql_record().keys())}
+    finally:
+        shutil.rmtree(calc_root)
     return ret
 
 
-- 
2.43.0


From d99096ee104a3c13ffc2899e64d9447b966e9031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:38 +0000
Subject: [PATCH 52/75] fix: SQLiteDB: close the database file when the object
 is deleted

---
 src/pwtools/sql.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/sql.py b/src/pwtools/sql.py
index f25ae5b..e185d40 100644
--- a/src/pwtools/sql.py
+++ b/src/pwtools/sql.py
@@ -509,7 +509,11 @@ class SQLiteDB:
         self.cur.close()
 
     def __del__(self):
-        self.finish()
+        try:
+            self.finish()
+        finally:
+            # else the file is closed only when the garbage collector runs
+            self.conn.close()
 
 
 # XXX old behavior in argument list: key, sqltype, lst. If you want this, then
-- 
2.43.0


From 7757af6fbfe46189cec807a10cc93331f996aec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 53/75] fix: TagTimer: TypeError instead of the error message
 for tags which are tuples

---
 src/pwtools/timer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/timer.py b/src/pwtools/timer.py
index 5f01be7..f72bd9c 100644
--- a/src/pwtools/timer.py
+++ b/src/pwtools/timer.py
@@ -103,7 +103,7 @@ class TagTimer:
             Extra string to be printed along with the time difference.
         """
         if tag not in self.time_ar_dict:
-            raise ValueError("array for tag '%s' not jet initialized; " %tag\
+            raise ValueError("array for tag '%s' not jet initialized; " %(tag,)\
                 + "you have to call t() first.")
         # hmm ... array is [None, None] .. shouldn't be
         # list test: [a, a] == [a, a] -> True
@@ -120,7 +120,7 @@ class TagTimer:
             self.p("%s: %s time: %s" %(tag, msg,\
                 self.time_ar_dict[tag][1] - self.time_ar_dict[tag][0]))
         else:
-            raise ValueError("illegal array content for tag '%s' " %tag)
+            raise ValueError("illegal array content for tag '%s' " %(tag,))
 
     def p(self, msg):
         """ Simply print `msg`. """
-- 
2.43.0


From 5c18c50b7443f230b62b9548be4b8fc3ce53cc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:10 +0000
Subject: [PATCH 54/75] fix: RandomStructure: ValueError 'math domain error'
 for angles which no cell can have

---
 src/pwtools/random.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/random.py b/src/pwtools/random.py
index 66fd687..8a8dee0 100644
--- a/src/pwtools/random.py
+++ b/src/pwtools/random.py
@@ -113,7 +113,11 @@ class RandomStructure:
         cnt = 1
         while cnt <= self.cell_maxtry:
             cc = _get()
-            vol = volume_cc(cc)
+            try:
+                vol = volume_cc(cc)
+            except ValueError:
+                # there is no cell with such angles
+                vol = -1.0
             if not self.vol_range[0] <= vol <= self.vol_range[1]:
                 cc = _get()
                 cnt += 1
-- 
2.43.0


From bf04cfdb2c6428fb293a22bb21bc3f13b4644fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 55/75] fix: RandomStructure: atoms too close to periodic
 images in small or skewed cells

---
 src/pwtools/random.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/pwtools/random.py b/src/pwtools/random.py
index 8a8dee0..fbd6355 100644
--- a/src/pwtools/random.py
+++ b/src/pwtools/random.py
@@ -2,7 +2,7 @@ from math import acos, pi, sin, cos, sqrt
 import numpy as np
 from numpy.random import uniform
 from pwtools import atomic_data, _flib
-from pwtools.crys import cc2cell, volume_cc, Structure
+from pwtools.crys import cc2cell, volume_cc, rmax_smith, Structure
 from pwtools.num import fempty
 
 class RandomStructureFail(Exception):
@@ -138,9 +138,8 @@ class RandomStructure:
             Index into self.coords_frac, defining the number of atoms currently
             in there (iatom +1).
         """
-        # dist: min image dist correct only up to rmax_smith(), but we check if
-        #   atoms are too close; too big dists are no problem; choose only upper
-        #   triangle from array `dist`
+        # dist: min image dist correct only up to rmax_smith(), see below;
+        #   choose only upper triangle from array `dist`
         natoms_filled = iatom + 1
         coords_frac = self.coords_frac[:natoms_filled,:]
         # This part is 10x slower than the fortran version  --------
@@ -168,7 +167,22 @@ class RandomStructure:
         dist = np.sqrt(distsq)
         # This part is fast
         dij_min_filled = self.dij_min[:natoms_filled,:natoms_filled]
-        return np.triu(dist < dij_min_filled, k=1).any()
+        if np.triu(dist < dij_min_filled, k=1).any():
+            return True
+        # In small and skewed cells, another periodic image than the one from
+        # the min image convention can be closer. Check only the atom `iatom`,
+        # the others have been checked when they were added.
+        dmin = dij_min_filled[iatom,:iatom]
+        if iatom == 0 or dmin.max() <= rmax_smith(self.cell):
+            return False
+        # distance between opposite faces of the cell
+        height = 1.0 / np.sqrt((np.linalg.inv(self.cell)**2.0).sum(axis=0))
+        nimg = np.floor(dmin.max() / height + 0.5).astype(int)
+        img = np.indices(2*nimg + 1).reshape(3,-1).T - nimg
+        sij = coords_frac[:iatom,:] - coords_frac[iatom,:]
+        sij -= np.rint(sij)
+        rij = np.dot(sij[:,None,:] + img[None,:,:], self.cell)
+        return bool(((rij**2.0).sum(axis=2) < dmin[:,None]**2.0).any())
 
     def _add_random_atom(self, iatom):
         self.coords_frac[iatom,:] = np.random.rand(3)
-- 
2.43.0


From dcbe9fbae9a549a9f0a1835efcb0ae892df9eea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:44 +0000
Subject: [PATCH 56/75] fix: RandomStructure: changing symbols of a created
 structure changed the next ones

---
 src/pwtools/random.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/random.py b/src/pwtools/random.py
index fbd6355..817a454 100644
--- a/src/pwtools/random.py
+++ b/src/pwtools/random.py
@@ -76,9 +76,10 @@ class RandomStructure:
         verbose : bool, optional
             Print stuff while trying to generate structs.
         """
-        self.symbols = symbols
+        # copies, don't share lists with the caller
+        self.symbols = list(symbols)
         self.close_scale = close_scale
-        self.angle_range = angle_range
+        self.angle_range = list(angle_range)
         self.natoms = len(self.symbols)
         self.cell_maxtry = cell_maxtry
         self.atom_maxtry = atom_maxtry
@@ -228,7 +229,7 @@ class RandomStructure:
                 raise RandomStructureFail("failed to create random coords for "
                                           "iatom=%i of %i" %(iatom,
                                                              self.natoms-1))
-        st = Structure(symbols=self.symbols,
+        st = Structure(symbols=self.symbols[:],
                        coords_frac=self.coords_frac,
                        cell=self.cell)
         return st
-- 
2.43.0


From e1c4d35b72996449b212287de453b86e05124e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 57/75] fix: apply_units: units were applied twice after an
 interrupt or error midway

---
 src/pwtools/crys.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 6562943..6a09dfe 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2193,6 +2193,11 @@ class UnitsHandler(FlexibleGetters):
         # would be better to split cryst_const into self.abc and self.angles or
         # so, but that would break too much code, BUT we could just add
         # backward compat get_cryst_const, which concatenates these ...
+        #
+        # First calculate everything, then set attributes and `units_applied`
+        # at once. If we get interrupted or there is an error, then nothing is
+        # converted (not: some attrs now and then again in the next call).
+        new = {}
         if self.is_set_attr('cryst_const'):
             cc = self.cryst_const.copy()
             if cc.ndim == 1:
@@ -2201,14 +2206,15 @@ class UnitsHandler(FlexibleGetters):
                 cc[:,:3] *= self.units['length']
             else:
                 raise Exception("self.cryst_const has ndim != [1,2]")
-            self.cryst_const = cc
+            new['cryst_const'] = cc
         for unit, lst in self.units_map.items():
             if self.units[unit] != 1.0:
                 for attr_name in lst:
                     if self.is_set_attr(attr_name):
                         attr = getattr(self, attr_name)
-                        setattr(self, attr_name,  attr * self.units[unit])
-        self.units_applied = True
+                        new[attr_name] = attr * self.units[unit]
+        new['units_applied'] = True
+        self.__dict__.update(new)
 
     def apply_units(self):
         """Like _apply_units_raw(), make sure that units are only applied once."""
-- 
2.43.0


From eb4283c8c4dae22536ddcfabe1c91404598ab5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:45 +0000
Subject: [PATCH 58/75] fix: cryst_const and coords given as int arrays: error,
 truncated velocity

---
 src/pwtools/crys.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 6a09dfe..b310d60 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -710,12 +710,12 @@ def velocity_traj(arr, dt=1.0, axis=0, endpoints=True):
     # course. Also, one *could* create 3*natoms Spline objects thru coords
     # (splines along time axis) and calc 1st and 2nd deriv from that. But
     # that's probably very slow.
-    if endpoints:
-        vv = np.empty_like(arr)
     # To support general axis stuff, use slice magic ala slicetake/sliceput
     assert axis == 0, ("only axis==0 implemented ATM")
     tmp = (arr[2:,...] - arr[:-2,...]) / 2.0 / dt
     if endpoints:
+        # not empty_like(arr), that may be an int array
+        vv = np.empty(arr.shape, dtype=tmp.dtype)
         vv[1:-1,...] = tmp
         vv[0,...] = tmp[0,...]
         vv[-1,...] = tmp[-1,...]
@@ -2199,7 +2199,8 @@ class UnitsHandler(FlexibleGetters):
         # converted (not: some attrs now and then again in the next call).
         new = {}
         if self.is_set_attr('cryst_const'):
-            cc = self.cryst_const.copy()
+            # always float: can be an int array
+            cc = np.array(self.cryst_const * 1.0)
             if cc.ndim == 1:
                 cc[:3] *= self.units['length']
             elif cc.ndim == 2:
-- 
2.43.0


From 0e689dd4be84f71b7f83351d9452f250fb650f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:26 +0000
Subject: [PATCH 59/75] fix: copy, index and get_traj of Structure/Trajectory:
 units not yet applied were lost

---
 src/pwtools/crys.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index b310d60..db7fcca 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2222,6 +2222,11 @@ class UnitsHandler(FlexibleGetters):
         if not self.units_applied:
             self._apply_units_raw()
 
+    def _copy_units(self, other):
+        """Pass units to `other`, whose attrs have been taken from self."""
+        other.units = self.units.copy()
+        other.units_applied = self.units_applied
+
     def update_units(self, units):
         """Update self.units dict from `units`. All units not contained in
         `units` remain at the default (1.0), see self._default_units.
@@ -2570,6 +2575,10 @@ class Structure(UnitsHandler):
                 setattr(obj, name, val.copy())
             else:
                 setattr(obj, name, copy.deepcopy(val))
+        # mean() adds attrs
+        obj.attr_lst = self.attr_lst[:]
+        self._copy_units(obj)
+        obj.set_all_auto = self.set_all_auto
         return obj
 
     def get_velocity(self):
@@ -2930,6 +2939,7 @@ class Structure(UnitsHandler):
             else:
                 new_attr = copy.deepcopy(attr)
             setattr(tr, attr_name, new_attr)
+        self._copy_units(tr)
         # re-calculate nstep
         tr.nstep = None
         tr.set_all()
@@ -3015,6 +3025,7 @@ class Trajectory(Structure):
                     setattr(obj, name, attr)
             else:
                 setattr(obj, name, None)
+        self._copy_units(obj)
         # After possible slicing, calculate new nstep
         if want_traj:
             obj.nstep = obj.get_nstep()
-- 
2.43.0


From 83f05a72deb298da3d7553a37db91862b094374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:08 +0000
Subject: [PATCH 60/75] fix: units were not applied to volume and pressure
 given as input

---
 src/pwtools/crys.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index db7fcca..7956aa2 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2174,7 +2174,7 @@ class UnitsHandler(FlexibleGetters):
         self.units_map = \
             {'length':      ['cell', 'coords', 'abc'],
              'energy':      ['etot', 'ekin'],
-             'stress':      ['stress'],
+             'stress':      ['stress', 'pressure'],
              'forces':      ['forces'],
              'temperature': ['temperature'],
              'velocity':    ['velocity'],
@@ -2208,6 +2208,9 @@ class UnitsHandler(FlexibleGetters):
             else:
                 raise Exception("self.cryst_const has ndim != [1,2]")
             new['cryst_const'] = cc
+        # same for volume: length**3
+        if self.is_set_attr('volume') and self.units['length'] != 1.0:
+            new['volume'] = self.volume * self.units['length']**3.0
         for unit, lst in self.units_map.items():
             if self.units[unit] != 1.0:
                 for attr_name in lst:
-- 
2.43.0


From f10c1848098aaf7a0d1be4fe1a55136294f6d390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:43 +0000
Subject: [PATCH 61/75] fix: sliceput: IndexError for axis=<int>

---
 src/pwtools/num.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index b596311..a03a329 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -573,7 +573,8 @@ def sliceput(a, b, sl, axis=None):
         # [slice(...), slice(...), ...]
         tmp = [slice(None)] * len(a.shape)
         tmp[axis] = sl
-    a[tmp] = b
+    # a list of slices is no valid index
+    a[tuple(tmp) if isinstance(tmp, list) else tmp] = b
     return a
 
 
-- 
2.43.0


From 637b285f39ff86c750e41164d06a88b651c3331c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 62/75] fix: FIRFilter: keyword nyq unknown to firwin,
 NameError for mode='bandstop'

---
 src/pwtools/signal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 853955f..578567c 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -950,11 +950,11 @@ class FIRFilter:
         elif mode == 'bandstop':
             pass_zero = True
             assert len(cutoff) == 2
-            if N % 2 == 0:
-                N += 1
+            if self.ntaps % 2 == 0:
+                self.ntaps += 1
         else:
             raise Exception('unknown mode')
-        self.taps = firwin(numtaps=self.ntaps, cutoff=cutoff, window=self.window, nyq=nyq,
+        self.taps = firwin(numtaps=self.ntaps, cutoff=cutoff, window=self.window, fs=2*nyq,
                            pass_zero=pass_zero, width=width)
         w,h = freqz(self.taps)
         self.w = (w/np.pi)*nyq
-- 
2.43.0


From 7f44c30a005468442ff2fb73d9dc0a1098d82970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 63/75] fix: pad_zeros: the input array itself was returned if
 there was nothing to pad

---
 src/pwtools/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 578567c..2c62de6 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -285,7 +285,7 @@ def pad_zeros(arr, axis=0, where='end', nadd=None, upto=None, tonext=None,
         else:
             nadd = upto - arr.shape[axis]
     if nadd == 0:
-        return arr
+        return arr.copy()
     add_shape = list(arr.shape)
     add_shape[axis] = nadd
     add_shape = tuple(add_shape)
-- 
2.43.0


From d8f0021a22bd0515f0dda9f9adf160ca85ecd18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 64/75] fix: fit_opt: settings were removed from the caller's
 opt_kwds, brute with finish=None failed

---
 src/pwtools/rbf/hyperopt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pwtools/rbf/hyperopt.py b/src/pwtools/rbf/hyperopt.py
index d7dc38b..b45a4ad 100644
--- a/src/pwtools/rbf/hyperopt.py
+++ b/src/pwtools/rbf/hyperopt.py
@@ -218,6 +218,8 @@ def fit_opt(
         points, values, cv=cv, cv_kwds=cv_kwds, rbf_kwds=rbf_kwds
     )
     _get_p0 = lambda: estimate_p(points)
+    # keys are removed below, leave the caller's dict alone
+    opt_kwds = dict(opt_kwds)
     disp = opt_kwds.pop("disp", False)
     if method == "fmin":
         if what == "p":
@@ -242,6 +244,8 @@ def fit_opt(
                 fit_err, ranges=bounds, disp=disp, **opt_kwds
             )
     rbf_kwds_opt = copy.copy(rbf_kwds)
+    # brute() returns a scalar for one parameter and finish=None
+    xopt = np.atleast_1d(xopt)
     for idx, symbol in enumerate(what_lst):
         rbf_kwds_opt[symbol] = xopt[idx]
     return Rbf(points, values, **rbf_kwds_opt)
-- 
2.43.0


From 538f88255ad47d89b661e63fbe3fededc20f0185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 65/75] fix: Rbf.get_distsq: changing the returned array
 changed later fits

---
 src/pwtools/rbf/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/rbf/core.py b/src/pwtools/rbf/core.py
index 197c625..a584b92 100644
--- a/src/pwtools/rbf/core.py
+++ b/src/pwtools/rbf/core.py
@@ -311,7 +311,7 @@ class Rbf:
             if self.distsq is None:
                 return squared_dists(self.points, self.points)
             else:
-                return self.distsq
+                return self.distsq.copy()
         else:
             return squared_dists(points, self.points)
 
-- 
2.43.0


From 32a991f6c85f65af34fdee0043e1554a63539482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 66/75] fix: concatenate, mean, smooth, mix, align_cart: result
 shared lists with the input, mix failed for a list of numbers

---
 src/pwtools/crys.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 7956aa2..c1b0289 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -3153,7 +3153,7 @@ def concatenate(lst):
         setattr(traj, name, attr)
     attrs_traj = traj.attrs_nstep + traj.attrs_only_traj
     for name in set.difference(com_attrs, set(attrs_traj)):
-        setattr(traj, name, getattr(trlst[0], name))
+        setattr(traj, name, copy.deepcopy(getattr(trlst[0], name)))
     traj.timestep = None
     traj.time = None
     traj.nstep = traj.get_nstep()
@@ -3202,7 +3202,7 @@ def mean(traj):
                                     set(attrs_traj)):
         attr = getattr(traj, attr_name)
         if attr is not None:
-            setattr(struct, attr_name, attr)
+            setattr(struct, attr_name, copy.deepcopy(attr))
     return struct
 
 
@@ -3287,7 +3287,7 @@ def smooth(traj, kern, method=1):
     # non-nstep attrs over
     for attr_name in set.difference(set(traj.attr_lst),
                                     set(traj.attrs_nstep)):
-        setattr(out, attr_name, getattr(traj, attr_name))
+        setattr(out, attr_name, copy.deepcopy(getattr(traj, attr_name)))
     return out
 
 
@@ -3319,18 +3319,19 @@ def mix(st1, st2, alpha):
     assert st1.symbols == st2.symbols
     coords = np.empty_like(st1.coords)
     cell = np.empty_like(st1.cell)
-    rr = alpha[:,None,None]
+    rr = np.asarray(alpha)[:,None,None]
     coords = rr * st2.coords[None,:,:] + (1.0 - rr) * st1.coords[None,:,:]
     cell = rr * st2.cell[None,:,:] + (1.0 - rr) * st1.cell[None,:,:]
     if (st1.forces is not None) and (st2.forces is not None):
         forces = rr * st2.forces[None,:,:] + (1.0 - rr) * st1.forces[None,:,:]
-        return Trajectory(coords=coords, cell=cell, symbols=st1.symbols,
+        return Trajectory(coords=coords, cell=cell, symbols=copy.deepcopy(st1.symbols),
                           forces=forces)
     else:
         # cannot use forces=None here, Structure.__init__ complains that it
         # is None ... this is by design but seems stupid -> change input
         # checking logic there
-        return Trajectory(coords=coords, cell=cell, symbols=st1.symbols)
+        return Trajectory(coords=coords, cell=cell,
+                          symbols=copy.deepcopy(st1.symbols))
 
 
 def align_cart(obj, x=None, y=None, vecs=None, indices=None, cart=None,
@@ -3411,7 +3412,7 @@ def align_cart(obj, x=None, y=None, vecs=None, indices=None, cart=None,
     else:
         container = Structure
     obj_new = container(coords_frac=obj.coords_frac.copy(),
-                        symbols=obj.symbols,
+                        symbols=copy.deepcopy(obj.symbols),
                         cell=np.dot(obj.cell, cart.T),
                         )
     return obj_new
-- 
2.43.0


From faeca587c3ba056ce922fb25bba99ab3d8a11bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 67/75] fix: Gibbs: incomplete axes fits used after an
 interrupt, set_fitfunc('1d-ax') ignored after the first calculation

---
 src/pwtools/thermo.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pwtools/thermo.py b/src/pwtools/thermo.py
index 61a544c..55f62f2 100644
--- a/src/pwtools/thermo.py
+++ b/src/pwtools/thermo.py
@@ -492,6 +492,9 @@ class Gibbs:
         """
         assert what in self.fitfunc, ("unknown key: '%s'" %what)
         self.fitfunc[what] = func
+        if what == '1d-ax':
+            # fits made with the old function
+            self.fitax = None
 
     @staticmethod
     def _default_fit_1d_G(x, y):
@@ -599,10 +602,8 @@ class Gibbs:
         """Store list of Spline-like fit objects, one for each ax. Each
         fit(V,ax) maps the volume to each axis. Only used if self.case=='1d'."""
         if self.fitax is None:
-            self.fitax = []
-            for iax in range(self.nax):
-                self.fitax.append(self.fitfunc['1d-ax'](self.V,
-                                                        self.axes_flat[:,iax]))
+            self.fitax = [self.fitfunc['1d-ax'](self.V, self.axes_flat[:,iax])
+                          for iax in range(self.nax)]
 
     def calc_F(self, calc_all=True):
         """Free energy properties along T axis for each axes grid point
-- 
2.43.0


From fb3435ab1e44aaa34670826d121c5a7344a14821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 68/75] fix: Gibbs: changing returned T, P, V, axes or Etot
 changed later calculations

---
 src/pwtools/thermo.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/thermo.py b/src/pwtools/thermo.py
index 55f62f2..c075676 100644
--- a/src/pwtools/thermo.py
+++ b/src/pwtools/thermo.py
@@ -598,6 +598,11 @@ class Gibbs:
             if self.case != '1d':
                 ret['/#opt%s/B' %prfx] = None
 
+    def _copy_ret(self):
+        """Copy of the input data in `self.ret`, such that changing a returned
+        dict doesn't change the input data."""
+        return dict((k, np.array(v)) for k,v in self.ret.items())
+
     def _set_fitax(self):
         """Store list of Spline-like fit objects, one for each ax. Each
         fit(V,ax) maps the volume to each axis. Only used if self.case=='1d'."""
@@ -656,7 +661,7 @@ class Gibbs:
                 ret[self.axes_prefix + '/T/Svib'][idx,:] = svib
                 ret[self.axes_prefix + '/T/Evib'][idx,:] = evib
                 ret[self.axes_prefix + '/T/Cv'][idx,:] = cv
-        ret.update(self.ret)
+        ret.update(self._copy_ret())
         return ret
 
     def calc_H(self, calc_all=True):
@@ -686,7 +691,7 @@ class Gibbs:
                 self._fit_opt_store(ret, gg, prfx='/P',
                                     tpidx=[pidx], ghsym='H')
         self._set_not_calc_none(ret, prfx='/P')
-        ret.update(self.ret)
+        ret.update(self._copy_ret())
         return ret
 
     def calc_G(self, ret=None, calc_all=True):
@@ -755,7 +760,7 @@ class Gibbs:
             for pidx in range(self.nP):
                 fit = self.fitfunc['C'](self.T, ret['/#opt/T/P/G'][:,pidx]*eV/kb)
                 ret['/#opt/T/P/Cp'][:,pidx] = -self.T * fit(self.T, der=2)
-        ret.update(self.ret)
+        ret.update(self._copy_ret())
         return ret
 
 
-- 
2.43.0


From 0eeff43eb607b9b156686429460db6560183cc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:52 +0000
Subject: [PATCH 69/75] fix: Data2D.update: new zz, XY, xx/yy or X/Y were
 replaced by the old data

---
 src/pwtools/mpl.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index 506f12a..82f78b6 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -490,6 +490,21 @@ class Data2D:
         as in the constructor, i.e. `x`, `y`, `xx`, ..."""
         for key,val in kwds.items():
             assert key in self.attr_lst, ("'%s' not allowed" %key)
+        # Drop other forms of the old data, which _update() would prefer over
+        # the new data.
+        if 'XY' in kwds:
+            old = ['x', 'y', 'X', 'Y', 'xx', 'yy']
+        elif ('xx' in kwds) or ('yy' in kwds):
+            old = ['x', 'y', 'X', 'Y']
+        elif ('X' in kwds) or ('Y' in kwds):
+            old = ['x', 'y']
+        else:
+            old = []
+        if 'zz' in kwds:
+            old = old + ['Z']
+        for key in old:
+            setattr(self, key, None)
+        for key,val in kwds.items():
             setattr(self, key, val)
         self._update()
 
-- 
2.43.0


From 5b532b03d1360502bae5c69c48312a2680c3f7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:52 +0000
Subject: [PATCH 70/75] fix: toslice, tobool, ffloat: strings were not accepted

---
 src/pwtools/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index 6ad95b1..7cf798b 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -88,7 +88,7 @@ def toslice(val):
     >>> toslice('1:5')
     slice(1, 5, None)
     """
-    assert_cond(isinstance(val, bytes), "input must be string")
+    assert_cond(isinstance(val, str), "input must be string")
     # XXX This is fixed in numpy 1.5.1:
     #   https://github.com/numpy/numpy/commit/9089036b
     # np.s_ doesn't work for slices starting at end, like
@@ -132,7 +132,7 @@ def tobool(val):
             return False
     got_str = False
     got_int = False
-    if isinstance(val, bytes):
+    if isinstance(val, str):
         got_str = True
         val = val.lower()
     elif isinstance(val, int):
@@ -167,7 +167,7 @@ def ffloat(st):
     -------
     float
     """
-    assert_cond(isinstance(st, bytes), "`st` must be string")
+    assert_cond(isinstance(st, str), "`st` must be string")
     st = st.lower()
     if not 'd' in st:
         return float(st)
-- 
2.43.0


From c87f042368e853eaae8cdbfc2bf5a6d54fefba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:17 +0000
Subject: [PATCH 71/75] fix: pwscf: incomplete output of matdyn.x, dynmat.x,
 ph.x gave missing, cut or uninitialised numbers

---
 src/pwtools/pwscf.py | 53 +++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/pwtools/pwscf.py b/src/pwtools/pwscf.py
index efa3dad..2025368 100644
--- a/src/pwtools/pwscf.py
+++ b/src/pwtools/pwscf.py
@@ -1,7 +1,7 @@
 """Some handy tools to construct strings for building pwscf input files.
 Readers for QE postprocessing tool output (matdyn.x, dynmat.x)."""
 
-import re, os, warnings
+import re, os, shlex, warnings
 import numpy as np
 from pwtools.common import fix_eps, str_arr, file_readlines, pj
 from pwtools import parse, crys, common
@@ -158,6 +158,17 @@ def bool2str(x):
     return '.true.' if x else '.false.'
 
 
+def _cat(filename):
+    """Shell command which prints all complete lines in `filename` (which are
+    there now). The program which writes the file may still be running or may
+    have been killed. Then the last line is incomplete, such that its last
+    number may have too few digits. Using the same command for all quantities
+    makes sure that they are extracted from the same text."""
+    with open(filename, 'rb') as fd:
+        size = fd.read().rfind(b'\n') + 1
+    return "head -c %i %s" %(size, shlex.quote(filename))
+
+
 def read_matdyn_modes(filename, natoms=None):
     """Parse modes file produced by QE's matdyn.x.
 
@@ -223,11 +234,12 @@ def read_matdyn_modes(filename, natoms=None):
        **************************************************************************
     """
     assert natoms is not None
-    cmd = r"grep 'q.*=' %s | sed -re 's/.*q\s*=(.*)/\1/'" %filename
+    cat = _cat(filename)
+    cmd = cat + r" | grep 'q.*=' | sed -re 's/.*q\s*=(.*)/\1/'"
     qpoints = parse.arr2d_from_txt(common.backtick(cmd))
     nqpoints = qpoints.shape[0]
     nmodes = 3*natoms
-    cmd = r"grep '^[ ]*(' %s | sed -re 's/^\s*\((.*)\)/\1/g'" %filename
+    cmd = cat + r" | grep '^[ ]*(' | sed -re 's/^\s*\((.*)\)/\1/g'"
     # vecs_file_flat: (nqpoints * nmodes * natoms, 6)
     # this line is the bottleneck
     vecs_file_flat = parse.arr2d_from_txt(common.backtick(cmd))
@@ -236,8 +248,8 @@ def read_matdyn_modes(filename, natoms=None):
     vecs_flat[:,1] = vecs_file_flat[:,2] + 1j*vecs_file_flat[:,3]
     vecs_flat[:,2] = vecs_file_flat[:,4] + 1j*vecs_file_flat[:,5]
     vecs = vecs_flat.flatten().reshape(nqpoints, nmodes, natoms, 3)
-    cmd = r"grep omega %s | sed -re \
-            's/.*omega.*=.*\[.*=(.*)\s*\[.*/\1/g'" %filename
+    cmd = cat + r" | grep omega | sed -re \
+            's/.*omega.*=.*\[.*=(.*)\s*\[.*/\1/g'"
     freqs = np.fromstring(common.backtick(cmd), sep=' ').reshape((nqpoints, nmodes))
     return qpoints, freqs, vecs
 
@@ -266,11 +278,12 @@ def read_dyn(filename, natoms=None):
         Complex eigenvectors of the dynamical matrix for the q-point.
     """
     assert natoms is not None
-    cmd = r"egrep 'q.*=.*\(' %s | tail -n1 | sed -re 's/.*q\s*=.*\((.*)\)/\1/'" %filename
+    cat = _cat(filename)
+    cmd = cat + r" | egrep 'q.*=.*\(' | tail -n1 | sed -re 's/.*q\s*=.*\((.*)\)/\1/'"
     qpoints = np.fromstring(common.backtick(cmd), sep=' ')
     assert qpoints.shape == (3,)
     nmodes = 3*natoms
-    cmd = r"grep -v 'q.*=' %s | grep '^[ ]*(' | sed -re 's/^\s*\((.*)\)/\1/g'" %filename
+    cmd = cat + r" | grep -v 'q.*=' | grep '^[ ]*(' | sed -re 's/^\s*\((.*)\)/\1/g'"
     # vecs_file_flat: (nmodes * natoms, 6)
     # this line is the bottleneck
     vecs_file_flat = parse.arr2d_from_txt(common.backtick(cmd))
@@ -279,9 +292,9 @@ def read_dyn(filename, natoms=None):
     vecs_flat[:,1] = vecs_file_flat[:,2] + 1j*vecs_file_flat[:,3]
     vecs_flat[:,2] = vecs_file_flat[:,4] + 1j*vecs_file_flat[:,5]
     vecs = vecs_flat.flatten().reshape(nmodes, natoms, 3)
-    cmd = r"grep omega %s | sed -re \
-            's/.*omega.*=.*\[.*=(.*)\s*\[.*/\1/g'" %filename
-    freqs = np.fromstring(common.backtick(cmd), sep=' ')
+    cmd = cat + r" | grep omega | sed -re \
+            's/.*omega.*=.*\[.*=(.*)\s*\[.*/\1/g'"
+    freqs = np.fromstring(common.backtick(cmd), sep=' ').reshape((nmodes,))
     return qpoints, freqs, vecs
 
 
@@ -358,13 +371,13 @@ def read_dynmat(path='.', natoms=None, filename='dynmat.out', axsf='dynmat.axsf'
     nmodes = 3*natoms
     out_fn = pj(path, filename)
     axsf_fn = pj(path, axsf)
-    cmd = "grep -A{0} PRIMCO {1} | sed -re '/PRIMCO.*/{{N;d;}}' | \
-            awk '{{print $5\" \"$6\" \"$7}}'".format(natoms+1, axsf_fn)
+    cmd = "{1} | grep -A{0} PRIMCO | sed -re '/PRIMCO.*/{{N;d;}}' | \
+            awk '{{print $5\" \"$6\" \"$7}}'".format(natoms+1, _cat(axsf_fn))
     qpoints = np.zeros((3,))
     vecs = np.fromstring(common.backtick(cmd), sep=' ').reshape(nmodes,natoms,3)
-    cmd = "grep -A{0} 'mode.*cm-1' {1} | grep -v mode | \
-           awk '{{print $2}}'".format(nmodes, out_fn)
-    freqs = np.fromstring(common.backtick(cmd), sep=' ')
+    cmd = "{1} | grep -A{0} 'mode.*cm-1' | grep -v mode | \
+           awk '{{print $2}}'".format(nmodes, _cat(out_fn))
+    freqs = np.fromstring(common.backtick(cmd), sep=' ').reshape((nmodes,))
     return qpoints,freqs,vecs
 
 
@@ -413,8 +426,11 @@ def read_dynmat_ir_raman(filename='dynmat.out', natoms=None,
     Some columns (e.g. IR, Raman) may be missing.
     """
     assert natoms is not None, ("natoms is None")
-    cmd = "grep -A{0} 'mode.*cm-1' {1} | grep -v mode".format(3*natoms, filename)
+    cmd = "{1} | grep -A{0} 'mode.*cm-1' | grep -v mode".format(3*natoms,
+                                                              _cat(filename))
     arr = parse.arr2d_from_txt(common.backtick(cmd))
+    assert arr.shape[0] == 3*natoms, ("%s: expect %i modes, got %i"
+        %(filename, 3*natoms, arr.shape[0]))
     if cols is None:
         return arr
     else:
@@ -505,6 +521,9 @@ def read_matdyn_freq(filename):
     :func:`pwtools.kpath.get_path_norm`
     """
     lines = file_readlines(filename)
+    # half a line (number) if matdyn.x was killed or still runs
+    if not lines[-1].endswith('\n'):
+        lines.pop()
     # Read number of bands (nbnd) and k-points (nks). OK, Fortran's namelists
     # win here :)
     # nbnd: number of bands = number of frequencies per k-point = 3*natoms for
@@ -521,6 +540,8 @@ def read_matdyn_freq(filename):
     # nasty trick: join all lines containing data into one 1d array: " ".join()
     # does "1 2\n3 4" -> "1 2\n 3 4" and split() splits at \n + whitespace.
     items = np.array(' '.join(lines[1:]).split(), dtype=float)
+    assert len(items) == nks*step, ("%s: expect %i numbers, got %i"
+        %(filename, nks*step, len(items)))
     for ii in range(len(items) // step):
         kpoints[ii,:] = items[ii*step:(ii*step+3)]
         freqs[ii,:] = items[(ii*step+3):(ii*step+step)]
-- 
2.43.0


From 9a4bcbeb2c53d540840ad955ce87eba521c3911e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:33 +0000
Subject: [PATCH 72/75] fix: cpmd, cp2k SCF: output of killed jobs gave results
 of the initial guess or of some atoms only

---
 src/pwtools/parse.py | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index cc1931e..66e5cec 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1276,11 +1276,17 @@ class CpmdSCFOutputFile(StructureFileParser):
         verbose("getting _coords_forces")
         self.try_set_attr('natoms')
         if self.is_set_attr('natoms'):
-            cmd = "egrep -A%i 'ATOM[ ]+COORDINATES[ ]+GRADIENTS' %s \
-                  | tail -n%i \
-                  | %s '{print $3\" \"$4\" \"$5\" \"$6\" \"$7\" \"$8}'" \
-                  %(self.natoms, self.filename, self.natoms, AWK)
-            return arr2d_from_txt(com.backtick(cmd))
+            # Same block for the initial guess before.
+            cmd = "%s '/FINAL RESULTS/{final=1} \
+                   final && /ATOM[ ]+COORDINATES[ ]+GRADIENTS/{on=1; next} \
+                   on && NF != 8 {exit} \
+                   on {print $3\" \"$4\" \"$5\" \"$6\" \"$7\" \"$8}' %s" \
+                  %(AWK, self.filename)
+            ret = arr2d_from_txt(com.backtick(cmd))
+            assert ret is None or ret.shape[0] == self.natoms, ("%s: %i lines "
+                "with forces, but natoms=%i" %(self.filename, ret.shape[0],
+                                               self.natoms))
+            return ret
         else:
             return None
 
@@ -1294,6 +1300,12 @@ class CpmdSCFOutputFile(StructureFileParser):
             cmd = "grep -A%i 'SCALED ATOMIC COORDINATES' %s | tail -n%i" \
                   %(self.natoms, fn, self.natoms)
             arr = arr2d_from_txt(com.backtick(cmd), dtype=str)
+            # GEOMETRY (natoms) or this file may be incomplete
+            cmd = "%s '/SCALED ATOMIC COORDINATES/{on=1; next} on && NF != 5 \
+                   {exit} on {n++} END{print n+0}' %s" %(AWK, fn)
+            natoms = int_from_txt(com.backtick(cmd))
+            assert natoms == self.natoms, ("%s: %i atoms, but natoms=%i"
+                %(fn, natoms, self.natoms))
             coords_frac = arr[:,:3].astype(np.float64)
             symbols = arr[:,3].tolist()
             return {'coords_frac': coords_frac,
@@ -1325,8 +1337,9 @@ class CpmdSCFOutputFile(StructureFileParser):
     def get_etot(self):
         """[Ha]"""
         verbose("getting etot")
-        cmd =  r"grep 'TOTAL ENERGY =' %s | tail -n1 | %s '{print $5}'" \
-        %(self.filename, AWK)
+        # The energy of the initial guess is printed in the same way before.
+        cmd =  r"sed -n '/FINAL RESULTS/,$p' %s | grep 'TOTAL ENERGY =' \
+            | tail -n1 | %s '{print $5}'" %(self.filename, AWK)
         return float_from_txt(com.backtick(cmd))
 
     def get_coords_frac(self):
@@ -1380,7 +1393,10 @@ class CpmdSCFOutputFile(StructureFileParser):
     def get_scf_converged(self):
         verbose("getting scf_converged")
         cmd = "grep 'BUT NO CONVERGENCE' %s" %self.filename
-        if com.backtick(cmd).strip() == "":
+        # nothing at all if killed before the end
+        cmd_final = "grep 'FINAL RESULTS' %s" %self.filename
+        if com.backtick(cmd).strip() == "" and \
+           com.backtick(cmd_final).strip() != "":
             return True
         else:
             return False
@@ -1822,9 +1838,13 @@ class Cp2kSCFOutputFile(StructureFileParser):
     def _get_natoms_symbols_forces(self):
         cmd = r"sed -nre '1,/ATOMIC FORCES/d; " + \
               r"1,/Atom\s+Kind\s+Element/d; " + \
-              r"/SUM OF ATOMIC FORCES/q;p' %s" %self.filename
+              r"/SUM OF ATOMIC FORCES/{p;q};p' %s" %self.filename
         ret = com.backtick(cmd).strip()
         if ret != '':
+            # The last atoms are missing if the job was killed.
+            ret, sep, _ = ret.rpartition('SUM OF ATOMIC FORCES')
+            assert sep != '', "%s: forces are incomplete" %self.filename
+            ret = ret.rstrip()
             arr = np.array([x.split() for x in ret.splitlines()])
             return {'natoms': arr.shape[0],
                     'symbols': arr[:,2].tolist(),
@@ -1863,6 +1883,7 @@ class Cp2kSCFOutputFile(StructureFileParser):
             egrep '^[ ]+(X|Y|Z)'" %self.filename
         ret = com.backtick(cmd).strip()
         arr = np.array([x.split() for x in ret.splitlines()])
+        assert arr.shape == (3,4), "%s: stress is incomplete" %self.filename
         return arr[:,1:].astype(float)
 
 
-- 
2.43.0


From 84b018cd2ff9e664ec74043f7e63e115ef75e7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:01 +0000
Subject: [PATCH 73/75] fix: cif2any.py: ABINIT znucl and pseudopotential
 order: one entry per species

---
 bin/cif2any.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/cif2any.py b/bin/cif2any.py
index a5001ad..756cf9e 100755
--- a/bin/cif2any.py
+++ b/bin/cif2any.py
@@ -133,13 +133,13 @@ print(bar)
 print("natom %i" %struct.natoms)
 print("ntypat %i" %struct.ntypat)
 print("typat %s" %seq2str(struct.typat))
-print("znucl %s" %seq2str(struct.znucl))
+print("znucl %s" %seq2str(struct.znucl_unique))
 print("acell %s" %str_arr(struct.cryst_const[:3]))
 print("angdeg %s" %str_arr(struct.cryst_const[3:]))
 print("xred\n%s" %str_arr(struct.coords_frac))
 print("pseudopotential order:\n%s" %"\n".join(["%s %i" %(sym, zz) for sym,zz in
                                                zip(struct.symbols_unique,
-                                                   struct.znucl)]))
+                                                   struct.znucl_unique)]))
 
 #-------------------------------------------------------------------------------
 # CPMD
-- 
2.43.0


From 77965611ec71a9fc70b640b534b674a00159bd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:01 +0000
Subject: [PATCH 74/75] fix: solvate.sh: report failures, no results of earlier
 runs, keep the user's files; pdb2cif.py, matdyn2fqha.py: status, one read

---
 bin/matdyn2fqha.py |  6 +++--
 bin/pdb2cif.py     |  2 +-
 bin/solvate.sh     | 67 ++++++++++++++++++++++++++++++----------------
 3 files changed, 49 insertions(+), 26 deletions(-)

diff --git a/bin/matdyn2fqha.py b/bin/matdyn2fqha.py
index 4823e9a..aa7dd8e 100755
--- a/bin/matdyn2fqha.py
+++ b/bin/matdyn2fqha.py
@@ -37,7 +37,9 @@ import numpy as np
 from scipy.integrate import simpson as simps
 
 filename = sys.argv[1]
-arr = np.loadtxt(filename)
+# read only once, the file may still be written
+txt = open(filename).read()
+arr = np.loadtxt(txt.splitlines())
 freq = arr[:,0]
 dos = arr[:,1]
 
@@ -58,4 +60,4 @@ de: %f
 
 inatom = int(round(natom))
 print("%i\n%i  %i  %f  %f" %(inatom, inatom, nstep, emax, de))
-print(open(filename).read())
+print(txt)
diff --git a/bin/pdb2cif.py b/bin/pdb2cif.py
index bad0230..6c57c28 100755
--- a/bin/pdb2cif.py
+++ b/bin/pdb2cif.py
@@ -20,7 +20,7 @@ if __name__ == '__main__':
     prog = argv[0]
     if (len(argv) not in [2,3]) or (argv[1] in ['-h', '--help']):
         help(prog)
-        sys.exit()
+        sys.exit(0 if argv[1:2] in [['-h'], ['--help']] else 1)
     infile = argv[1]
     if len(argv) == 3:
         outfile = argv[2]
diff --git a/bin/solvate.sh b/bin/solvate.sh
index cf89472..c597671 100755
--- a/bin/solvate.sh
+++ b/bin/solvate.sh
@@ -1,6 +1,6 @@
 #!/bin/bash
 
-prog=$(basename $0)
+prog=$(basename "$0")
 logfile=${prog}.log
 usage(){
 cat << EOF
@@ -37,21 +37,32 @@ EOF
 }
 
 err(){
-    echo "error: $@"
+    echo "error: $@" >&2
     exit 1
 }
 
 [ $# -eq 0 ] && err "no input args"
-if echo "$@" | grep -qEe '-h|--help'; then
-    usage
-    exit 0
-fi
 
-if echo "$@" | grep -qEe '-ci '; then
-    default_ci=
-else
-    default_ci="-ci water.pdb"
-    cat > water.pdb << eof
+have_ci=false
+for arg in "$@"; do
+    case "$arg" in
+        -h | --help) usage; exit 0;;
+        -ci) have_ci=true;;
+    esac
+done
+
+name=${1%.pdb}
+shift
+start_gmx=${name}.pdb
+out_gmx=${name}_gmx.pdb
+out_cif=${name}_gmx.cif
+
+tmp=$(mktemp -d) || err "cannot create temp dir"
+trap 'rm -rf -- "$tmp"' EXIT
+
+if ! $have_ci; then
+    set -- "$@" -ci "$tmp/water.pdb"
+    cat > "$tmp/water.pdb" << eof || err "cannot write $tmp/water.pdb"
 ATOM      1  O  OSP3    1       4.013   0.831  -9.083  1.00  0.00
 ATOM      2 1H  OSP3    1       4.941   0.844  -8.837  1.00  0.00
 ATOM      3 2H  OSP3    1       3.750  -0.068  -9.293  1.00  0.00
@@ -59,23 +70,33 @@ TER
 eof
 fi
 
-rm -f *.log \#*
+: > "$logfile" || err "cannot write $logfile"
 
-name=${1/.pdb/}
-shift
-start_gmx=${name}.pdb
-out_gmx=${name}_gmx.pdb
-out_cif=${name}_gmx.cif
+failed(){
+    grep -iE 'error|fatal|illegal' "$logfile"
+    err "$@"
+}
 
 # add -ci molecule
 # older Gromacs versions (< 5.x I guess) have a tool called genbox, with
 # slighty different options, smth like
 #   genbox_d -ci water.pdb -cp foo_gmx.pdb -nmol 18 -o foo_gmx.pdb
-gmx insert-molecules $@ $default_ci -f $start_gmx -o $out_gmx >> $logfile 2>&1
+gmx insert-molecules "$@" -f "$start_gmx" -o "$tmp/gmx.pdb" >> "$logfile" 2>&1 \
+    || failed "gmx failed, see $logfile"
+pdb2cif.py "$tmp/gmx.pdb" "$tmp/gmx.cif" >> "$logfile" 2>&1 \
+    || failed "pdb2cif.py failed, see $logfile"
+cif2any.py "$tmp/gmx.cif" > "$tmp/gmx.cif.txt" \
+    || failed "cif2any.py failed"
 
-pdb2cif.py $out_gmx $out_cif >> $logfile 2>&1
-cif2any.py $out_cif > $out_cif.txt
+# Replace results of an earlier run, all or none.
+rm -f -- "$out_gmx" "$out_cif" "$out_cif.txt" && \
+    mv -- "$tmp/gmx.pdb" "$out_gmx" && \
+    mv -- "$tmp/gmx.cif" "$out_cif" && \
+    mv -- "$tmp/gmx.cif.txt" "$out_cif.txt" || {
+    rm -f -- "$out_gmx" "$out_cif" "$out_cif.txt"
+    err "cannot write $out_gmx, $out_cif, $out_cif.txt"
+}
 
-grep -iE 'error|fatal|illegal' $logfile
-grep 'Added.*molecules.*out of.*requested' $logfile
-rm -f \#*
+grep -iE 'error|fatal|illegal' "$logfile"
+grep 'Added.*molecules.*out of.*requested' "$logfile"
+exit 0
-- 
2.43.0


From 9e79708d817b8c9af08389dc066785b185ee3dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:32 +0000
Subject: [PATCH 75/75] fix: CPMD SCF parsers: directory names with '='

awk took a file name like T=300/GEOMETRY.scale as variable assignment.
---
 src/pwtools/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 66e5cec..6540639 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1280,7 +1280,7 @@ class CpmdSCFOutputFile(StructureFileParser):
             cmd = "%s '/FINAL RESULTS/{final=1} \
                    final && /ATOM[ ]+COORDINATES[ ]+GRADIENTS/{on=1; next} \
                    on && NF != 8 {exit} \
-                   on {print $3\" \"$4\" \"$5\" \"$6\" \"$7\" \"$8}' %s" \
+                   on {print $3\" \"$4\" \"$5\" \"$6\" \"$7\" \"$8}' < %s" \
                   %(AWK, self.filename)
             ret = arr2d_from_txt(com.backtick(cmd))
             assert ret is None or ret.shape[0] == self.natoms, ("%s: %i lines "
@@ -1302,7 +1302,7 @@ class CpmdSCFOutputFile(StructureFileParser):
             arr = arr2d_from_txt(com.backtick(cmd), dtype=str)
             # GEOMETRY (natoms) or this file may be incomplete
             cmd = "%s '/SCALED ATOMIC COORDINATES/{on=1; next} on && NF != 5 \
-                   {exit} on {n++} END{print n+0}' %s" %(AWK, fn)
+                   {exit} on {n++} END{print n+0}' < %s" %(AWK, fn)
             natoms = int_from_txt(com.backtick(cmd))
             assert natoms == self.natoms, ("%s: %i atoms, but natoms=%i"
                 %(fn, natoms, self.natoms))
-- 
2.43.0

