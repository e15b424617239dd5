From a00de0096bd277938e4e77eb5fd3edce0c66248d Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 15:36:29 +0000
Subject: [PATCH 001/105] fix: get_compass_dir honours the format argument

---
 impactutils/mapping/compass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/mapping/compass.py b/impactutils/mapping/compass.py
index 652f3d6..b23b5eb 100755
--- a/impactutils/mapping/compass.py
+++ b/impactutils/mapping/compass.py
@@ -42,7 +42,7 @@ def get_compass_dir(lat1, lon1, lat2, lon2, resolution='intercardinal', format='
     az = azimuth(lon1, lat1, lon2, lat2)
     if az < 0:
         az += 360
-    return get_compass_dir_azimuth(az, resolution=resolution)
+    return get_compass_dir_azimuth(az, resolution=resolution, format=format)
 
 
 def get_compass_dir_azimuth(azimuth, resolution='intercardinal', format='short'):
-- 
2.43.0


From 1b1f00e49b1cc1705ed8f65dad659d2ff38b2616 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 15:40:40 +0000
Subject: [PATCH 002/105] fix: HDFContainer.getDataFrame works when h5py
 returns str attributes

---
 impactutils/io/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/impactutils/io/container.py b/impactutils/io/container.py
index fa3cbcd..78d2d24 100644
--- a/impactutils/io/container.py
+++ b/impactutils/io/container.py
@@ -460,7 +460,10 @@ class HDFContainer(object):
         # date/time columns in an attribute.  Let's use that
         # now to make sure those are read back in with the appropriate
         # type
-        clist = json.loads(mdataset.attrs['time_columns'].decode('utf-8'))
+        cstr = mdataset.attrs['time_columns']
+        if isinstance(cstr, bytes):  # h5py 3 returns str here
+            cstr = cstr.decode('utf-8')
+        clist = json.loads(cstr)
         dataframe = pd.read_json(outstring, convert_dates=clist)
 
         return dataframe
-- 
2.43.0


From 2d0d62c0672d7e2aea07eb84bdab26fb5b888604 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 15:40:40 +0000
Subject: [PATCH 003/105] fix: container listings do not report empty groups as
 objects

---
 impactutils/io/smcontainers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index cff91ec..b5b0bbc 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -89,9 +89,8 @@ class HDFContainerBase(object):
         except Exception:
             return plist
         for kk in k:
-            paths = self._getGroupPaths(dd[kk])
-            if len(paths) > 0:
-                for path in paths:
+            if isinstance(dd[kk], h5py.Group):
+                for path in self._getGroupPaths(dd[kk]):
                     nn = kk + '/' + path
                     plist.append(nn)
             else:
-- 
2.43.0


From 8df2ae342d67dc5e34cfd1191ea3b20899c718c3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 15:40:40 +0000
Subject: [PATCH 004/105] fix: setArray stores nothing when the metadata cannot
 be stored

---
 impactutils/io/container.py    | 9 +++++++--
 impactutils/io/smcontainers.py | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/impactutils/io/container.py b/impactutils/io/container.py
index 78d2d24..664648b 100644
--- a/impactutils/io/container.py
+++ b/impactutils/io/container.py
@@ -284,8 +284,13 @@ class HDFContainer(object):
         dset = array_group.create_dataset(
             array_name, data=array, compression=compression)
         if metadata:
-            for key, value in metadata.items():
-                dset.attrs[key] = value
+            try:
+                for key, value in metadata.items():
+                    dset.attrs[key] = value
+            except Exception:
+                # do not leave an array without its metadata behind
+                del array_group[array_name]
+                raise
         return dset
 
     def getArray(self, name):
diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index b5b0bbc..e3472fb 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -207,8 +207,13 @@ class HDFContainerBase(object):
         dset = array_group.create_dataset(name, data=array,
                                           compression=compression)
         if metadata:
-            for key, value in metadata.items():
-                dset.attrs[key] = value
+            try:
+                for key, value in metadata.items():
+                    dset.attrs[key] = value
+            except Exception:
+                # do not leave an array without its metadata behind
+                del array_group[name]
+                raise
         return dset
 
     def getArray(self, groups, name):
-- 
2.43.0


From 8bb16f01a924a78d6c7c632b2d2ee3f6b101fb5a Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 15:40:40 +0000
Subject: [PATCH 005/105] fix: a rejected ShakeMap container section keeps its
 previous value

---
 impactutils/io/smcontainers.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index e3472fb..8147211 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -340,6 +340,13 @@ class ShakeMapContainerBase(HDFContainerBase):
     Parent class for InputShakeMapContainer and OutputShakeMapContainer.
     """
 
+    def _replaceDictionary(self, name, dictionary):
+        # make sure the new value can be stored before dropping the old one
+        json.dumps(dictionary)
+        if name in self.getDictionaries():
+            self.dropDictionary([], name)
+        self.setDictionary([], name, dictionary)
+
     def setConfig(self, config):
         """
         Add the config as a dictionary to the HDF file.
@@ -348,9 +355,7 @@ class ShakeMapContainerBase(HDFContainerBase):
             config (dict--like): Dict--like object with configuration
                 information.
         """
-        if 'config' in self.getDictionaries():
-            self.dropDictionary([], 'config')
-        self.setDictionary([], 'config', config)
+        self._replaceDictionary('config', config)
 
     def getConfig(self):
         """
@@ -376,12 +381,10 @@ class ShakeMapContainerBase(HDFContainerBase):
             TypeError: If input object or dictionary does not
                 represent a Rupture object.
         """
-        if 'rupture' in self.getDictionaries():
-            self.dropDictionary([], 'rupture')
         if not isinstance(rupture, dict):
             fmt = 'Input dict does not represent a rupture object.'
             raise TypeError(fmt)
-        self.setDictionary([], 'rupture', rupture)
+        self._replaceDictionary('rupture', rupture)
 
     def getRuptureDict(self):
         """
@@ -410,9 +413,7 @@ class ShakeMapContainerBase(HDFContainerBase):
         if not isinstance(stationdict, dict):
             fmt = 'Input object is not a dictionary.'
             raise TypeError(fmt)
-        if 'stations_dict' in self.getDictionaries():
-            self.dropDictionary([], 'stations_dict')
-        self.setDictionary([], 'stations_dict', stationdict)
+        self._replaceDictionary('stations_dict', stationdict)
 
     def getStationDict(self):
         """
@@ -435,9 +436,7 @@ class ShakeMapContainerBase(HDFContainerBase):
         Args:
             history_dict (dict): Dictionary containing version history. ??
         """
-        if 'version_history' in self.getDictionaries():
-            self.dropDictionary([], 'version_history')
-        self.setDictionary([], 'version_history', history_dict)
+        self._replaceDictionary('version_history', history_dict)
         return
 
     def getVersionHistory(self):
@@ -523,9 +522,7 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
         Returns:
             nothing: Nothing.
         """
-        if 'info.json' in self.getDictionaries():
-            self.dropDictionary([], 'info.json')
-        self.setDictionary([], 'info.json', info)
+        self._replaceDictionary('info.json', info)
         return
 
     def getMetadata(self):
-- 
2.43.0


From 0b40de8c01ac489b4ba12e9d0ad9b0748c30bafe Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 15:41:21 +0000
Subject: [PATCH 006/105] fix: a failing IMT store leaves no partial IMT and
 does not decide the file type

---
 impactutils/io/smcontainers.py | 46 +++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index 8147211..3a090e4 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -560,11 +560,16 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
 
         if self.getDataType() == 'points':
             raise TypeError('Setting grid data in a file containing points')
-        self.setDataType('grid')
 
         sub_groups = ['imts', component, imt_name]
-        self.setArray(sub_groups, 'mean', imt_mean, mean_metadata)
-        self.setArray(sub_groups, 'std', imt_std, std_metadata)
+        self._checkNoIMT(imt_name, component)
+        try:
+            self.setArray(sub_groups, 'mean', imt_mean, mean_metadata)
+            self.setArray(sub_groups, 'std', imt_std, std_metadata)
+        except Exception:
+            self._deleteIMT(imt_name, component)
+            raise
+        self.setDataType('grid')
         return
 
     def getIMTGrids(self, imt_name, component):
@@ -636,7 +641,6 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
 
         if self.getDataType() == 'grid':
             raise TypeError('Setting point data in a file containing grids')
-        self.setDataType('points')
 
         #
         # Check that all of the arrays are the same
@@ -653,14 +657,20 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
 
         # create data sets containing the longitudes, latitudes, and ids
 
-        self.setArray(sub_groups, 'lons', lons, compression=compression)
-        self.setArray(sub_groups, 'lats', lats, compression=compression)
-        self.setArray(sub_groups, 'ids', ids, compression=compression)
-
-        self.setArray(sub_groups, 'mean', imt_mean, metadata=mean_metadata,
-                      compression=compression)
-        self.setArray(sub_groups, 'std', imt_std, metadata=std_metadata,
-                      compression=compression)
+        self._checkNoIMT(imt_name, component)
+        try:
+            self.setArray(sub_groups, 'lons', lons, compression=compression)
+            self.setArray(sub_groups, 'lats', lats, compression=compression)
+            self.setArray(sub_groups, 'ids', ids, compression=compression)
+
+            self.setArray(sub_groups, 'mean', imt_mean,
+                          metadata=mean_metadata, compression=compression)
+            self.setArray(sub_groups, 'std', imt_std,
+                          metadata=std_metadata, compression=compression)
+        except Exception:
+            self._deleteIMT(imt_name, component)
+            raise
+        self.setDataType('points')
         return
 
     def getIMTArrays(self, imt_name, component):
@@ -764,6 +774,18 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
                     components.append(component)
             return components
 
+    def _checkNoIMT(self, imt_name, component):
+        if component in self.getComponents(imt_name):
+            raise LookupError(
+                f'{component}/{imt_name} already exists in '
+                f'{self.getFileName()}')
+
+    def _deleteIMT(self, imt_name, component):
+        # remove whatever is stored for one IMT of one component
+        imts = self._hdfobj['arrays']['imts']
+        if component in imts and imt_name in imts[component]:
+            del imts[component][imt_name]
+
     def dropIMT(self, imt_name):
         """
         Delete IMT datasets from container.
-- 
2.43.0


From e6d0da455689b2ffe5c3e20db4ba611f8b3fbc22 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 15:41:21 +0000
Subject: [PATCH 007/105] fix: components without any IMT left are no longer
 listed

---
 impactutils/io/smcontainers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index 3a090e4..600ba77 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -746,6 +746,8 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
                     imts.append(comp + '/' + imt)
             return imts
         else:
+            if component not in self._hdfobj['arrays']['imts']:
+                return imts
             imtlist = self._hdfobj['arrays']['imts'][component].keys()
             for imt in imtlist:
                 imts.append(imt)
@@ -785,6 +787,8 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
         imts = self._hdfobj['arrays']['imts']
         if component in imts and imt_name in imts[component]:
             del imts[component][imt_name]
+            if not len(imts[component]):
+                del imts[component]
 
     def dropIMT(self, imt_name):
         """
@@ -800,4 +804,4 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
                 f'No IMTs stored in HDF file {self.getFileName()}')
         components = self.getComponents(imt_name)
         for comp in components:
-            del self._hdfobj['arrays']['imts'][comp][imt_name]
+            self._deleteIMT(imt_name, comp)
-- 
2.43.0


From 69fbc20da56bd9cb0fc34eb9d039f1e9fe0a5eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 15:43:40 +0000
Subject: [PATCH 008/105] fix: setString refuses embedded NULs before creating
 the dataset

---
 impactutils/io/container.py    | 3 +++
 impactutils/io/smcontainers.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/impactutils/io/container.py b/impactutils/io/container.py
index 664648b..c847f13 100644
--- a/impactutils/io/container.py
+++ b/impactutils/io/container.py
@@ -366,6 +366,9 @@ class HDFContainer(object):
             string_group = self._hdfobj[GROUPS['string']]
 
         inbytes = instring.encode('utf-8')
+        if b'\0' in inbytes:
+            # h5py notices this only after creating the dataset
+            raise ValueError('Strings with embedded NULs cannot be stored.')
         mdataset = string_group.create_dataset(string_name, data=inbytes)
 
         return mdataset
diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index 600ba77..f36eddf 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -284,6 +284,9 @@ class HDFContainerBase(object):
         """
         string_group = self._makeGroup('strings', groups)
         inbytes = instring.encode('utf-8')
+        if b'\0' in inbytes:
+            # h5py notices this only after creating the dataset
+            raise ValueError('Strings with embedded NULs cannot be stored.')
         string_group.create_dataset(name, data=inbytes)
         return
 
-- 
2.43.0


From c0cd84ba5324a45ef26768b3149f5a63c9da398c Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 15:44:20 +0000
Subject: [PATCH 009/105] fix: HDFContainer data frames of more than ten rows
 keep their row order

---
 impactutils/io/container.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/impactutils/io/container.py b/impactutils/io/container.py
index c847f13..1265a01 100644
--- a/impactutils/io/container.py
+++ b/impactutils/io/container.py
@@ -473,6 +473,8 @@ class HDFContainer(object):
             cstr = cstr.decode('utf-8')
         clist = json.loads(cstr)
         dataframe = pd.read_json(outstring, convert_dates=clist)
+        # read_json orders row labels as strings ('10' before '2')
+        dataframe = dataframe.sort_index()
 
         return dataframe
 
-- 
2.43.0


From 0437036526fb2943fe312b9fe0b366217839d1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 15:49:33 +0000
Subject: [PATCH 010/105] fix: Sender.addFiles works and missing directories
 raise FileNotFoundError

---
 impactutils/transfer/sender.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/impactutils/transfer/sender.py b/impactutils/transfer/sender.py
index f402a13..5850659 100644
--- a/impactutils/transfer/sender.py
+++ b/impactutils/transfer/sender.py
@@ -65,7 +65,7 @@ class Sender(object):
         if local_directory is not None:
             if not os.path.isdir(local_directory):
                 raise FileNotFoundError(
-                    f'Input directory {directory} could not be found')
+                    f'Input directory {local_directory} could not be found')
         if local_files is not None:
             self._local_files = local_files
         else:
@@ -82,7 +82,7 @@ class Sender(object):
         self._properties[key] = value
 
     def addFiles(self, local_files):
-        for f in files:
+        for f in local_files:
             if not os.path.isfile(f):
                 raise FileNotFoundError(f'Input file {f} could not be found')
         self._local_files += local_files
@@ -90,7 +90,7 @@ class Sender(object):
     def changeDirectory(self, local_directory, directory_alias=None):
         if not os.path.isdir(local_directory):
             raise FileNotFoundError(
-                f'Input directory {directory} could not be found')
+                f'Input directory {local_directory} could not be found')
         self._local_directory = local_directory
         self._directory_alias = directory_alias
 
-- 
2.43.0


From 42abaad836a161a0e842b2d8c4ab6e9f8c18e64e Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 15:49:34 +0000
Subject: [PATCH 011/105] fix: CopySender counts each file of a directory once

---
 impactutils/transfer/copysender.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/impactutils/transfer/copysender.py b/impactutils/transfer/copysender.py
index 891bd02..a73feec 100755
--- a/impactutils/transfer/copysender.py
+++ b/impactutils/transfer/copysender.py
@@ -76,9 +76,6 @@ class CopySender(Sender):
                     filename, remote_folder, local_folder=local_folder)
                 nfiles += 1
 
-            nfiles += sum([len(files)
-                           for r, d, files in os.walk(local_folder)])
-
         # copy files to remote location
         for filename in self._local_files:
             self._copy_file_with_path(filename, remote_folder)
-- 
2.43.0


From b50aaa30e925f33d62f7480a05a0a571de595ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 15:49:34 +0000
Subject: [PATCH 012/105] fix: senders place directory files by their path
 relative to that directory

Removing the directory name textually dropped every later occurrence of it
and, for CopySender, turned relative remote directories into absolute ones.
---
 impactutils/transfer/copysender.py   | 7 ++-----
 impactutils/transfer/emailsender.py  | 4 ++--
 impactutils/transfer/ftpsender.py    | 4 ++--
 impactutils/transfer/securesender.py | 7 ++-----
 4 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/impactutils/transfer/copysender.py b/impactutils/transfer/copysender.py
index a73feec..2d09ee4 100755
--- a/impactutils/transfer/copysender.py
+++ b/impactutils/transfer/copysender.py
@@ -133,11 +133,8 @@ class CopySender(Sender):
                 name (not preserving path) into remote_folder.
         """
         if local_folder is not None:
-            local_parts = local_file.replace(local_folder, '').strip(
-                os.path.sep).split(os.path.sep)
-            remote_parts = remote_folder.strip(os.path.sep).split(os.path.sep)
-            all_parts = [os.path.sep] + remote_parts + local_parts
-            remote_file = os.path.join(*all_parts)
+            remote_file = os.path.join(
+                remote_folder, os.path.relpath(local_file, local_folder))
             root, rfile = os.path.split(remote_file)
             if not os.path.isdir(root):
                 os.makedirs(root)
diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 35903be..854672b 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -168,8 +168,8 @@ class EmailSender(Sender):
                         if self._local_directory:
                             allfiles = self.getAllLocalFiles()
                             for filename in allfiles:
-                                arcname = filename.replace(
-                                    self._local_directory, '')
+                                arcname = os.path.relpath(
+                                    filename, self._local_directory)
                                 myzip.write(filename, arcname)
                         myzip.close()
                         attachments.append(zfilename)
diff --git a/impactutils/transfer/ftpsender.py b/impactutils/transfer/ftpsender.py
index f736392..18f0ade 100755
--- a/impactutils/transfer/ftpsender.py
+++ b/impactutils/transfer/ftpsender.py
@@ -228,8 +228,8 @@ class FTPSender(Sender):
             ftp.cwd(remote_folder)
             self.__sendfile(filename, ftp)
         else:
-            local_parts = local_file.replace(local_folder, '').strip(
-                os.path.sep).split(os.path.sep)
+            local_parts = os.path.relpath(
+                local_file, local_folder).split(os.path.sep)
             remote_parts = self._split(remote_folder)
             all_parts = remote_parts + local_parts
             remote_file = '/' + '/'.join(all_parts)
diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index b6138fe..3d4a1fc 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -198,11 +198,8 @@ class SecureSender(Sender):
         """
         remote_host = self._properties['remote_host']
         if local_folder is not None:
-            local_parts = local_file.replace(local_folder, '').strip(
-                os.path.sep).split(os.path.sep)
-            remote_parts = remote_folder.strip(os.path.sep).split(os.path.sep)
-            all_parts = [os.path.sep] + remote_parts + local_parts
-            remote_file = os.path.join(*all_parts)
+            remote_file = os.path.join(
+                remote_folder, os.path.relpath(local_file, local_folder))
             root, rfile = os.path.split(remote_file)
             exists, isdir = self._check_remote_folder(ssh, root)
             if not isdir:
-- 
2.43.0


From 95269e6ca1cebf8df3f31c940814c7bc6e287bee Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 15:57:13 +0000
Subject: [PATCH 013/105] fix: EdgeRupture.getQuadrilaterals returns the
 quadrilaterals of every group

---
 impactutils/rupture/edge_rupture.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/impactutils/rupture/edge_rupture.py b/impactutils/rupture/edge_rupture.py
index b65a0ab..9ac9034 100755
--- a/impactutils/rupture/edge_rupture.py
+++ b/impactutils/rupture/edge_rupture.py
@@ -503,18 +503,18 @@ class EdgeRupture(Rupture):
             ind = np.where(self._group_index == ugroup[i])[0]
             nq = len(ind) - 1
             for j in range(nq):
-                P0 = Point(self._toplons[j],
-                           self._toplats[j],
-                           self._topdeps[j])
-                P1 = Point(self._toplons[j + 1],
-                           self._toplats[j + 1],
-                           self._topdeps[j + 1])
-                P2 = Point(self._botlons[j + 1],
-                           self._botlats[j + 1],
-                           self._botdeps[j + 1])
-                P3 = Point(self._botlons[j],
-                           self._botlats[j],
-                           self._botdeps[j])
+                P0 = Point(self._toplons[ind[j]],
+                           self._toplats[ind[j]],
+                           self._topdeps[ind[j]])
+                P1 = Point(self._toplons[ind[j + 1]],
+                           self._toplats[ind[j + 1]],
+                           self._topdeps[ind[j + 1]])
+                P2 = Point(self._botlons[ind[j + 1]],
+                           self._botlats[ind[j + 1]],
+                           self._botdeps[ind[j + 1]])
+                P3 = Point(self._botlons[ind[j]],
+                           self._botlats[ind[j]],
+                           self._botdeps[ind[j]])
                 qlist.append([P0, P1, P2, P3])
 
         return qlist
-- 
2.43.0


From e65df799585c3e837f11298175b3e137c5e28bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 15:58:13 +0000
Subject: [PATCH 014/105] fix: getDepthAtPoint interpolates between top and
 bottom depth

---
 impactutils/rupture/quad_rupture.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/impactutils/rupture/quad_rupture.py b/impactutils/rupture/quad_rupture.py
index 7a5c52f..b97d59c 100755
--- a/impactutils/rupture/quad_rupture.py
+++ b/impactutils/rupture/quad_rupture.py
@@ -137,8 +137,8 @@ class QuadRupture(Rupture):
         # dot product
         sxdd = ddn.dot(s0sx)
 
-        # get width of quad (convert from km to m)
-        w = get_quad_width(quad) * 1000
+        # get width of quad (km, like the projected coordinates)
+        w = get_quad_width(quad)
 
         # Get weights for top and bottom edge depths
         N = get_quad_normal(quad)
@@ -149,7 +149,7 @@ class QuadRupture(Rupture):
         wtb = sxdd / ws
 
         # Compute the depth of of the plane at Px:
-        depth = wtt * P0.z + wtb * P3.z * 1000
+        depth = wtt * P0.z + wtb * P3.z
 
         return depth
 
-- 
2.43.0


From 78ac765f03f6a4475961cf89e362bfa713a53205 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 15:58:41 +0000
Subject: [PATCH 015/105] fix: is_quad measures the fourth point against the
 plane of the other three

---
 impactutils/rupture/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/rupture/utils.py b/impactutils/rupture/utils.py
index b42275c..c7d0446 100755
--- a/impactutils/rupture/utils.py
+++ b/impactutils/rupture/utils.py
@@ -44,7 +44,7 @@ def is_quad(q):
     new_p2 = p3 + v0 * d
 
     # How far off of the plane is the origin p2?
-    planepoints = [p0, p1, p2]
+    planepoints = [p0, p1, p3]
     dist = get_distance_to_plane(planepoints, p2)
 
     # Is it close enough?
-- 
2.43.0


From f5653da90cb40debedb78b4bb128d5e4ca4df59e Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 15:58:54 +0000
Subject: [PATCH 016/105] fix: GC2 of an EdgeRupture uses one group index per
 quadrilateral

---
 impactutils/rupture/base.py         | 7 +++++++
 impactutils/rupture/edge_rupture.py | 9 +++++++++
 impactutils/rupture/gc2.py          | 2 +-
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/impactutils/rupture/base.py b/impactutils/rupture/base.py
index 78dc067..b8d30f3 100755
--- a/impactutils/rupture/base.py
+++ b/impactutils/rupture/base.py
@@ -263,6 +263,13 @@ class Rupture(ABC):
         """
         pass
 
+    def _getQuadGroupIndex(self):
+        """
+        Returns:
+            list: Group index of each quadrilateral.
+        """
+        return self._getGroupIndex()
+
     def plot3d(self):  # pragma: no cover
         """
         Method for making a quick 3D wireframe plot of rupture.
diff --git a/impactutils/rupture/edge_rupture.py b/impactutils/rupture/edge_rupture.py
index 9ac9034..c057f3c 100755
--- a/impactutils/rupture/edge_rupture.py
+++ b/impactutils/rupture/edge_rupture.py
@@ -372,6 +372,15 @@ class EdgeRupture(Rupture):
         """
         return copy.deepcopy(self._group_index)
 
+    def _getQuadGroupIndex(self):
+        """
+        Returns:
+            list: Group index of each quadrilateral (the group index of an
+                EdgeRupture has one entry per top edge vertex).
+        """
+        groups = self._group_index
+        return [g for i, g in enumerate(groups[:-1]) if groups[i + 1] == g]
+
     def _computeStrikeDip(self):
         """
         Loop over all triangles and get the average normal, north, and up
diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index 6a7687a..73a30a3 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -60,7 +60,7 @@ def _computeGC2(rupture, lon, lat, depth):
     # First sort out strike discordance and nominal strike prior to
     # starting the loop if there is more than one group/trace.
     # -------------------------------------------------------------------------
-    group_ind = rupture._getGroupIndex()
+    group_ind = rupture._getQuadGroupIndex()
 
     # Need group_ind as numpy array for sensible indexing...
     group_ind_np = np.array(group_ind)
-- 
2.43.0


From 83f8a1b08ef3acafc4cef19f7e7e85d2dee01a08 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 15:59:43 +0000
Subject: [PATCH 017/105] fix: GC2 picks the most distant endpoints of
 multi-segment traces

---
 impactutils/rupture/gc2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index 73a30a3..f1418a7 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -105,9 +105,9 @@ def _computeGC2(rupture, lon, lat, depth):
             else:
                 P0 = quadlist[iq1[s0ind]][1]
             if p1ind == 0:
-                P1 = quadlist[iq1[s1ind]][0]
+                P1 = quadlist[iq0[s1ind]][0]
             else:
-                P1 = quadlist[iq0[s1ind]][1]
+                P1 = quadlist[iq1[s1ind]][1]
 
             dist = geodetic.distance(P0.longitude, P0.latitude, 0.0,
                                      P1.longitude, P1.latitude, 0.0)
-- 
2.43.0


From f39b39cc57f34468e859c0694bfdb2466daa8028 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 16:00:19 +0000
Subject: [PATCH 018/105] fix: Ry0 is measured off the end of the rupture
 whatever the group order

---
 impactutils/rupture/gc2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index f1418a7..b2ed0d0 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -185,6 +185,7 @@ def _computeGC2(rupture, lon, lat, depth):
         # End of if-statement for adjusting group discordancy
 
     s_i = 0.0
+    s_max = -np.inf
     l_i = np.zeros(len(quadgc2))
 
     for i in range(len(quadgc2)):
@@ -239,6 +240,7 @@ def _computeGC2(rupture, lon, lat, depth):
             # s_ij_2 = (p1 - p_origin).dot(bhat) / 1000.0
 
             s_ij = s_ij_1 + s_ij_2
+            s_max = max(s_max, s_ij + l_i[i])
             GC2U = GC2U + w_i * (u_i + s_ij)
 
         s_i = s_i + l_i[i]
@@ -267,7 +269,7 @@ def _computeGC2(rupture, lon, lat, depth):
     ix = GC2U < 0
     Ry0[ix] = np.abs(GC2U[ix])
     if n_groups > 1:
-        s_i = s_ij + l_i[-1]
+        s_i = s_max
     ix = GC2U > s_i
     Ry0[ix] = GC2U[ix] - s_i
     Ry0 = Ry0.reshape(oldshape)
-- 
2.43.0


From 39168db29c3d36ea2d4609e27007acc8c64e36cd Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 16:01:53 +0000
Subject: [PATCH 019/105] fix: GC2 coordinates of sites on the rupture trace

---
 impactutils/rupture/gc2.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index b2ed0d0..020413a 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -188,6 +188,10 @@ def _computeGC2(rupture, lon, lat, depth):
     s_max = -np.inf
     l_i = np.zeros(len(quadgc2))
 
+    # Sites that lie on the trace itself and their U coordinate
+    on_trace = np.zeros(newshape, dtype=bool)
+    u_trace = np.zeros(newshape, dtype=lon.dtype)
+
     for i in range(len(quadgc2)):
         G0, G1, G2, G3 = quadgc2[i]
 
@@ -205,9 +209,8 @@ def _computeGC2(rupture, lon, lat, depth):
         # Case 3: t_i == 0 and 0 <= u_i <= l_i
         w_i = np.zeros_like(t_i)
 
-        # To avoid division by zero in totweight later on:
-        ix = (t_i == 0) & (0 <= u_i) & (u_i <= l_i[i])
-        totweight[ix] = 1.0
+        ix_trace = (t_i == 0) & (0 <= u_i) & (u_i <= l_i[i])
+        on_trace |= ix_trace
 
         # Case 1:
         ix = t_i != 0
@@ -223,6 +226,7 @@ def _computeGC2(rupture, lon, lat, depth):
 
         if n_groups == 1:
             GC2U = GC2U + w_i * (u_i + s_i)
+            u_trace[ix_trace] = u_i[ix_trace] + s_i
         else:
             if i == 0:
                 qind = np.array(range(len(quadgc2)))
@@ -242,11 +246,17 @@ def _computeGC2(rupture, lon, lat, depth):
             s_ij = s_ij_1 + s_ij_2
             s_max = max(s_max, s_ij + l_i[i])
             GC2U = GC2U + w_i * (u_i + s_ij)
+            u_trace[ix_trace] = u_i[ix_trace] + s_ij
 
         s_i = s_i + l_i[i]
 
+    # To avoid division by zero:
+    totweight[on_trace] = 1.0
+
     GC2T = GC2T / totweight
     GC2U = GC2U / totweight
+    GC2T[on_trace] = 0.0
+    GC2U[on_trace] = u_trace[on_trace]
 
     # Dictionary for holding the distances
     distdict = dict()
-- 
2.43.0


From f98b30dd0acb5dee6f036fe4a79dea7900717743 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 16:03:15 +0000
Subject: [PATCH 020/105] fix: rupture text files may separate coordinates by
 commas in both formats

---
 impactutils/rupture/factory.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/impactutils/rupture/factory.py b/impactutils/rupture/factory.py
index ca57dd9..aeb9597 100644
--- a/impactutils/rupture/factory.py
+++ b/impactutils/rupture/factory.py
@@ -322,16 +322,11 @@ def text_to_json(file, new_format=True):
             polygon = []
             continue
 
-        # first try to split on whitespace
-        parts = line.split()
+        # split on whitespace and/or commas
+        parts = line.replace(',', ' ').split()
         if len(parts) == 1:
-            if new_format:
-                raise Exception(
-                    f'Rupture file {file} has unspecified delimiters.')
-            parts = line.split(',')
-            if len(parts) == 1:
-                raise Exception(
-                    f'Rupture file {file} has unspecified delimiters.')
+            raise Exception(
+                f'Rupture file {file} has unspecified delimiters.')
 
         if len(parts) != 3:
             msg = f'Rupture file {file} is not in lat, lon, depth format.'
-- 
2.43.0


From ef4fcfb02a0af0452f24ced425412c2f7ced96d6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 16:03:32 +0000
Subject: [PATCH 021/105] fix: get_distance does not change the mesh spacing of
 the rupture

---
 impactutils/rupture/distance.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/distance.py b/impactutils/rupture/distance.py
index 3684f23..4c30822 100755
--- a/impactutils/rupture/distance.py
+++ b/impactutils/rupture/distance.py
@@ -168,8 +168,6 @@ def get_distance(methods, lat, lon, dep, rupture, dx=0.5):
     Returns:
        dict: dictionary of numpy arrays of distances, size of lon.shape.
     """
-    rupture._mesh_dx = dx
-
     # Dictionary for holding/returning the requested distances
     distdict = dict()
 
@@ -189,6 +187,11 @@ def get_distance(methods, lat, lon, dep, rupture, dx=0.5):
         raise ConsistentLengthError(
             'lat, lon, and dep must have the same shape.')
 
+    if isinstance(rupture, EdgeRupture):
+        # Use the requested mesh spacing without changing the input rupture
+        rupture = copy.copy(rupture)
+        rupture._mesh_dx = dx
+
     # -------------------------------------------------------------------------
     # Point distances
     # -------------------------------------------------------------------------
-- 
2.43.0


From 21c9a2e45faf9e07530e1cc29bf6407562ff6521 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 16:04:58 +0000
Subject: [PATCH 022/105] fix: HistoricTime.strftime works for every year
 before 1900

---
 impactutils/time/ancient_time.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/impactutils/time/ancient_time.py b/impactutils/time/ancient_time.py
index 5d852c7..8e5eff4 100755
--- a/impactutils/time/ancient_time.py
+++ b/impactutils/time/ancient_time.py
@@ -1,6 +1,5 @@
 #!/usr/bin/env python
 import re
-import warnings
 from datetime import datetime
 
 
@@ -37,16 +36,15 @@ class HistoricTime(datetime):
         assert year < 1900
         factor = (1900 - year - 1) // 400 + 1
         future_year = year + factor * 400
-        assert future_year > 1900
+        assert future_year >= 1900
 
-        format = Specifier('%Y').replace_in(format, year)
+        format = Specifier('%Y').replace_in(format, f'{year:04d}')
+        format = Specifier('%G').replace_in(
+            format, f'{self.isocalendar()[0]:04d}')
         result = self.replace(year=future_year).strftime(format)
         if any(f.ispresent_in(format) for f in map(Specifier, ['%c', '%x'])):
             msg = "'%c', '%x' produce unreliable results for year < 1900"
-            if not force:
-                raise ValueError(msg + " use force=True to override")
-            warnings.warn(msg)
-            result = result.replace(str(future_year), str(year))
+            raise ValueError(msg)
         assert (future_year % 100) == (year %
                                        100)  # last two digits are the same
         return result
-- 
2.43.0


From 061a82a1c42f5dddbfdb9104acde0aa950d6db01 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 16:06:02 +0000
Subject: [PATCH 023/105] fix: reading a point rupture keeps its reference

---
 impactutils/rupture/factory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/factory.py b/impactutils/rupture/factory.py
index aeb9597..4a5eb29 100644
--- a/impactutils/rupture/factory.py
+++ b/impactutils/rupture/factory.py
@@ -130,7 +130,8 @@ def rupture_from_dict_and_origin(rupdict, origin, mesh_dx=0.5):
         rupt = QuadRupture(rupdict, origin)
     else:
         if rupdict['features'][0]['geometry']['type'] == 'Point':
-            rupt = PointRupture(origin)
+            rupt = PointRupture(
+                origin, reference=rupdict['metadata']['reference'])
         else:
             rupt = EdgeRupture(rupdict, origin, mesh_dx=mesh_dx)
 
@@ -178,7 +179,7 @@ def rupture_from_dict(d):
         else:
             rupt = QuadRupture(d, origin)
     elif geo_type == 'Point':
-        rupt = PointRupture(origin)
+        rupt = PointRupture(origin, reference=d['metadata']['reference'])
 
     return rupt
 
-- 
2.43.0


From d2eaaef9fe4a778428cc63d6927ab43443c3c9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 16:27:27 +0000
Subject: [PATCH 024/105] fix: Rjb of vertical ruptures whose surface
 projection has no area

---
 impactutils/rupture/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/utils.py b/impactutils/rupture/utils.py
index c7d0446..2b5cf6b 100755
--- a/impactutils/rupture/utils.py
+++ b/impactutils/rupture/utils.py
@@ -444,8 +444,14 @@ def _quad_distance(q, points, horizontal=False):
     p2 = Vector.fromPoint(P2)
     p3 = Vector.fromPoint(P3)
 
-    # Make a unit vector normal to the plane
-    normalVector = (p1 - p0).cross(p2 - p0).norm()
+    if horizontal:
+        # The normal of the projected quad is the vertical. The cross product
+        # of its sides is undefined or horizontal for vertical ruptures,
+        # whose projection has no area.
+        normalVector = (p0 + p1 + p2 + p3).norm()
+    else:
+        # Make a unit vector normal to the plane
+        normalVector = (p1 - p0).cross(p2 - p0).norm()
 
     dist = np.ones_like(points[:, 0]) * np.nan
 
-- 
2.43.0


From e37a1b683ba72e8deba9abaaba4d34346d859911 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 16:34:12 +0000
Subject: [PATCH 025/105] fix: GC2 coordinates of sites in line with a segment

---
 impactutils/rupture/gc2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index 020413a..fd57754 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -199,6 +199,10 @@ def _computeGC2(rupture, lon, lat, depth):
         t_i = __calc_t_i(G0, G1, lat, lon, proj)
         u_i = __calc_u_i(G0, G1, lat, lon, proj)
 
+        # Sites in line with the segment, except for numerical noise (the
+        # weights of case 1 cancel out for them)
+        t_i[np.abs(t_i) < 1e-6] = 0.0
+
         # Quad length (top edge)
         l_i[i] = get_quad_length(quadgc2[i])
 
-- 
2.43.0


From c30a96e190cf3e61a99b570e827142a127755e14 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 16:38:25 +0000
Subject: [PATCH 026/105] fix: GC2 of quad ruptures whose groups are given
 against their strike

---
 impactutils/rupture/gc2.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index fd57754..f2c4298 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -29,7 +29,8 @@ def _computeGC2(rupture, lon, lat, depth):
             "ry", "ry0".
     """
 
-    quadlist = rupture.getQuadrilaterals()
+    quadlist = __sort_quads(rupture.getQuadrilaterals(),
+                            rupture._getQuadGroupIndex())
     quadgc2 = copy.deepcopy(quadlist)
 
     oldshape = lon.shape
@@ -292,6 +293,34 @@ def _computeGC2(rupture, lon, lat, depth):
     return distdict
 
 
+def __distance(P0, P1):
+    return geodetic.distance(P0.longitude, P0.latitude, 0.0,
+                             P1.longitude, P1.latitude, 0.0)
+
+
+def __sort_quads(quads, group_ind):
+    """
+    Put the quads of each group in the order of their strike. A group that was
+    given against its strike has its quads reversed but not their order.
+
+    Args:
+        quads (list): List of quadrilaterals.
+        group_ind (list): Group index of each quadrilateral.
+
+    Returns:
+        list: List of quadrilaterals, with the same group indexes.
+    """
+    quads = list(quads)
+    for group in np.unique(group_ind):
+        ind = [i for i, j in enumerate(group_ind) if j == group]
+        if all(__distance(quads[i][0], quads[j][1]) <
+               __distance(quads[i][1], quads[j][0])
+               for i, j in zip(ind[:-1], ind[1:])):
+            for i, q in zip(ind, [quads[i] for i in ind[::-1]]):
+                quads[i] = q
+    return quads
+
+
 def __calc_u_i(P0, P1, lat, lon, proj):
     """
     Calculate u_i distance. See Spudich and Chiou OFR 2015-1028. This is the
-- 
2.43.0


From 875ef85094d9bda480365836193fde073d808e45 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 16:49:29 +0000
Subject: [PATCH 027/105] fix: strike and dip of exactly vertical edge ruptures

---
 impactutils/rupture/edge_rupture.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/impactutils/rupture/edge_rupture.py b/impactutils/rupture/edge_rupture.py
index c057f3c..2747a95 100755
--- a/impactutils/rupture/edge_rupture.py
+++ b/impactutils/rupture/edge_rupture.py
@@ -470,11 +470,12 @@ class EdgeRupture(Rupture):
 
         # Do I need to flip the vector because it is pointing down (i.e.,
         # right-hand rule is violated)?
-        flip = np.sign(up_vec.dot(norm_vec))
-        norm_vec = flip * norm_vec
+        if up_vec.dot(norm_vec) < 0:
+            norm_vec = -1 * norm_vec
 
         # Angle between up_vec and norm_vec is dip
-        self._dip = np.arcsin(up_vec.cross(norm_vec).mag()) * 180 / np.pi
+        self._dip = np.arctan2(up_vec.cross(norm_vec).mag(),
+                               up_vec.dot(norm_vec)) * 180 / np.pi
 
         # Normal vector projected to horizontal plane
         nvph = (norm_vec - up_vec.dot(norm_vec) * up_vec).norm()
-- 
2.43.0


From a8627f0e20a7fb457b6ed6cf6496c7c92660ebff Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 16:49:29 +0000
Subject: [PATCH 028/105] fix: read_event_file reads files with separate date
 and time attributes

---
 impactutils/rupture/origin.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/impactutils/rupture/origin.py b/impactutils/rupture/origin.py
index ba3505c..703e888 100755
--- a/impactutils/rupture/origin.py
+++ b/impactutils/rupture/origin.py
@@ -381,13 +381,13 @@ def read_event_file(eventxml):
            'day' not in xmldict or 'hour' not in xmldict or \
            'minute' not in xmldict or 'second' not in xmldict:
             raise ValueError("Missing date/time elements in event file.")
-        eqdict['time'] = HistoricTime.datetime(
-            xmldict['year'],
-            xmldict['month'],
-            xmldict['day'],
-            xmldict['hour'],
-            xmldict['minute'],
-            xmldict['second'])
+        eqdict['time'] = HistoricTime(
+            int(xmldict['year']),
+            int(xmldict['month']),
+            int(xmldict['day']),
+            int(xmldict['hour']),
+            int(xmldict['minute']),
+            int(float(xmldict['second'])))
 
     eqdict['lat'] = float(xmldict['lat'])
     eqdict['lon'] = float(xmldict['lon'])
-- 
2.43.0


From c1ce89e6a2e401f1bdc5b6f81b01b379836774f9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 16:49:29 +0000
Subject: [PATCH 029/105] fix: read_source accepts blank lines and values that
 contain '='

---
 impactutils/rupture/origin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/origin.py b/impactutils/rupture/origin.py
index 703e888..f162897 100755
--- a/impactutils/rupture/origin.py
+++ b/impactutils/rupture/origin.py
@@ -423,9 +423,9 @@ def read_source(sourcefile):
         f = sourcefile
     params = {}
     for line in f.readlines():
-        if line.startswith('#'):
+        if line.startswith('#') or not line.strip():
             continue
-        parts = line.split('=')
+        parts = line.split('=', 1)
         key = parts[0].strip()
         value = parts[1].strip()
         # see if this is some sort of number
-- 
2.43.0


From 2b6208b7415599aaba76f385d119cf9c6d1df52c Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 17:38:09 +0000
Subject: [PATCH 030/105] fix: HistoricTime.strftime refuses %c and %x wherever
 they occur

---
 impactutils/time/ancient_time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/time/ancient_time.py b/impactutils/time/ancient_time.py
index 8e5eff4..e9eba11 100755
--- a/impactutils/time/ancient_time.py
+++ b/impactutils/time/ancient_time.py
@@ -13,8 +13,8 @@ class Specifier(str):
         return self
 
     def ispresent_in(self, format):
-        m = self._regex.search(format)
-        return m and m.group(1).count('%') & 1  # odd number of '%'
+        return any(m.group(1).count('%') & 1  # odd number of '%'
+                   for m in self._regex.finditer(format))
 
     def replace_in(self, format, by):
         def repl(m):
-- 
2.43.0


From b6bd558edb25118ba5ec7bedb6f30c8213d9ed5f Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 17:38:27 +0000
Subject: [PATCH 031/105] fix: LocalTimeNE uses valid UTM projections

---
 impactutils/time/timeutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index bad0ff5..f9480d2 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -317,9 +317,9 @@ class LocalTimeNE(LocalTime):
             if xmin > xmax:
                 xmin -= 360
             clon = (xmin + xmax) / 2
-            hem = 'N'
+            hem = ''
             if lat < 0:
-                hem = 'S'
+                hem = ' +south'
             utmzone = _get_utm_zone(clon)
             utmstr = (f'+proj=utm +zone={int(utmzone):d}{hem} '
                       '+ellps=WGS84 +datum=WGS84 +units=m +no_defs')
-- 
2.43.0


From 243e319f26cc7d929b80e5c2c25c1363b8d6aa1c Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 17:38:43 +0000
Subject: [PATCH 032/105] fix: local times close to a summer-time switch use
 the offset at that UTC time

---
 impactutils/time/timeutils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index f9480d2..11982ed 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -81,6 +81,11 @@ def _get_utm_zone(clon):
     return zone
 
 
+def _get_utc_offset(timezone, utctime):
+    # pytz would take a naive time handed to timezone.utcoffset() as local time
+    return pytz.utc.localize(utctime).astimezone(timezone).utcoffset()
+
+
 class ElapsedTime(object):
     def __init__(self):
         pass
@@ -244,7 +249,7 @@ class LocalTime(object):
 
             if is_inside:
                 mytz = pytz.timezone(timezone)
-                utcoffset = mytz.utcoffset(utctime)
+                utcoffset = _get_utc_offset(mytz, utctime)
                 local_time = utctime + utcoffset
                 break
         if local_time is None:
@@ -346,7 +351,7 @@ class LocalTimeNE(LocalTime):
                     timezone = 'undefined'
                 if timezone != 'undefined':
                     mytz = pytz.timezone(timezone)
-                    utcoffset = mytz.utcoffset(utctime)
+                    utcoffset = _get_utc_offset(mytz, utctime)
                     local_time = utctime + utcoffset
                 else:
                     offset_hours = f['properties']['zone']
-- 
2.43.0


From 0b5e282e2aeb1a925fc2e204d8b1767adccfa7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 17:38:58 +0000
Subject: [PATCH 033/105] fix: LocalTime.getTimeZone works and nautical offsets
 are timedeltas

---
 impactutils/time/timeutils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index 11982ed..25cad93 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -254,8 +254,9 @@ class LocalTime(object):
                 break
         if local_time is None:
             # this is effectively nautical time as the ultimate failover.
-            utcoffset = round(lon / 15)
-            local_time = utctime + timedelta(seconds=utcoffset * 3600)
+            utcoffset = timedelta(hours=round(lon / 15))
+            local_time = utctime + utcoffset
+            timezone = 'undefined'
         self._local_time = local_time
         self._timezone_str = timezone
         self._utcoffset = utcoffset
@@ -277,7 +278,7 @@ class LocalTime(object):
         return self._utcoffset
 
     def getTimeZone(self):
-        return self._timezone
+        return self._timezone_str
 
     def update(self, utctime, lat, lon):
         self._lat = lat
@@ -361,8 +362,9 @@ class LocalTimeNE(LocalTime):
                 break
         if local_time is None:
             # this is effectively nautical time as the ultimate failover.
-            utcoffset = round(lon / 15)
-            local_time = utctime + timedelta(seconds=utcoffset * 3600)
+            utcoffset = timedelta(hours=round(lon / 15))
+            local_time = utctime + utcoffset
+            timezone = 'undefined'
         self._local_time = local_time
         self._timezone_str = timezone
         self._utcoffset = utcoffset
-- 
2.43.0


From 5b3d146348da60b51f16a9ab0bb2f244eb905c3f Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 17:39:13 +0000
Subject: [PATCH 034/105] fix: TimeConversion honours rounding_method in its
 time conversions

---
 impactutils/time/timeutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index 25cad93..273a78c 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -552,7 +552,7 @@ class TimeConversion(object):
         Returns:
             Datetime object for the local time.
         """
-        code = self.get_timezone_code(lat, lon)
+        code = self.get_timezone_code(lat, lon, rounding_method)
         timezone = pytz.timezone(code)
         local_time = pytz.utc.localize(utctime).astimezone(timezone)
         return local_time
@@ -572,7 +572,7 @@ class TimeConversion(object):
         Returns:
             Datetime object for the UTC time.
         """
-        code = self.get_timezone_code(lat, lon)
+        code = self.get_timezone_code(lat, lon, rounding_method)
         timezone = pytz.timezone(code)
         # Set the local timezone information
         local = timezone.localize(localtime)
-- 
2.43.0


From e02c1a6e751334cc0737755a8df11cc7f99a1c68 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 17:39:29 +0000
Subject: [PATCH 035/105] fix: TimeConversion rasters may cross the
 antimeridian

---
 impactutils/time/timeutils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index 273a78c..3802e43 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -483,6 +483,14 @@ class TimeConversion(object):
         min_lat = self._extents['Lower Left'][1]
         max_lat = self._extents['Upper Left'][1]
 
+        # A raster that crosses the antimeridian
+        if max_lon < min_lon:
+            max_lon += 360
+            if lon < min_lon:
+                lon += 360
+            if lon - max_lon > min_lon + 360 - lon:
+                lon = min_lon  # the western boundary is closer
+
         # Account for rasters with limited extent
         # If the value is less than or greater than the extent, then set it to
         # the closest boundary
@@ -498,8 +506,6 @@ class TimeConversion(object):
         # Set the resolution in x (longitude) and y (latitude)
         resx = self._resolution[0]
         resy = self._resolution[1]
-        if max_lon < min_lon and lon < min_lon:
-            lon += 360
         col = (lon - min_lon) / resx
         row = (max_lat - lat) / resy
 
-- 
2.43.0


From b7ee9d358fc843f35939890c73ab1ce2a33babf2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 17:39:45 +0000
Subject: [PATCH 036/105] fix: dollar_round of exactly one million in long mode

---
 impactutils/textformat/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/textformat/text.py b/impactutils/textformat/text.py
index c4ff3b1..62f6d4e 100644
--- a/impactutils/textformat/text.py
+++ b/impactutils/textformat/text.py
@@ -126,7 +126,7 @@ def dollar_round(value, digits=2, mode='short'):
         if value >= suffixdict['K'] and value < suffixdict['M']:
             dollar_value = set_num_precision(value / 1e3, digits, mode='float')
             return (f'${dollar_value} thousand')
-        if value > suffixdict['M'] and value < suffixdict['B']:
+        if value >= suffixdict['M'] and value < suffixdict['B']:
             dollar_value = set_num_precision(value / 1e6, digits, mode='float')
             return (f'${dollar_value} million')
         else:
-- 
2.43.0


From 2a24d3439fff7032758fa8aabee6ecdbc3466fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 17:40:05 +0000
Subject: [PATCH 037/105] fix: rounding to fractional steps is exact in decimal

---
 impactutils/textformat/text.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/impactutils/textformat/text.py b/impactutils/textformat/text.py
index 62f6d4e..6a36f66 100644
--- a/impactutils/textformat/text.py
+++ b/impactutils/textformat/text.py
@@ -1,6 +1,7 @@
 #!/usr/bin/python
 
 # stdlib imports
+from fractions import Fraction
 import re
 from math import floor, ceil
 
@@ -174,12 +175,9 @@ def round_to_nearest(value, round_value=1000):
         Value rounded to nearest desired integer.
     """
     if round_value < 1:
-        ds = str(round_value)
-        nd = len(ds) - (ds.find('.') + 1)
-        value = value * 10**nd
-        round_value = round_value * 10**nd
-        value = int(round(float(value) / round_value) * round_value)
-        value = float(value) / 10**nd
+        # exact decimal arithmetic: 0.29 is 29 times 0.01
+        step = Fraction(str(round_value))
+        value = float(round(Fraction(str(value)) / step) * step)
     else:
         value = int(round(float(value) / round_value) * round_value)
 
@@ -197,12 +195,9 @@ def floor_to_nearest(value, floor_value=1000):
         Floored value.
     """
     if floor_value < 1:
-        ds = str(floor_value)
-        nd = len(ds) - (ds.find('.') + 1)
-        value = value * 10**nd
-        floor_value = floor_value * 10**nd
-        value = int(floor(float(value) / floor_value) * floor_value)
-        value = float(value) / 10**nd
+        # exact decimal arithmetic: 0.29 is 29 times 0.01
+        step = Fraction(str(floor_value))
+        value = float(floor(Fraction(str(value)) / step) * step)
     else:
         value = int(floor(float(value) / floor_value) * floor_value)
     return value
@@ -219,12 +214,9 @@ def ceil_to_nearest(value, ceil_value=1000):
         Ceiled value.
     """
     if ceil_value < 1:
-        ds = str(ceil_value)
-        nd = len(ds) - (ds.find('.') + 1)
-        value = value * 10**nd
-        ceil_value = ceil_value * 10**nd
-        value = int(ceil(float(value) / ceil_value) * ceil_value)
-        value = float(value) / 10**nd
+        # exact decimal arithmetic: 0.29 is 29 times 0.01
+        step = Fraction(str(ceil_value))
+        value = float(ceil(Fraction(str(value)) / step) * step)
     else:
         value = int(ceil(float(value) / ceil_value) * ceil_value)
     return value
-- 
2.43.0


From 08ff5e9a699e52b23f72cb65b0d276e803b0fcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 17:44:48 +0000
Subject: [PATCH 038/105] fix: ColorPalette refuses sequences of different
 lengths

---
 impactutils/colors/cpalette.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/colors/cpalette.py b/impactutils/colors/cpalette.py
index 89b6f85..8d8e60a 100644
--- a/impactutils/colors/cpalette.py
+++ b/impactutils/colors/cpalette.py
@@ -55,7 +55,7 @@ POP = {'z0': [0, 4, 49, 99, 499, 999, 4999, 9999],
 
 
 TOPO = {'z0': [-100, 0, 50, 350, 1000, 1800, 2300, 2600, 4000, 9000, 9100],
-        'z1': [0, 50, 350, 1000, 1800, 2300, 2600, 4000, 9000, 9200],
+        'z1': [0, 50, 350, 1000, 1800, 2300, 2600, 4000, 9000, 9100, 9200],
         'rgb0': [(195, 255, 193),
                  (110, 135, 80),
                  (120, 160, 90),
@@ -108,7 +108,7 @@ class ColorPalette(object):
                 transparent, and 255 is opaque.)
         """
         # validate that lengths are all identical
-        if len(z0) != len(z1) != len(rgb0) != len(rgb1):
+        if not len(z0) == len(z1) == len(rgb0) == len(rgb1):
             raise ConsistentLengthError('Lengths of input sequences to ColorPalette() '
                                       'must be identical.')
         self._is_log = is_log
-- 
2.43.0


From 5e359d99b3eb152ed51a7bc421b6b043058fafca Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 17:45:06 +0000
Subject: [PATCH 039/105] fix: ColorPalette accepts any sequence of RGB
 triplets

---
 impactutils/colors/cpalette.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/colors/cpalette.py b/impactutils/colors/cpalette.py
index 8d8e60a..eae27eb 100644
--- a/impactutils/colors/cpalette.py
+++ b/impactutils/colors/cpalette.py
@@ -134,8 +134,8 @@ class ColorPalette(object):
 
         # if we add dummy rows to our rgb sequences, we can do one simple loop
         # through.
-        rgb0_t = rgb0.copy()
-        rgb1_t = rgb1.copy()
+        rgb0_t = list(rgb0)
+        rgb1_t = list(rgb1)
         # append a dummy row to the end of RGB0
         rgb0_t.append((E, E, E))
         # prepend a dummy row to the beginning of RGB1
-- 
2.43.0


From 645a3be952b663050ab3591842dd3bf29fb5cacd Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 17:46:36 +0000
Subject: [PATCH 040/105] fix: Cities.sortByColumns sorts

---
 impactutils/mapping/city.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index 1c70718..41c43fe 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -198,7 +198,8 @@ class Cities(object):
         Raises:
             KeyError: When column(s) are not in the list of dataframe columns.
         """
-        bad_columns = set(columns).difference(set(self._dataframe.columns()))
+        names = [columns] if isinstance(columns, str) else columns
+        bad_columns = set(names).difference(set(self._dataframe.columns))
         if bad_columns:
             raise KeyError(
                 f'Column(s) not in list of DataFrame columns: {str(bad_columns)}')
-- 
2.43.0


From b37381d3a553bcbc6394081a7791302e7c8ca85e Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 17:46:53 +0000
Subject: [PATCH 041/105] fix: Cities.limitByGrid and limitByBounds keep cities
 on the edges

---
 impactutils/mapping/city.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index 41c43fe..834fdeb 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -230,8 +230,8 @@ class Cities(object):
         # TODO: figure out what to do with a meridian crossing?
         newdf = self._dataframe.copy()
         xmin, xmax, ymin, ymax = bounds
-        newdf = newdf.loc[(newdf['lat'] > ymin) & (newdf['lat'] <= ymax) &
-                          (newdf['lon'] > xmin) & (newdf['lon'] <= xmax)]
+        newdf = newdf.loc[(newdf['lat'] >= ymin) & (newdf['lat'] <= ymax) &
+                          (newdf['lon'] >= xmin) & (newdf['lon'] <= xmax)]
         return type(self)(newdf)
 
     def limitByRadius(self, lat, lon, radius):
@@ -303,31 +303,27 @@ class Cities(object):
         xmax = self._dataframe['lon'].max()
         ymin = self._dataframe['lat'].min()
         ymax = self._dataframe['lat'].max()
-        dx = (xmax - xmin) / nx
-        dy = (ymax - ymin) / ny
+        xedges = np.linspace(xmin, xmax, nx + 1)
+        yedges = np.linspace(ymin, ymax, ny + 1)
+        # the cell of each city (the upper edges belong to the cells)
+        cols = np.searchsorted(xedges[1:-1], self._dataframe['lon'])
+        rows = np.searchsorted(yedges[1:-1], self._dataframe['lat'])
         newdf = None
         # start from the bottom left of our grid, and trim our cities.
 
         for i in range(0, ny):
-            cellymin = ymin + (i * dy)
-            cellymax = cellymin + dy
             for j in range(0, nx):
-                cellxmin = xmin + (j * dx)
-                cellxmax = cellxmin + dx
-                tcities = self.limitByBounds(
-                    (cellxmin, cellxmax, cellymin, cellymax))
+                celldf = self._dataframe[(rows == i) & (cols == j)]
                 # older versions of pandas use a different sort function
                 if pd.__version__ < '0.17.0':
-                    tdf = tcities._dataframe.sort(columns='pop',
-                                                  ascending=False)
+                    tdf = celldf.sort(columns='pop', ascending=False)
                 else:
-                    tdf = tcities._dataframe.sort_values(by='pop',
-                                                         ascending=False)
+                    tdf = celldf.sort_values(by='pop', ascending=False)
                 tdf = tdf[0:cities_per_grid]
                 if newdf is None:
                     newdf = tdf.copy()
                 else:
-                    newdf = newdf.append(tdf)
+                    newdf = pd.concat([newdf, tdf])
         return type(self)(newdf)
 
     def limitByName(self, cityname):
-- 
2.43.0


From da7eb73ed89ccb9bd8ac0b13b435067d68cb2913 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 17:47:11 +0000
Subject: [PATCH 042/105] fix: saved Cities read back unchanged

---
 impactutils/mapping/city.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index 834fdeb..c56796a 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -162,7 +162,9 @@ class Cities(object):
         Returns:
             Cities instance
         """
-        df = pd.read_csv(csvfile)
+        # NA is the country code of Namibia, not a missing value
+        df = pd.read_csv(csvfile, keep_default_na=False,
+                         na_values=['', 'nan', 'NaN'])
         return cls(df)
 
     def len(self):
@@ -182,7 +184,7 @@ class Cities(object):
         Returns:
             None
         """
-        self._dataframe.to_csv(filename)
+        self._dataframe.to_csv(filename, index=False)
 
     def sortByColumns(self, columns, ascending=True):
         """Sort list of cities by input column names.
-- 
2.43.0


From 59903099a9a81851c267bef367dae228c80d3828 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 17:47:32 +0000
Subject: [PATCH 043/105] fix: Cities.limitByRadius keeps a column named dist

---
 impactutils/mapping/city.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index c56796a..533fc1b 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -252,9 +252,7 @@ class Cities(object):
         dist = geodetic_distance(lon, lat,
                                  self._dataframe['lon'],
                                  self._dataframe['lat'])
-        newdf['dist'] = dist
-        newdf = newdf[newdf['dist'] <= radius]
-        del newdf['dist']
+        newdf = newdf[np.asarray(dist) <= radius]
         return type(self)(newdf)
 
     def limitByPopulation(self, pop, minpop=0):
-- 
2.43.0


From f65ce016b247a353b5cb7229862345fa99be5a4f Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 17:48:15 +0000
Subject: [PATCH 044/105] fix: draw_scale accepts bar_length and divisions

---
 impactutils/mapping/scalebar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/mapping/scalebar.py b/impactutils/mapping/scalebar.py
index 7f85a5c..5840e55 100644
--- a/impactutils/mapping/scalebar.py
+++ b/impactutils/mapping/scalebar.py
@@ -224,9 +224,9 @@ def draw_scale(ax, pos='ll', padx=0.1, pady=0.1, font_size=None, units='km',
     gap_height = top_data - bottom_data
 
     # what is the bar length data units?
+    map_width_data = xmax - xmin
     if bar_length is None:
         lengths = np.array(list(LENGTHS.keys()))
-        map_width_data = xmax - xmin
         map_width_meters = map_width_data * dataunits_to_meters
         map_width_scale_units = map_width_meters * 1 / UNITS[units]
         qmap_width_scale_units = map_width_scale_units * BAR_WIDTH_FRACTION
-- 
2.43.0


From dfb62a7cd9edd7c8e66941b5b3dde710da8ccb59 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 17:48:33 +0000
Subject: [PATCH 045/105] fix: draw_scale labels fractional lengths

---
 impactutils/mapping/scalebar.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/impactutils/mapping/scalebar.py b/impactutils/mapping/scalebar.py
index 5840e55..16011e7 100644
--- a/impactutils/mapping/scalebar.py
+++ b/impactutils/mapping/scalebar.py
@@ -288,8 +288,7 @@ def draw_scale(ax, pos='ll', padx=0.1, pady=0.1, font_size=None, units='km',
             color = 'black'
         else:
             color = 'white'
-            tick_i = int(i * (bar_length / divisions))
-            scale_tick = f'{tick_i:d}'
+            scale_tick = f'{i * bar_length / divisions:.10g}'
             if is_div_even or i == 0:
                 # if we have an even number of divisions, draw every other
                 # tick mark
@@ -306,7 +305,7 @@ def draw_scale(ax, pos='ll', padx=0.1, pady=0.1, font_size=None, units='km',
         ax.fill(barx, recty, color, zorder=zorder)
     # draw the last tick mark and number
     ax.text(bar_left + bar_length_data, bar_bottom - (tick_height + gap_height),
-            f'{int(bar_length):d}', ha='center', zorder=zorder, va='top',
+            f'{bar_length:.10g}', ha='center', zorder=zorder, va='top',
             fontsize=font_size)
     left = bar_left + bar_length_data
     bottom = bar_bottom - tick_height
-- 
2.43.0


From b25f4750f84a2270b8a3081fea0cc690a4f777d7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 17:49:11 +0000
Subject: [PATCH 046/105] fix: MercatorMap drops labels off the map and
 measures them in the map's own axes

---
 impactutils/mapping/mercatormap.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/impactutils/mapping/mercatormap.py b/impactutils/mapping/mercatormap.py
index 4ee38a7..af1766f 100644
--- a/impactutils/mapping/mercatormap.py
+++ b/impactutils/mapping/mercatormap.py
@@ -98,7 +98,7 @@ class MercatorMap(object):
         # set up an identical axes object - this will be used to determine city
         # label collisions.
         self._figure_clone = plt.figure(figsize=figsize)
-        self._ax_clone = self._figure_clone.add_axes([0, 0, 1, 1],
+        self._ax_clone = self._figure_clone.add_axes(dimensions,
                                                      projection=self._proj)
         self._ax_clone.set_extent([xmin, xmax, ymin, ymax],
                                   crs=self._geoproj)
@@ -173,7 +173,7 @@ class MercatorMap(object):
         Returns:
             Cartopy GeoAxes instance.
         """
-        return self._axes_clone
+        return self._ax_clone
 
     def getFonts(self):
         """Get list of supported fonts.
@@ -261,8 +261,8 @@ class MercatorMap(object):
         rights = rights[ikeep]
         bottoms = bottoms[ikeep]
         tops = tops[ikeep]
-        ikeep = [0]  # indices of non-overlapping cities in dataframe
-        for i in range(1, len(tops)):
+        ikeep = []  # indices of non-overlapping cities in dataframe
+        for i in range(0, len(tops)):
             # what is this cities name?
             # Seems like an unused variable...
             # cname = newdf.iloc[i]['name']
@@ -281,7 +281,7 @@ class MercatorMap(object):
             if all(allclr):
                 ikeep.append(i)
 
-        newdf = newdf.iloc[ikeep]
+        newdf = newdf.iloc[ikeep].copy()
         newdf['top'] = tops[ikeep]
         newdf['bottom'] = bottoms[ikeep]
         newdf['left'] = lefts[ikeep]
@@ -313,16 +313,8 @@ class MercatorMap(object):
         lefts = np.ones(len(df)) * np.nan
         rights = np.ones(len(df)) * np.nan
 
-        # get the extent of the first city
-        left, right, bottom, top = self.getCityEdges(
-            df.iloc[0], fontname, fontsize, shadow, zorder)
-        lefts[0] = left
-        rights[0] = right
-        bottoms[0] = bottom
-        tops[0] = top
-
         # loop over all the cities and get their extents on the map
-        for i in range(1, len(df)):
+        for i in range(0, len(df)):
             row = df.iloc[i]
             left, right, bottom, top = self.getCityEdges(
                 row, fontname, fontsize, shadow, zorder)
-- 
2.43.0


From 5ddec22aafd828934630d33d650506eb0b2a8c67 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 17:50:38 +0000
Subject: [PATCH 047/105] fix: city boxes and maps may cross the antimeridian

---
 impactutils/mapping/city.py        | 8 ++++++--
 impactutils/mapping/mercatormap.py | 4 ++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index 533fc1b..b558aea 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -229,11 +229,15 @@ class Cities(object):
         Returns:
             New Cities instance containing smaller cities data set.
         """
-        # TODO: figure out what to do with a meridian crossing?
         newdf = self._dataframe.copy()
         xmin, xmax, ymin, ymax = bounds
+        if xmin <= xmax:
+            inlon = (newdf['lon'] >= xmin) & (newdf['lon'] <= xmax)
+        else:
+            # the box crosses the 180 meridian
+            inlon = (newdf['lon'] >= xmin) | (newdf['lon'] <= xmax)
         newdf = newdf.loc[(newdf['lat'] >= ymin) & (newdf['lat'] <= ymax) &
-                          (newdf['lon'] >= xmin) & (newdf['lon'] <= xmax)]
+                          inlon]
         return type(self)(newdf)
 
     def limitByRadius(self, lat, lon, radius):
diff --git a/impactutils/mapping/mercatormap.py b/impactutils/mapping/mercatormap.py
index af1766f..7c168ba 100644
--- a/impactutils/mapping/mercatormap.py
+++ b/impactutils/mapping/mercatormap.py
@@ -66,9 +66,9 @@ class MercatorMap(object):
         """
         self._cities = cities.limitByBounds(bounds)
         xmin, xmax, ymin, ymax = bounds
+        if xmax < xmin:
+            xmax += 360
         clon = (xmin + xmax) / 2
-        if xmax < 0 and xmax < xmin:
-            clon = (xmin + (xmax + 360)) / 2
 
         # clat = (ymin + ymax) / 2
         # Commenting out min_latitude because of this issue:
-- 
2.43.0


From e9e75956ddfe602f695fe69079a14cac9ad3775a Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 17:59:53 +0000
Subject: [PATCH 048/105] fix: MercatorMap.drawCities detects collisions in the
 final shape of the map

---
 impactutils/mapping/mercatormap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/impactutils/mapping/mercatormap.py b/impactutils/mapping/mercatormap.py
index 7c168ba..bda509a 100644
--- a/impactutils/mapping/mercatormap.py
+++ b/impactutils/mapping/mercatormap.py
@@ -206,6 +206,10 @@ class MercatorMap(object):
             KeyError: When font name is not one of the supported Matplotlib
                 font names.
         """
+        # give both axes the shape in which they will be drawn, the size of
+        # the labels in map units depends on it
+        self._ax.apply_aspect()
+        self._ax_clone.apply_aspect()
         # set the active axes to be the clone
         plt.sca(self._ax_clone)
         # cut down on the number of cities we can draw from
-- 
2.43.0


From 5a43d74551dec07e9918d73f8e09ef985cbd7943 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:03:08 +0000
Subject: [PATCH 049/105] fix: senders keep their own copies of their
 properties and files

---
 impactutils/transfer/sender.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/impactutils/transfer/sender.py b/impactutils/transfer/sender.py
index 5850659..d1d05d3 100644
--- a/impactutils/transfer/sender.py
+++ b/impactutils/transfer/sender.py
@@ -48,7 +48,8 @@ class Sender(object):
                 cancel() actions, this allows the user to define what that
                 file is called.
         """
-        self._properties = properties
+        # do not share these with the caller, they can be added to later
+        self._properties = None if properties is None else dict(properties)
         for prop in self._required_properties:
             if prop not in self._properties:
                 raise RequiredArgumentError(
@@ -67,7 +68,7 @@ class Sender(object):
                 raise FileNotFoundError(
                     f'Input directory {local_directory} could not be found')
         if local_files is not None:
-            self._local_files = local_files
+            self._local_files = list(local_files)
         else:
             self._local_files = []
 
-- 
2.43.0


From 5d34b0e29a1b2e35575a8708bcfda3e32fe06b29 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:03:08 +0000
Subject: [PATCH 050/105] fix: EmailSender sends to max_bcc recipients per
 message, also if that is one

---
 impactutils/transfer/emailsender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 854672b..728cedd 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -287,7 +287,7 @@ def _split_addresses(recipients, max_bcc, primary_recipient):
     iend = max_bcc
     while istart < len(recipients):
         address = primary_recipient
-        iend = min(len(recipients), istart + (max_bcc - 1))
+        iend = min(len(recipients), istart + max_bcc)
         bcclist = recipients[istart:iend]
         tuples.append((address, bcclist))
         istart = iend
-- 
2.43.0


From 08c79ab80b6d305b0fe24973c5f3f3099d2afdbf Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:03:08 +0000
Subject: [PATCH 051/105] fix: EmailSender attaches the files of a directory

---
 impactutils/transfer/emailsender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 728cedd..b5b47da 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -177,7 +177,7 @@ class EmailSender(Sender):
                         for filename in self._local_files:
                             attachments.append(filename)
 
-                            all_files = self.getAllLocalFiles()
+                        all_files = self.getAllLocalFiles()
                         for filename in all_files:
                             attachments.append(filename)
 
-- 
2.43.0


From ead2b23e86ee09e72779d52c375440b7b0eecff9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:03:08 +0000
Subject: [PATCH 052/105] fix: EmailSender does not reveal the Bcc recipients
 in the message

---
 impactutils/transfer/emailsender.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index b5b47da..1980144 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -187,13 +187,10 @@ class EmailSender(Sender):
                     msg['To'] = address
                     msg['Subject'] = subject
                     msg['Date'] = email.utils.formatdate()
-                    if bcc is not None:
-                        bccstr = ', '.join(bcc)
-                        msg['Bcc'] = bccstr
                     msgtxt = msg.as_string()
                 else:
                     msgtxt = _get_encoded_message(
-                        address, subject, text, sender, attachments, bcc=bcc)
+                        address, subject, text, sender, attachments)
                 if bcc is not None:
                     all_addresses = [address] + bcc
                 else:
@@ -258,8 +255,6 @@ class EmailSender(Sender):
             msg['To'] = address
             msg['Subject'] = subject
             msg['Date'] = email.utils.formatdate()
-            bccstr = ', '.join(bcc)
-            msg['Bcc'] = bccstr
             msgtxt = msg.as_string()
             all_addresses = [address] + bcc
             _send_email(sender, all_addresses, msgtxt, smtp_servers)
@@ -350,8 +345,7 @@ def _send_email(sender, address, msgtxt, smtp_servers):
     #     print('Bcc: %s' % ','.join(bcc))
 
 
-def _get_encoded_message(address, subject, text, sender, attachments,
-                         bcc=None):
+def _get_encoded_message(address, subject, text, sender, attachments):
     """Private method for encoding attachment into a MIME string.
 
     Args:
@@ -359,7 +353,6 @@ def _get_encoded_message(address, subject, text, sender, attachments,
         subject: String email subject line.
         text: String text of email message.
         attachments: List of files to be attached to message.
-        bcc: List of email addresses to Bcc.
 
     Returns:
         Message text.
@@ -369,8 +362,6 @@ def _get_encoded_message(address, subject, text, sender, attachments,
     outer['To'] = address
     outer['From'] = sender
     outer['Date'] = email.utils.formatdate()
-    if bcc is not None:
-        outer['Bcc'] = ', '.join(bcc)
 
     # insert the text into the email as a MIMEText part...
     firstSubMsg = Message()
-- 
2.43.0


From ab9c1c06604af455f861f1a9f77e14b33174c3dc Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:03:08 +0000
Subject: [PATCH 053/105] fix: EmailSender does not send to an empty address

---
 impactutils/transfer/emailsender.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 1980144..d4a0756 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -191,10 +191,7 @@ class EmailSender(Sender):
                 else:
                     msgtxt = _get_encoded_message(
                         address, subject, text, sender, attachments)
-                if bcc is not None:
-                    all_addresses = [address] + bcc
-                else:
-                    all_addresses = [address]
+                all_addresses = [a for a in [address] + bcc if a]
                 _send_email(sender, all_addresses, msgtxt, smtp_servers)
         except Exception as e:
             raise Exception(
@@ -256,7 +253,7 @@ class EmailSender(Sender):
             msg['Subject'] = subject
             msg['Date'] = email.utils.formatdate()
             msgtxt = msg.as_string()
-            all_addresses = [address] + bcc
+            all_addresses = [a for a in [address] + bcc if a]
             _send_email(sender, all_addresses, msgtxt, smtp_servers)
 
 
-- 
2.43.0


From d192a8f75031f431ea77f317cf7aef2c6c3f8b46 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:03:08 +0000
Subject: [PATCH 054/105] fix: EmailSender attaches text files unchanged and
 sends any message text

---
 impactutils/transfer/emailsender.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index d4a0756..11523a6 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -4,7 +4,6 @@ import shutil
 import smtplib
 import mimetypes
 from email import encoders
-from email.message import Message
 from email.mime.text import MIMEText
 from email.mime.audio import MIMEAudio
 from email.mime.base import MIMEBase
@@ -361,11 +360,7 @@ def _get_encoded_message(address, subject, text, sender, attachments):
     outer['Date'] = email.utils.formatdate()
 
     # insert the text into the email as a MIMEText part...
-    firstSubMsg = Message()
-    firstSubMsg["Content-type"] = "text/plain"
-    firstSubMsg["Content-transfer-encoding"] = "7bit"
-    firstSubMsg.set_payload(text)
-    outer.attach(firstSubMsg)
+    outer.attach(MIMEText(text))
 
     for attachment in attachments:
         ctype, encoding = mimetypes.guess_type(attachment)
@@ -375,12 +370,7 @@ def _get_encoded_message(address, subject, text, sender, attachments):
             # use a generic bag-of-bits type.
             ctype = 'application/octet-stream'
         maintype, subtype = ctype.split('/', 1)
-        if maintype == 'text':
-            fp = open(attachment)
-            # Note: we should handle calculating the charset
-            msg = MIMEText(fp.read(), _subtype=subtype)
-            fp.close()
-        elif maintype == 'image':
+        if maintype == 'image':
             fp = open(attachment, 'rb')
             msg = MIMEImage(fp.read(), _subtype=subtype)
             fp.close()
-- 
2.43.0


From e81d4b90556011dc8d1e431091fb6c3b2cc37b0e Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:03:57 +0000
Subject: [PATCH 055/105] fix: EmailSender does not send twice when a server
 drops the connection after accepting

---
 impactutils/transfer/emailsender.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 11523a6..6604385 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -310,7 +310,11 @@ def _send_email(sender, address, msgtxt, smtp_servers):
             resp, servername = session.helo()
             session.sendmail(sender, address, msgtxt)
             messageSent = True
-            session.quit()
+            try:
+                session.quit()
+            except smtplib.SMTPException:
+                # the message has been accepted, do not send it again
+                session.close()
             break
         except smtplib.SMTPRecipientsRefused:
             errormsg.append({server: 'Recipients refused'})
-- 
2.43.0


From a4e6fc11062479400fcf23e897d4563b14c8e1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:03:57 +0000
Subject: [PATCH 056/105] fix: EmailSender reports recipients that were refused

---
 impactutils/transfer/emailsender.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 6604385..5441e14 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -308,14 +308,18 @@ def _send_email(sender, address, msgtxt, smtp_servers):
         try:
             session = smtplib.SMTP(server)
             resp, servername = session.helo()
-            session.sendmail(sender, address, msgtxt)
-            messageSent = True
+            refused = session.sendmail(sender, address, msgtxt)
+            # recipients this server refused may be accepted by the next one
+            messageSent = not refused
             try:
                 session.quit()
             except smtplib.SMTPException:
                 # the message has been accepted, do not send it again
                 session.close()
-            break
+            if messageSent:
+                break
+            errormsg.append({server: 'Recipients refused'})
+            address = list(refused)
         except smtplib.SMTPRecipientsRefused:
             errormsg.append({server: 'Recipients refused'})
             continue
-- 
2.43.0


From 17d4b80c03d5366c8999cf73a8662ff5d365c0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:03:57 +0000
Subject: [PATCH 057/105] fix: EmailSender.cancel returns the message it
 documents

---
 impactutils/transfer/emailsender.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 5441e14..55c19fb 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -254,6 +254,8 @@ class EmailSender(Sender):
             msgtxt = msg.as_string()
             all_addresses = [a for a in [address] + bcc if a]
             _send_email(sender, all_addresses, msgtxt, smtp_servers)
+        num_recipients = int(len(self._properties['recipients']))
+        return f'A cancel message has been sent to {num_recipients:d} recipients.'
 
 
 def _split_addresses(recipients, max_bcc, primary_recipient):
-- 
2.43.0


From e0f5e111e071f9fa0842e8da8b6201863e238057 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:03:57 +0000
Subject: [PATCH 058/105] fix: FTPSender reports why files could not be sent

---
 impactutils/transfer/ftpsender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/transfer/ftpsender.py b/impactutils/transfer/ftpsender.py
index 18f0ade..9ccf688 100755
--- a/impactutils/transfer/ftpsender.py
+++ b/impactutils/transfer/ftpsender.py
@@ -95,7 +95,7 @@ class FTPSender(Sender):
             return (nfiles, f'{int(nfiles):d} files were sent successfully to {remote_host} {remote_folder}')
         except Exception as obj:
             raise Exception(
-                f'Could not send to {host}.  Error "{str(obj)}"')
+                f'Could not send to {remote_host}.  Error "{str(obj)}"')
 
     def cancel(self):
         """
-- 
2.43.0


From c6b3b42255726b861f9be7c394c164c29e855874 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:03:57 +0000
Subject: [PATCH 059/105] fix: FTPSender raises when a file of a directory
 cannot be sent, and accepts relative remote directories

---
 impactutils/transfer/ftpsender.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/impactutils/transfer/ftpsender.py b/impactutils/transfer/ftpsender.py
index 9ccf688..fd58bbe 100755
--- a/impactutils/transfer/ftpsender.py
+++ b/impactutils/transfer/ftpsender.py
@@ -83,13 +83,10 @@ class FTPSender(Sender):
                 local_directory = self._local_directory
                 allfiles = self.getAllLocalFiles()
                 for filename in allfiles:
-                    try:
-                        self._copy_file_with_path(
-                            ftp, filename, remote_folder,
-                            local_folder=local_directory)
-                        nfiles += 1
-                    except:
-                        x = 1
+                    self._copy_file_with_path(
+                        ftp, filename, remote_folder,
+                        local_folder=local_directory)
+                    nfiles += 1
 
             ftp.quit()
             return (nfiles, f'{int(nfiles):d} files were sent successfully to {remote_host} {remote_folder}')
@@ -119,7 +116,7 @@ class FTPSender(Sender):
             tfile = os.path.join(tempdir, self._cancelfile)  # local file
             f = open(tfile, 'wt')
             f.close()
-            ftp.cwd(remote_folder)
+            ftp.cwd('/' + remote_folder.strip('/'))
             self.__sendfile(tfile, ftp)
         except Exception as e:
             raise Exception(
@@ -225,8 +222,8 @@ class FTPSender(Sender):
                 name (not preserving path) into remote_folder.
         """
         if local_folder is None:
-            ftp.cwd(remote_folder)
-            self.__sendfile(filename, ftp)
+            ftp.cwd('/' + remote_folder.strip('/'))
+            self.__sendfile(local_file, ftp)
         else:
             local_parts = os.path.relpath(
                 local_file, local_folder).split(os.path.sep)
@@ -241,7 +238,7 @@ class FTPSender(Sender):
                 self._create_remote_directory(ftp, remfolder)
 
             self.__sendfile(local_file, ftp)
-            ftp.cwd(remote_folder)
+            ftp.cwd('/' + remote_folder.strip('/'))
 
     def __sendfile(self, filename, ftp):
         '''Internal function used to send a file using an FTP object.
-- 
2.43.0


From 0358bc955a9fd52b9c8c350bd914e197ecd8dd60 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:04:33 +0000
Subject: [PATCH 060/105] fix: SecureSender quotes remote paths and cancel
 contents for the remote shell

---
 impactutils/transfer/securesender.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index 3d4a1fc..d74adbc 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -4,6 +4,7 @@
 import os.path
 import datetime
 import getpass
+import shlex
 
 # depends on https://github.com/jbardin/scp.py
 # pip install git+git://github.com/jbardin/scp.py.git
@@ -122,9 +123,12 @@ class SecureSender(Sender):
         remote_host = self._properties['remote_host']
         ssh = self._connect()
         cancelfile = os.path.join(remote_folder, self._cancelfile)
-        echo_cmd = f'echo {cancel_content} > {cancelfile}'
+        if cancel_content is None:
+            cancel_content = ''
+        echo_cmd = (f'printf "%s\\n" {shlex.quote(cancel_content)} '
+                    f'> {shlex.quote(cancelfile)}')
         stdin, stdout, stderr1 = ssh.exec_command(echo_cmd)
-        chk_cmd = f'[ -e {cancelfile} ];echo $?'
+        chk_cmd = f'[ -e {shlex.quote(cancelfile)} ];echo $?'
         stdin, stdout, stderr = ssh.exec_command(chk_cmd)
         exists = not int(stdout.read().decode('utf-8').strip())
         if not exists:
@@ -217,7 +221,8 @@ class SecureSender(Sender):
             datetime.datetime.utcnow().strftime('%Y%m%d%H%M%S')
         print(f'Copying {local_file}...')
         scp.put(local_file, remote_tmp_file)
-        rename_cmd = f'mv {remote_tmp_file} {remote_file}'
+        rename_cmd = (f'mv {shlex.quote(remote_tmp_file)} '
+                      f'{shlex.quote(remote_file)}')
         stdin, stdout, stderr = ssh.exec_command(rename_cmd)
 
     def _check_remote_folder(self, ssh, remote_folder):
@@ -231,10 +236,10 @@ class SecureSender(Sender):
             Tuple with two booleans -- (does a file or directory of this name
             exist, is it a directory?)
         """
-        chk_cmd1 = f'[ -e {remote_folder} ];echo $?'
+        chk_cmd1 = f'[ -e {shlex.quote(remote_folder)} ];echo $?'
         stdin, stdout, stderr = ssh.exec_command(chk_cmd1)
         exists = not int(stdout.read().decode('utf-8').strip())
-        chk_cmd2 = f'[ -d {remote_folder} ];echo $?'
+        chk_cmd2 = f'[ -d {shlex.quote(remote_folder)} ];echo $?'
         stdin, stdout, stderr = ssh.exec_command(chk_cmd2)
         isdir = not int(stdout.read().decode('utf-8').strip())
         return (exists, isdir)
@@ -251,15 +256,15 @@ class SecureSender(Sender):
             Boolean indicating success or failure.
         """
         exists, isdir = self._check_remote_folder(ssh, remote_folder)
-        chk_cmd1 = f'[ -d {remote_folder} ];echo $?'
+        chk_cmd1 = f'[ -d {shlex.quote(remote_folder)} ];echo $?'
         if not isdir:
             if exists:
-                rm_cmd = f'rm {remote_folder}'
+                rm_cmd = f'rm {shlex.quote(remote_folder)}'
                 stdin, stdout, stderr = ssh.exec_command(rm_cmd)
                 stdin, stdout, stderr = ssh.exec_command(chk_cmd1)
                 exists = not int(stdout.read().decode('utf-8').strip())
             if not exists:
-                mk_cmd = f'mkdir -p {remote_folder}'
+                mk_cmd = f'mkdir -p {shlex.quote(remote_folder)}'
                 stdin, stdout, stderr = ssh.exec_command(mk_cmd)
                 exists, isdir = self._check_remote_folder(ssh, remote_folder)
                 if not isdir:
-- 
2.43.0


From aa05f11ca4d0e343006abd175d8638d341c31800 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:04:33 +0000
Subject: [PATCH 061/105] fix: SecureSender waits for the remote rename and
 reports its failure

---
 impactutils/transfer/securesender.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index d74adbc..5911e5a 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -224,6 +224,11 @@ class SecureSender(Sender):
         rename_cmd = (f'mv {shlex.quote(remote_tmp_file)} '
                       f'{shlex.quote(remote_file)}')
         stdin, stdout, stderr = ssh.exec_command(rename_cmd)
+        # wait for the remote system to finish before closing the connection
+        if stdout.channel.recv_exit_status() != 0:
+            err = stderr.read().decode('utf-8').strip()
+            raise Exception(f'Could not rename {remote_tmp_file} to '
+                            f'{remote_file} on host {remote_host}: {err}')
 
     def _check_remote_folder(self, ssh, remote_folder):
         """Check to see if remote folder exists and is a directory.
-- 
2.43.0


From 1e8671d9083c09061c74a12facbc6c7718027495 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:04:33 +0000
Subject: [PATCH 062/105] fix: PDLSender quotes its command line for the shell

---
 impactutils/transfer/pdlsender.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/impactutils/transfer/pdlsender.py b/impactutils/transfer/pdlsender.py
index 8732447..a311327 100755
--- a/impactutils/transfer/pdlsender.py
+++ b/impactutils/transfer/pdlsender.py
@@ -3,6 +3,8 @@
 # stdlib imports
 import os.path
 import datetime
+import re
+import shlex
 
 # third party
 
@@ -98,7 +100,8 @@ class PDLSender(Sender):
     def _replace_required_properties(self, cmd):
         for propkey in self._required_properties:
             propvalue = self._properties[propkey]
-            cmd = cmd.replace('[' + propkey.upper() + ']', propvalue)
+            cmd = cmd.replace('[' + propkey.upper() + ']',
+                              shlex.quote(propvalue))
         return cmd
 
     def _replace_product_properties(self, cmd):
@@ -115,23 +118,26 @@ class PDLSender(Sender):
                     prop_nuggets.append(
                         f'--property-{propkey}={propvalue.strftime(DATE_TIME_FMT)[0:23]}')
                 elif isinstance(propvalue, str):
-                    prop_nuggets.append(f'--property-{propkey}="{propvalue}"')
+                    prop_nuggets.append(f'--property-{propkey}={propvalue}')
                 else:
                     prop_nuggets.append(
                         f'--property-{propkey}={str(propvalue)}')
-            cmd = cmd.replace('[PRODUCT_PROPERTIES]', ' '.join(prop_nuggets))
+            cmd = cmd.replace('[PRODUCT_PROPERTIES]',
+                              ' '.join(map(shlex.quote, prop_nuggets)))
         else:
             cmd = cmd.replace('[PRODUCT_PROPERTIES]', '')
         return cmd
 
     def _replace_files(self, cmd):
         if self._local_files:
-            cmd = cmd.replace('[FILE]', f'--file={self._local_files[0]}')
+            cmd = cmd.replace(
+                '[FILE]', shlex.quote(f'--file={self._local_files[0]}'))
         else:
             cmd = cmd.replace('[FILE]', '')
         if self._local_directory:
             cmd = cmd.replace(
-                '[DIRECTORY]', f'--directory={self._local_directory}')
+                '[DIRECTORY]',
+                shlex.quote(f'--directory={self._local_directory}'))
         else:
             cmd = cmd.replace('[DIRECTORY]', '')
 
-- 
2.43.0


From 1c04f29da7ff682b7a2b1db022c16578f4463e94 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:04:33 +0000
Subject: [PATCH 063/105] fix: PDLSender does not expand its own placeholders
 in values

---
 impactutils/transfer/pdlsender.py | 52 ++++++++++++-------------------
 1 file changed, 20 insertions(+), 32 deletions(-)

diff --git a/impactutils/transfer/pdlsender.py b/impactutils/transfer/pdlsender.py
index a311327..f19326c 100755
--- a/impactutils/transfer/pdlsender.py
+++ b/impactutils/transfer/pdlsender.py
@@ -166,6 +166,24 @@ class PDLSender(Sender):
 
         return cmd
 
+    def _build_command(self, status):
+        # fill out each piece of the command once, the values may contain
+        # text that looks like one of the pieces
+        def fill(match):
+            piece = match.group(0)
+            if piece == '[STATUS]':
+                return status
+            for replace in (self._replace_required_properties,
+                            self._replace_files,
+                            self._replace_product_properties,
+                            self._replace_optional_properties):
+                value = replace(piece)
+                if value != piece:
+                    return value
+            return piece
+
+        return re.sub(r'\[[A-Z_]+\]', fill, self._pdlcmd)
+
     def send(self):
         """Send local file or directory via PDL.
 
@@ -184,22 +202,7 @@ class PDLSender(Sender):
             raise PDLError('For PDL, you may only send one file at a time.')
 
         # build pdl command line from properties
-        cmd = self._pdlcmd
-
-        # make this an update status
-        cmd = cmd.replace('[STATUS]', 'UPDATE')
-
-        # fill out the required properties
-        cmd = self._replace_required_properties(cmd)
-
-        # fill out any files or directories we'll be sending
-        cmd = self._replace_files(cmd)
-
-        # fill in all the product properties
-        cmd = self._replace_product_properties(cmd)
-
-        # fill in all the optional properties
-        cmd = self._replace_optional_properties(cmd)
+        cmd = self._build_command('UPDATE')
 
         # call PDL on the command line
         retcode, stdout, stderr = get_command_output(cmd)
@@ -233,22 +236,7 @@ class PDLSender(Sender):
         # build pdl command line from properties
         self._properties['file'] = ''
         self._properties['directory'] = ''
-        cmd = self._pdlcmd
-
-        # make this a delete status
-        cmd = cmd.replace('[STATUS]', 'DELETE')
-
-        # fill out the required properties
-        cmd = self._replace_required_properties(cmd)
-
-        # fill out any files or directories we'll be sending
-        cmd = self._replace_files(cmd)
-
-        # fill in all the product properties
-        cmd = self._replace_product_properties(cmd)
-
-        # fill in all the optional properties
-        cmd = self._replace_optional_properties(cmd)
+        cmd = self._build_command('DELETE')
 
         retcode, stdout, stderr = get_command_output(cmd)
         if not retcode:
-- 
2.43.0


From 07a7247a30ef78d790fe9191c1cab148aba92d4c Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:04:33 +0000
Subject: [PATCH 064/105] fix: PDLSender.send accepts any output of PDL

---
 impactutils/transfer/pdlsender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/transfer/pdlsender.py b/impactutils/transfer/pdlsender.py
index f19326c..8ce76d2 100755
--- a/impactutils/transfer/pdlsender.py
+++ b/impactutils/transfer/pdlsender.py
@@ -219,7 +219,7 @@ class PDLSender(Sender):
             nfiles += sum([len(files)
                            for r, d, files in os.walk(self._local_directory)])
         numfiles = int(nfiles)
-        error_msg = stdout.decode('utf-8')
+        error_msg = stdout.decode('utf-8', errors='replace')
         msg = f'{numfiles:d} files sent successfully: resulting in output: "{error_msg}"'
         return (nfiles, msg)
 
-- 
2.43.0


From 3160a07734f0ac214115a3a6b0117fbc55b61202 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:10:54 +0000
Subject: [PATCH 065/105] fix: PDLSender replaces each of its placeholders once

---
 impactutils/transfer/pdlsender.py | 32 +++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/impactutils/transfer/pdlsender.py b/impactutils/transfer/pdlsender.py
index 8ce76d2..126a61d 100755
--- a/impactutils/transfer/pdlsender.py
+++ b/impactutils/transfer/pdlsender.py
@@ -97,12 +97,18 @@ class PDLSender(Sender):
         super().__init__(properties=properties, local_files=local_files,
                          local_directory=local_directory, cancelfile=cancelfile)
 
+    @staticmethod
+    def _replace_pieces(cmd, values):
+        # fill out each piece once: the values may look like pieces too
+        return re.sub(r'\[[A-Z_]+\]',
+                      lambda match: values.get(match.group(0),
+                                               match.group(0)), cmd)
+
     def _replace_required_properties(self, cmd):
-        for propkey in self._required_properties:
-            propvalue = self._properties[propkey]
-            cmd = cmd.replace('[' + propkey.upper() + ']',
-                              shlex.quote(propvalue))
-        return cmd
+        values = {'[' + propkey.upper() + ']':
+                  shlex.quote(self._properties[propkey])
+                  for propkey in self._required_properties}
+        return self._replace_pieces(cmd, values)
 
     def _replace_product_properties(self, cmd):
         if hasattr(self, '_product_properties'):
@@ -129,19 +135,13 @@ class PDLSender(Sender):
         return cmd
 
     def _replace_files(self, cmd):
+        values = {'[FILE]': '', '[DIRECTORY]': ''}
         if self._local_files:
-            cmd = cmd.replace(
-                '[FILE]', shlex.quote(f'--file={self._local_files[0]}'))
-        else:
-            cmd = cmd.replace('[FILE]', '')
+            values['[FILE]'] = shlex.quote(f'--file={self._local_files[0]}')
         if self._local_directory:
-            cmd = cmd.replace(
-                '[DIRECTORY]',
-                shlex.quote(f'--directory={self._local_directory}'))
-        else:
-            cmd = cmd.replace('[DIRECTORY]', '')
-
-        return cmd
+            values['[DIRECTORY]'] = shlex.quote(
+                f'--directory={self._local_directory}')
+        return self._replace_pieces(cmd, values)
 
     def _replace_optional_properties(self, cmd):
         # add optional properties
-- 
2.43.0


From f02848b90d903095face3a77cb914e364b74e5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:13:17 +0000
Subject: [PATCH 066/105] fix: EmailSender attaches message files unchanged

---
 impactutils/transfer/emailsender.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 55c19fb..278e9bf 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -379,6 +379,9 @@ def _get_encoded_message(address, subject, text, sender, attachments):
             # No guess could be made, or the file is encoded (compressed), so
             # use a generic bag-of-bits type.
             ctype = 'application/octet-stream'
+        if ctype.startswith(('message/', 'multipart/')):
+            # these may not be encoded in base64
+            ctype = 'application/octet-stream'
         maintype, subtype = ctype.split('/', 1)
         if maintype == 'image':
             fp = open(attachment, 'rb')
-- 
2.43.0


From 18fcf53b189f4726b322707569c1052400b53ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:16:51 +0000
Subject: [PATCH 067/105] fix: FTPSender.cancel accepts the cancel_content it
 documents

---
 impactutils/transfer/ftpsender.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/impactutils/transfer/ftpsender.py b/impactutils/transfer/ftpsender.py
index fd58bbe..9857477 100755
--- a/impactutils/transfer/ftpsender.py
+++ b/impactutils/transfer/ftpsender.py
@@ -94,7 +94,7 @@ class FTPSender(Sender):
             raise Exception(
                 f'Could not send to {remote_host}.  Error "{str(obj)}"')
 
-    def cancel(self):
+    def cancel(self, cancel_content=None):
         """
         Create a cancel file (named as indicated in constructor "cancelfile"
         parameter) in remote_directory on remote_host.
@@ -115,6 +115,8 @@ class FTPSender(Sender):
         try:
             tfile = os.path.join(tempdir, self._cancelfile)  # local file
             f = open(tfile, 'wt')
+            if cancel_content is not None:
+                f.write(cancel_content)
             f.close()
             ftp.cwd('/' + remote_folder.strip('/'))
             self.__sendfile(tfile, ftp)
-- 
2.43.0


From cb05237be058ed2de64289f7a9dd2a95d9527f03 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:23:28 +0000
Subject: [PATCH 068/105] fix: SecureSender.cancel waits until its file is
 written

---
 impactutils/transfer/securesender.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index 5911e5a..105cc38 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -128,10 +128,12 @@ class SecureSender(Sender):
         echo_cmd = (f'printf "%s\\n" {shlex.quote(cancel_content)} '
                     f'> {shlex.quote(cancelfile)}')
         stdin, stdout, stderr1 = ssh.exec_command(echo_cmd)
+        # wait for the remote system to finish before looking for the file
+        written = stdout.channel.recv_exit_status() == 0
         chk_cmd = f'[ -e {shlex.quote(cancelfile)} ];echo $?'
         stdin, stdout, stderr = ssh.exec_command(chk_cmd)
         exists = not int(stdout.read().decode('utf-8').strip())
-        if not exists:
+        if not (written and exists):
             err = stderr1.read().decode('utf-8').strip()
             fmt = (f'Could not create {cancelfile} file on '
                    f'remote_host {remote_host} due to error: {err}')
-- 
2.43.0


From d1ce7a798684fb7a4a1ed0470a8accd89425921f Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:30:03 +0000
Subject: [PATCH 069/105] fix: queries retry after 503 and raise on other HTTP
 errors

---
 impactutils/comcat/query.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/impactutils/comcat/query.py b/impactutils/comcat/query.py
index 98f7c3a..e0ba060 100644
--- a/impactutils/comcat/query.py
+++ b/impactutils/comcat/query.py
@@ -1,6 +1,7 @@
 # stdlib imports
 from datetime import datetime
 import json
+import time
 from urllib import request
 from urllib.error import HTTPError
 import warnings
@@ -32,6 +33,7 @@ def _get_url_data(url, timeout=TIMEOUT):
             except Exception as msg:
                 raise Exception(
                     f'Error downloading data from url {url}.  "{msg}".')
+        raise
 
 
 class GeoServe(object):
-- 
2.43.0


From 5ad37f016f505134d40c1e18dbbe34040ff7c977 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:30:03 +0000
Subject: [PATCH 070/105] fix: GeoServe.getRegions omits the metadata

---
 impactutils/comcat/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/comcat/query.py b/impactutils/comcat/query.py
index e0ba060..aef2332 100644
--- a/impactutils/comcat/query.py
+++ b/impactutils/comcat/query.py
@@ -95,7 +95,7 @@ class GeoServe(object):
             dict: geojson-like dictionaries, described here: https://earthquake.usgs.gov/ws/geoserve/regions.php
                   The 'metadata' dictionary is omitted.
         """
-        self._regdict.get('metadata', None)
+        self._regdict.pop('metadata', None)
         return self._regdict
 
     def getAuthoritative(self):
-- 
2.43.0


From 2e79028ef45e6a31669eb5e162c1d6cd21758c79 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:31:41 +0000
Subject: [PATCH 071/105] fix: SCPClient.get keeps spaces at the end of file
 names

---
 impactutils/extern/scp/scp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index 88b1ddf..3fd9784 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -370,7 +370,7 @@ class SCPClient(object):
 
     def _recv_file(self, cmd):
         chan = self.channel
-        parts = cmd.strip().split(b' ', 2)
+        parts = cmd.split(b' ', 2)
 
         try:
             mode = int(parts[0], 8)
-- 
2.43.0


From e9487118886987403ef93a6df223780645f98fbf Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:32:06 +0000
Subject: [PATCH 072/105] fix: SCPClient.get does not wait forever for a lost
 connection

---
 impactutils/extern/scp/scp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index 3fd9784..db3d93a 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -410,7 +410,11 @@ class SCPClient(object):
                 # we have to make sure we don't read the final byte
                 if size - pos <= buff_size:
                     buff_size = size - pos
-                file_hdl.write(chan.recv(buff_size))
+                data = chan.recv(buff_size)
+                if not data:
+                    chan.close()
+                    raise SCPException('Underlying channel was closed')
+                file_hdl.write(data)
                 pos = file_hdl.tell()
                 if self._progress:
                     self._progress(path, size, pos)
-- 
2.43.0


From edd2b21bb619c07c44fdb2232ba92c067e5cbe2c Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:32:06 +0000
Subject: [PATCH 073/105] fix: SCPClient.get raises when the connection is lost
 between files

---
 impactutils/extern/scp/scp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index db3d93a..3d663d9 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -194,7 +194,11 @@ class SCPClient(object):
                                   b" -f " +
                                   b' '.join(remote_path))
         self._recv_all()
+        # a lost connection looks like the end of the files
+        status = self.channel.recv_exit_status()
         self.close()
+        if status != 0:
+            raise SCPException(f'Remote scp ended with status {status}')
 
     def _open(self):
         """
-- 
2.43.0


From bcecb3c775d7d70f08bac1a4fd38f422a91246d8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 18:35:14 +0000
Subject: [PATCH 074/105] fix: SecureSender waits until its remote folder is
 made

---
 impactutils/transfer/securesender.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index 105cc38..91a2402 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -268,11 +268,14 @@ class SecureSender(Sender):
             if exists:
                 rm_cmd = f'rm {shlex.quote(remote_folder)}'
                 stdin, stdout, stderr = ssh.exec_command(rm_cmd)
+                stdout.channel.recv_exit_status()
                 stdin, stdout, stderr = ssh.exec_command(chk_cmd1)
                 exists = not int(stdout.read().decode('utf-8').strip())
             if not exists:
                 mk_cmd = f'mkdir -p {shlex.quote(remote_folder)}'
                 stdin, stdout, stderr = ssh.exec_command(mk_cmd)
+                # wait for the remote system before looking for the folder
+                stdout.channel.recv_exit_status()
                 exists, isdir = self._check_remote_folder(ssh, remote_folder)
                 if not isdir:
                     return False
-- 
2.43.0


From 5bcf9cba57f4ad71f089766b9e3bd18b29383f66 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 20:00:05 +0000
Subject: [PATCH 075/105] fix: SCPClient.get refuses names that lead out of the
 local path

---
 impactutils/extern/scp/scp.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index 3d663d9..f8f0dc2 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -115,6 +115,7 @@ class SCPClient(object):
         self._utime = None
         self.sanitize = sanitize
         self._dirtimes = {}
+        self._parents = []
 
     def __enter__(self):
         self.channel = self._open()
@@ -174,6 +175,7 @@ class SCPClient(object):
             remote_path = [remote_path]
         remote_path = [self.sanitize(asbytes(r)) for r in remote_path]
         self._recv_dir = local_path or os.getcwd()
+        self._parents = []
         self._rename = (len(remote_path) == 1 and
                         not os.path.isdir(os.path.abspath(local_path)))
         if len(remote_path) > 1:
@@ -372,6 +374,12 @@ class SCPClient(object):
         # save for later
         self._utime = (atime, mtime)
 
+    def _check_name(self, name):
+        # the server must not choose a place outside of the local path
+        if name in (b'', b'.', b'..') or b'/' in name:
+            raise SCPException(f'Unexpected file name {name!r}')
+        return name
+
     def _recv_file(self, cmd):
         chan = self.channel
         parts = cmd.split(b' ', 2)
@@ -387,7 +395,7 @@ class SCPClient(object):
                                     parts[2].decode('utf-8'))
             else:
                 path = os.path.join(asbytes(self._recv_dir),
-                                    parts[2])
+                                    self._check_name(parts[2]))
         except:
             chan.send('\x01')
             chan.close()
@@ -452,7 +460,7 @@ class SCPClient(object):
                                     parts[2].decode('utf-8'))
             else:
                 path = os.path.join(asbytes(self._recv_dir),
-                                    parts[2])
+                                    self._check_name(parts[2]))
         except:
             self.channel.send(b'\x01')
             raise SCPException('Bad directory format')
@@ -465,13 +473,17 @@ class SCPClient(object):
                 raise SCPException(f'{path}: Not a directory')
             self._dirtimes[path] = (self._utime)
             self._utime = None
+            self._parents.append(self._recv_dir)
             self._recv_dir = path
         except (OSError, SCPException) as e:
             self.channel.send(b'\x01' + asbytes(str(e)))
             raise
 
     def _recv_popd(self, *cmd):
-        self._recv_dir = os.path.split(self._recv_dir)[0]
+        if not self._parents:
+            self.channel.send(b'\x01')
+            raise SCPException('Unexpected end of directory')
+        self._recv_dir = self._parents.pop()
 
     def _set_dirtimes(self):
         try:
-- 
2.43.0


From ae33e39aaa6b54c79d4c03ffd1450cc90a719dcc Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 20:09:24 +0000
Subject: [PATCH 076/105] fix: get_recent_timezone_data does not remove the
 directory it fills

---
 impactutils/time/timeutils.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index 3802e43..953771f 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -62,16 +62,14 @@ def get_recent_timezone_data(outdir):
     shpfile = None
     for fpath in myzip.namelist():
         fbase, fname = os.path.split(fpath)
+        if not fname:
+            continue  # a directory
         outfile = os.path.join(outdir, fname)
-        actual_outfile = myzip.extract(fpath, path=outdir)
-        if actual_outfile != outfile:
-            shutil.move(actual_outfile, outfile)
+        with myzip.open(fpath) as fin, open(outfile, 'wb') as fout:
+            shutil.copyfileobj(fin, fout)
 
         if fname.endswith('.shp'):
             shpfile = outfile
-    tmpdir = os.path.join(outdir, fbase)
-    if os.path.isdir(tmpdir):
-        shutil.rmtree(tmpdir)
     myzip.close()
     return shpfile
 
-- 
2.43.0


From 219c919964467e388f3c38c5dc02ff927719be7e Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 20:09:26 +0000
Subject: [PATCH 077/105] fix: get_recent_timezone_data raises if there is no
 link to the data

---
 impactutils/time/timeutils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index 953771f..0160afa 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -43,9 +43,9 @@ def get_recent_timezone_data(outdir):
     link = None
     for anchor in soup.find_all('a'):
         if 'href' in anchor.attrs:
-            link = anchor.attrs['href']
-            if link.find('timezones.shapefile.zip') > -1:
-                link = parse.urljoin('https://github.com', link)
+            href = anchor.attrs['href']
+            if href.find('timezones.shapefile.zip') > -1:
+                link = parse.urljoin('https://github.com', href)
                 break
 
     if link is None:
-- 
2.43.0


From f25951644a8d93ceccf7c049ba05a426e16d0ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 20:11:44 +0000
Subject: [PATCH 078/105] fix: plot_rupture_wire3d accepts 3D axes

---
 impactutils/rupture/plotrupture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/plotrupture.py b/impactutils/rupture/plotrupture.py
index 1426bd8..8b182e2 100644
--- a/impactutils/rupture/plotrupture.py
+++ b/impactutils/rupture/plotrupture.py
@@ -1,7 +1,7 @@
 import numpy as np
 import matplotlib.pyplot as plt
 import cartopy.crs as ccrs
-from mpl_toolkits.mplot3d import Axes3D  # noqa
+from mpl_toolkits.mplot3d import Axes3D
 
 
 MAP_WIDTH = 10.0  # map width in degrees
@@ -27,7 +27,7 @@ def plot_rupture_wire3d(rupture, ax=None):
         fig = plt.figure()
         ax = fig.add_subplot(111, projection='3d')
     else:
-        if 'xlim3d' not in list(ax.properties().keys()):
+        if not isinstance(ax, Axes3D):
             raise TypeError(
                 'Non-3d axes object passed to plot() method.')
     for quad in rupture.getQuadrilaterals():
-- 
2.43.0


From 40c0a033fb469dd97e15132f50a94388db800471 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 21:32:25 +0000
Subject: [PATCH 079/105] fix: convert integer coordinates of any size to and
 from ECEF

Unsigned depths wrapped around when they were negated, and the products
of 32 bit ECEF coordinates overflowed (the result was NaN).
---
 impactutils/vectorutils/ecef.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/impactutils/vectorutils/ecef.py b/impactutils/vectorutils/ecef.py
index 3e6667e..4d89cc7 100755
--- a/impactutils/vectorutils/ecef.py
+++ b/impactutils/vectorutils/ecef.py
@@ -35,6 +35,10 @@ def ecef2latlon(x, y, z):
         y = np.array([y])
         z = np.array([z])
         inputIsScalar = True
+    # integer types may be too short for the products
+    x = x.astype(float)
+    y = y.astype(float)
+    z = z.astype(float)
     # WGS84 ellipsoid constants:
     a = 6378137
     e = 8.1819190842622e-2
@@ -88,7 +92,7 @@ def latlon2ecef(lat, lon, dep):
     Return:
         Tuple of x,y,z numpy arrays of ECEF coordinates.
     """
-    alt = -dep * 1000.0  # convert to altitude (positive UP) in meters
+    alt = dep * -1000.0  # convert to altitude (positive UP) in meters
     clat = np.cos(lat * DEGREES_TO_RADIANS)
     slat = np.sin(lat * DEGREES_TO_RADIANS)
     clon = np.cos(lon * DEGREES_TO_RADIANS)
-- 
2.43.0


From 322a31a64d1364bf6558b513bbd77c324f773f2d Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 21:32:25 +0000
Subject: [PATCH 080/105] fix: do not truncate U of sites on the trace for
 integer coordinates

---
 impactutils/rupture/gc2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index f2c4298..3778ab1 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -191,7 +191,7 @@ def _computeGC2(rupture, lon, lat, depth):
 
     # Sites that lie on the trace itself and their U coordinate
     on_trace = np.zeros(newshape, dtype=bool)
-    u_trace = np.zeros(newshape, dtype=lon.dtype)
+    u_trace = np.zeros(newshape)
 
     for i in range(len(quadgc2)):
         G0, G1, G2, G3 = quadgc2[i]
-- 
2.43.0


From 5638501ecbb386e9d3f98eee9426d5f7f82d5443 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 21:44:56 +0000
Subject: [PATCH 081/105] fix: compute distances for site arrays of any shape
 and memory layout

Arrays in column-major order (transposed grids) and arrays of more than
two dimensions failed.
---
 impactutils/rupture/edge_rupture.py | 24 ++++++++----------------
 impactutils/rupture/gc2.py          |  6 +-----
 impactutils/rupture/quad_rupture.py | 24 ++++++++----------------
 3 files changed, 17 insertions(+), 37 deletions(-)

diff --git a/impactutils/rupture/edge_rupture.py b/impactutils/rupture/edge_rupture.py
index 2747a95..fe1172b 100755
--- a/impactutils/rupture/edge_rupture.py
+++ b/impactutils/rupture/edge_rupture.py
@@ -549,16 +549,12 @@ class EdgeRupture(Rupture):
         # Sort out sites
         # ---------------------------------------------------------------------
         oldshape = lon.shape
-
-        if len(oldshape) == 2:
-            newshape = (oldshape[0] * oldshape[1], 1)
-        else:
-            newshape = (oldshape[0], 1)
+        newshape = (lon.size, 1)
 
         x, y, z = latlon2ecef(lat, lon, depth)
-        x.shape = newshape
-        y.shape = newshape
-        z.shape = newshape
+        x = x.reshape(newshape)
+        y = y.reshape(newshape)
+        z = z.reshape(newshape)
         sites_ecef = np.hstack((x, y, z))
 
         # ---------------------------------------------------------------------
@@ -626,16 +622,12 @@ class EdgeRupture(Rupture):
         # Sort out sites
         # ---------------------------------------------------------------------
         oldshape = lon.shape
-
-        if len(oldshape) == 2:
-            newshape = (oldshape[0] * oldshape[1], 1)
-        else:
-            newshape = (oldshape[0], 1)
+        newshape = (lon.size, 1)
 
         x, y, z = latlon2ecef(lat, lon, depth)
-        x.shape = newshape
-        y.shape = newshape
-        z.shape = newshape
+        x = x.reshape(newshape)
+        y = y.reshape(newshape)
+        z = z.reshape(newshape)
         sites_ecef = np.hstack((x, y, z))
 
         # ---------------------------------------------------------------------
diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index 3778ab1..5d1c2fb 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -34,11 +34,7 @@ def _computeGC2(rupture, lon, lat, depth):
     quadgc2 = copy.deepcopy(quadlist)
 
     oldshape = lon.shape
-
-    if len(oldshape) == 2:
-        newshape = (oldshape[0] * oldshape[1], 1)
-    else:
-        newshape = (oldshape[0], 1)
+    newshape = (lon.size, 1)
 
     # -------------------------------------------------------------------------
     # Define a projection that spans sites and rupture
diff --git a/impactutils/rupture/quad_rupture.py b/impactutils/rupture/quad_rupture.py
index b97d59c..8f8df30 100755
--- a/impactutils/rupture/quad_rupture.py
+++ b/impactutils/rupture/quad_rupture.py
@@ -1041,16 +1041,12 @@ class QuadRupture(Rupture):
         # Sort out sites
         # ---------------------------------------------------------------------
         oldshape = lon.shape
-
-        if len(oldshape) == 2:
-            newshape = (oldshape[0] * oldshape[1], 1)
-        else:
-            newshape = (oldshape[0], 1)
+        newshape = (lon.size, 1)
 
         x, y, z = latlon2ecef(lat, lon, depth)
-        x.shape = newshape
-        y.shape = newshape
-        z.shape = newshape
+        x = x.reshape(newshape)
+        y = y.reshape(newshape)
+        z = z.reshape(newshape)
         sites_ecef = np.hstack((x, y, z))
 
         minrjb = np.ones(newshape, dtype=lon.dtype) * 1e16
@@ -1091,16 +1087,12 @@ class QuadRupture(Rupture):
         # Sort out sites
         # ---------------------------------------------------------------------
         oldshape = lon.shape
-
-        if len(oldshape) == 2:
-            newshape = (oldshape[0] * oldshape[1], 1)
-        else:
-            newshape = (oldshape[0], 1)
+        newshape = (lon.size, 1)
 
         x, y, z = latlon2ecef(lat, lon, depth)
-        x.shape = newshape
-        y.shape = newshape
-        z.shape = newshape
+        x = x.reshape(newshape)
+        y = y.reshape(newshape)
+        z = z.reshape(newshape)
         sites_ecef = np.hstack((x, y, z))
 
         minrrup = np.ones(newshape, dtype=lon.dtype) * 1e16
-- 
2.43.0


From 4b64a30ec05ee0845e951fd9a8d4a5f70a05f2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 21:58:51 +0000
Subject: [PATCH 082/105] fix: turn points into circular polygons with current
 OpenQuake

get_orthographic_projection is gone from openquake.hazardlib.geo.utils, so
Point.to_polygon raised AttributeError.
---
 impactutils/extern/openquake/point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/extern/openquake/point.py b/impactutils/extern/openquake/point.py
index 4943d8f..7ddd3d0 100644
--- a/impactutils/extern/openquake/point.py
+++ b/impactutils/extern/openquake/point.py
@@ -269,7 +269,7 @@ class Point(object):
         # avoid circular imports
         from openquake.hazardlib.geo.polygon import Polygon
         # get a projection that is centered in the point
-        proj = geo_utils.get_orthographic_projection(
+        proj = geo_utils.OrthographicProjection(
             self.longitude, self.longitude, self.latitude, self.latitude
         )
         # create a shapely object from a projected point coordinates,
-- 
2.43.0


From 9a58e9a9682749f9e5aeedf76b384fcb250dcee7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 21:58:51 +0000
Subject: [PATCH 083/105] fix: create points from vectors with current
 OpenQuake

cartesian_to_spherical takes an array of vectors now, so Point.from_vector
raised TypeError for every tuple, list or array.
---
 impactutils/extern/openquake/point.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/impactutils/extern/openquake/point.py b/impactutils/extern/openquake/point.py
index 7ddd3d0..f8f8e46 100644
--- a/impactutils/extern/openquake/point.py
+++ b/impactutils/extern/openquake/point.py
@@ -312,4 +312,6 @@ class Point(object):
         :returns:
             A :class:`Point` object created from those coordinates.
         """
-        return cls(*geo_utils.cartesian_to_spherical(vector))
+        lon, lat, depth = geo_utils.cartesian_to_spherical(
+            numpy.array([vector], dtype=float))
+        return cls(lon[0], lat[0], depth[0])
-- 
2.43.0


From b72a5ae96705a98f0e9bff90d104ec5fd30139fd Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 21:58:51 +0000
Subject: [PATCH 084/105] fix: make the vendored geographic utilities
 importable

Current OpenQuake has neither geodetic.min_idx_dst nor baselib.slots, so
impactutils.extern.openquake.utils could not be imported at all.
---
 impactutils/extern/openquake/utils.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/impactutils/extern/openquake/utils.py b/impactutils/extern/openquake/utils.py
index ab9944b..7e56e44 100644
--- a/impactutils/extern/openquake/utils.py
+++ b/impactutils/extern/openquake/utils.py
@@ -30,9 +30,7 @@ import numpy
 import shapely.geometry
 
 from openquake.hazardlib.geo import geodetic
-from openquake.hazardlib.geo.geodetic import (
-    EARTH_RADIUS, geodetic_distance, min_idx_dst)
-from openquake.baselib.slots import with_slots
+from openquake.hazardlib.geo.geodetic import EARTH_RADIUS, geodetic_distance
 
 SphericalBB = collections.namedtuple('SphericalBB', 'west east north south')
 
@@ -77,8 +75,9 @@ class GeographicObjects(object):
             min_dist = geodetic_distance(
                 lon, lat, self.lons[idx], self.lats[idx])
         else:
-            zeros = numpy.zeros_like(self.lons)
-            idx, min_dist = min_idx_dst(self.lons, self.lats, zeros, lon, lat)
+            dists = geodetic_distance(lon, lat, self.lons, self.lats)
+            idx = dists.argmin()
+            min_dist = dists[idx]
         return self.objects[idx], min_dist
 
 
@@ -184,7 +183,6 @@ def get_spherical_bounding_box(lons, lats):
     return SphericalBB(west, east, north, south)
 
 
-@with_slots
 class OrthographicProjection(object):
     """
     Callable object to compute orthographic projections. See the docstring
-- 
2.43.0


From 1fd21416f836966d4680dc7a44515b7f028b14dc Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 22:10:10 +0000
Subject: [PATCH 085/105] fix: do not put files into remote folders of the same
 name by SSH

A remote folder with the name of a file that is sent received the temporary
file, and send reported success.
---
 impactutils/transfer/securesender.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index 91a2402..df483f0 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -223,7 +223,9 @@ class SecureSender(Sender):
             datetime.datetime.utcnow().strftime('%Y%m%d%H%M%S')
         print(f'Copying {local_file}...')
         scp.put(local_file, remote_tmp_file)
-        rename_cmd = (f'mv {shlex.quote(remote_tmp_file)} '
+        # mv would put the file into a folder of that name
+        rename_cmd = (f'[ ! -d {shlex.quote(remote_file)} ] && '
+                      f'mv {shlex.quote(remote_tmp_file)} '
                       f'{shlex.quote(remote_file)}')
         stdin, stdout, stderr = ssh.exec_command(rename_cmd)
         # wait for the remote system to finish before closing the connection
-- 
2.43.0


From 1378c65d41a100b33cd9638d51fd0486bc86668d Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 086/105] fix: read city names consisting of digits as text

---
 impactutils/mapping/city.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index b558aea..e153fd9 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -164,7 +164,7 @@ class Cities(object):
         """
         # NA is the country code of Namibia, not a missing value
         df = pd.read_csv(csvfile, keep_default_na=False,
-                         na_values=['', 'nan', 'NaN'])
+                         na_values=['', 'nan', 'NaN'], dtype={'name': str})
         return cls(df)
 
     def len(self):
-- 
2.43.0


From 20b57775414581e1e6d41cfa69c381f3009394f4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 087/105] fix: search by name among cities some of which have
 none

---
 impactutils/mapping/city.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index e153fd9..38e5579 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -340,7 +340,8 @@ class Cities(object):
             Cities instance containing cities with names that match the input
             name/regular expression.
         """
-        newdf = self._dataframe[self._dataframe.name.str.contains(cityname)]
+        newdf = self._dataframe[self._dataframe.name.str.contains(cityname,
+                                                                  na=False)]
         return type(self)(newdf)
 
     def getDataFrame(self):
-- 
2.43.0


From f8ab44fb0fd9b6fc8458289d9ca52293e9f6cd1f Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 22:16:36 +0000
Subject: [PATCH 088/105] fix: return the bounding box when a side of it is on
 the prime meridian

---
 impactutils/extern/openquake/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/impactutils/extern/openquake/utils.py b/impactutils/extern/openquake/utils.py
index 7e56e44..38a3a57 100644
--- a/impactutils/extern/openquake/utils.py
+++ b/impactutils/extern/openquake/utils.py
@@ -501,13 +501,13 @@ def fix_bounding_box_idl(bb, fix_idl=False):
     """
     min_lon, min_lat, max_lon, max_lat = bb
     if cross_idl(min_lon, max_lon) or fix_idl:  # apply IDL fix
-        if min_lon < 0 and max_lon > 0:
+        if min_lon < 0 and max_lon >= 0:
             return max_lon, min_lat, min_lon + 360, max_lat
         elif min_lon < 0 and max_lon < 0:
             return min_lon + 360, min_lat, max_lon + 360, max_lat
-        elif min_lon > 0 and max_lon > 0:
+        elif min_lon >= 0 and max_lon >= 0:
             return min_lon, min_lat, max_lon, max_lat
-        elif min_lon > 0 and max_lon < 0:
+        elif min_lon >= 0 and max_lon < 0:
             return max_lon + 360, min_lat, min_lon, max_lat
     else:
         return min_lon, min_lat, max_lon, max_lat
-- 
2.43.0


From 7007a212eb09cdb1ecf55c17b0365116d77d84b2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 22:48:01 +0000
Subject: [PATCH 089/105] fix: bounding box of points on both sides of the date
 line when some are at -180 and some at 180

---
 impactutils/extern/openquake/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/extern/openquake/utils.py b/impactutils/extern/openquake/utils.py
index 38a3a57..b6f48e0 100644
--- a/impactutils/extern/openquake/utils.py
+++ b/impactutils/extern/openquake/utils.py
@@ -169,7 +169,7 @@ def get_spherical_bounding_box(lons, lats):
     north, south = numpy.max(lats), numpy.min(lats)
     west, east = numpy.min(lons), numpy.max(lons)
     assert (-180 <= west <= 180) and (-180 <= east <= 180)
-    if get_longitudinal_extent(west, east) < 0:
+    if get_longitudinal_extent(west, east) < 0 or east - west == 360:
         # points are lying on both sides of the international date line
         # (meridian 180). the actual west longitude is the lowest positive
         # longitude and east one is the highest negative.
-- 
2.43.0


From af9b6e76b792a1e966fbd4427198513058e073a5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 22:53:58 +0000
Subject: [PATCH 090/105] fix: sending a file by FTP does not replace the
 remote file of its name with .tmp

---
 impactutils/transfer/ftpsender.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/impactutils/transfer/ftpsender.py b/impactutils/transfer/ftpsender.py
index 9857477..11f20ee 100755
--- a/impactutils/transfer/ftpsender.py
+++ b/impactutils/transfer/ftpsender.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 
 # stdlib imports
+import datetime
 from ftplib import FTP, error_perm
 import os.path
 import shutil
@@ -253,7 +254,8 @@ class FTPSender(Sender):
         # make a temporary file first, then rename it
         # so the poller doesn't grab it before its finished transferring.
         fbase, fpath = os.path.split(filename)  # this is a local file
-        tmpfile = fpath + '.tmp'
+        tmpfile = fpath + '.tmp_' + \
+            datetime.datetime.utcnow().strftime('%Y%m%d%H%M%S')
         cmd = "STOR " + tmpfile
         # we don't tell the ftp server about the local path to the file
 
-- 
2.43.0


From dd24db104afa8f24962929363004fb4b4178c526 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 22:56:48 +0000
Subject: [PATCH 091/105] fix: %F and %C of years before 1900 do not give
 another year

---
 impactutils/time/ancient_time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/impactutils/time/ancient_time.py b/impactutils/time/ancient_time.py
index e9eba11..eb53c3f 100755
--- a/impactutils/time/ancient_time.py
+++ b/impactutils/time/ancient_time.py
@@ -38,6 +38,8 @@ class HistoricTime(datetime):
         future_year = year + factor * 400
         assert future_year >= 1900
 
+        format = Specifier('%F').replace_in(format, '%Y-%m-%d')
+        format = Specifier('%C').replace_in(format, f'{year // 100:02d}')
         format = Specifier('%Y').replace_in(format, f'{year:04d}')
         format = Specifier('%G').replace_in(
             format, f'{self.isocalendar()[0]:04d}')
-- 
2.43.0


From 24d18b6fa975c55449a315f1aeafb4c839dc6b18 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 23:02:01 +0000
Subject: [PATCH 092/105] fix: abbreviated populations in millions are rounded,
 not cut off

---
 impactutils/textformat/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/textformat/text.py b/impactutils/textformat/text.py
index 6a36f66..accdb3f 100644
--- a/impactutils/textformat/text.py
+++ b/impactutils/textformat/text.py
@@ -157,7 +157,7 @@ def pop_round_short(value, usemillion=False):
         suffix = 'k'
 
     roundValue = suffixdict[suffix]
-    roundnum = round_to_nearest(value) // roundValue
+    roundnum = round_to_nearest(value, roundValue) // roundValue
     if roundnum == 0:
         return str(roundnum)
     else:
-- 
2.43.0


From 0429c77aefcc27af97680a05a9a50bfc6914d878 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 23:36:34 +0000
Subject: [PATCH 093/105] fix: the Joyner-Boore distance of sites at the
 antipode of a rupture is not zero

---
 impactutils/rupture/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/impactutils/rupture/utils.py b/impactutils/rupture/utils.py
index 2b5cf6b..2f16457 100755
--- a/impactutils/rupture/utils.py
+++ b/impactutils/rupture/utils.py
@@ -473,6 +473,8 @@ def _quad_distance(q, points, horizontal=False):
 
     inside_idx = (sgn0 == sgn1) & (sgn1 == sgn2) & (sgn2 == sgn3)
     if horizontal:
+        # verticals through the quad come out at the other side of the Earth
+        inside_idx &= np.sum(points * normalVector.getArray(), axis=1) > 0
         dist[inside_idx] = 0.0
     else:
         dist[inside_idx] = np.power(np.abs(
-- 
2.43.0


From f3335e6d80d3adc77388c04971d5092eb6882f59 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 23:39:13 +0000
Subject: [PATCH 094/105] fix: the Joyner-Boore distance of sites in line with
 a vertical rupture is not zero

---
 impactutils/rupture/utils.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/impactutils/rupture/utils.py b/impactutils/rupture/utils.py
index 2f16457..ddd6082 100755
--- a/impactutils/rupture/utils.py
+++ b/impactutils/rupture/utils.py
@@ -466,12 +466,17 @@ def _quad_distance(q, points, horizontal=False):
     n2 = (p3 - p2).cross(normalVector).getArray()
     n3 = (p0 - p3).cross(normalVector).getArray()
 
-    sgn0 = np.signbit(np.sum(n0 * p0d, axis=1))
-    sgn1 = np.signbit(np.sum(n1 * p1d, axis=1))
-    sgn2 = np.signbit(np.sum(n2 * p2d, axis=1))
-    sgn3 = np.signbit(np.sum(n3 * p3d, axis=1))
-
-    inside_idx = (sgn0 == sgn1) & (sgn1 == sgn2) & (sgn2 == sgn3)
+    # Points are inside when they are on the same side of all planes. Those
+    # closer than a millimeter to a plane count as outside: the distance to
+    # the edge is right for them if they are near the edge, and they are not
+    # inside if the quad has no area (as the projection of a vertical rupture).
+    sides = []
+    for n, pd in ((n0, p0d), (n1, p1d), (n2, p2d), (n3, p3d)):
+        length = np.linalg.norm(n)
+        if length > 1e-3:
+            side = np.sum(n * pd, axis=1) / length
+            sides.append(np.where(np.abs(side) > 1e-3, np.sign(side), 0.0))
+    inside_idx = np.abs(np.sum(sides, axis=0)) == max(len(sides), 1)
     if horizontal:
         # verticals through the quad come out at the other side of the Earth
         inside_idx &= np.sum(points * normalVector.getArray(), axis=1) > 0
-- 
2.43.0


From e95dd76218ab368fbd3a5b7b076fc9510b211f1a Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 23:58:50 +0000
Subject: [PATCH 095/105] fix: SCP put ends when a file becomes shorter, and
 sends no more than announced

---
 impactutils/extern/scp/scp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index f8f0dc2..1a219c4 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -257,7 +257,13 @@ class SCPClient(object):
             buff_size = self.buff_size
             chan = self.channel
             while file_pos < size:
-                chan.sendall(file_hdl.read(buff_size))
+                # not more than announced, even if the file has grown
+                data = file_hdl.read(min(buff_size, size - file_pos))
+                if not data:
+                    file_hdl.close()
+                    raise SCPException(
+                        f'{asunicode(name)} has become shorter')
+                chan.sendall(data)
                 file_pos = file_hdl.tell()
                 if self._progress:
                     self._progress(basename, size, file_pos)
-- 
2.43.0


From f42f354eb923b24dc98f53ad296506f042581bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Thu, 19 Nov 2026 00:41:00 +0000
Subject: [PATCH 096/105] fix: historic times raise for formats that would show
 the year of another century

---
 impactutils/time/ancient_time.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/impactutils/time/ancient_time.py b/impactutils/time/ancient_time.py
index eb53c3f..e2306bc 100755
--- a/impactutils/time/ancient_time.py
+++ b/impactutils/time/ancient_time.py
@@ -27,6 +27,12 @@ class Specifier(str):
         return self._regex.sub(repl, format)
 
 
+# seconds since 1970, and directives with the year that replace_in() does not
+# find: with flags ('%-Y'), field widths ('%6Y') or modifiers ('%EY')
+_UNRELIABLE = re.compile(r'(?<!%)(?:%%)*%(?:[-_0^#+\d]*[EO]?s|'
+                         r'(?:[-_0^#+\d]+[EO]?|[EO])[YCGFcx])')
+
+
 class HistoricTime(datetime):
 
     def strftime(self, format):
@@ -34,6 +40,10 @@ class HistoricTime(datetime):
         if year >= 1900:
             return super(HistoricTime, self).strftime(format)
         assert year < 1900
+        if _UNRELIABLE.search(format):
+            raise ValueError("'%s' and flags, widths or modifiers of the "
+                             "year produce unreliable results for "
+                             "year < 1900")
         factor = (1900 - year - 1) // 400 + 1
         future_year = year + factor * 400
         assert future_year >= 1900
-- 
2.43.0


From cc73e3bc9932b4e3ed91f76c41bb7d6b5bbb2105 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Thu, 19 Nov 2026 00:46:14 +0000
Subject: [PATCH 097/105] fix: origins refuse a latitude or longitude that is
 not a number

---
 impactutils/rupture/origin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/origin.py b/impactutils/rupture/origin.py
index f162897..f869dfd 100755
--- a/impactutils/rupture/origin.py
+++ b/impactutils/rupture/origin.py
@@ -77,10 +77,10 @@ class Origin(object):
         if not type(event['id']) is str and event['id'] is not None:
             raise TypeError('event id  must be a string.')
 
-        if float(event['lat']) > 90 or float(event['lat']) < -90:
+        if not -90 <= float(event['lat']) <= 90:
             raise ValueError('lat must be between -90 and 90 degrees.')
 
-        if float(event['lon']) > 180 or float(event['lon']) < -180:
+        if not -180 <= float(event['lon']) <= 180:
             raise ValueError('lon must be between -180 and 180 degrees.')
 
         if 'type' in ekeys and 'mech' not in ekeys:
-- 
2.43.0


From e1336215ef90b34a9efafca689dea5e518978467 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Thu, 19 Nov 2026 00:46:14 +0000
Subject: [PATCH 098/105] fix: the type of an origin counts when its mech is
 empty, and the event given is not changed

---
 impactutils/rupture/origin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/impactutils/rupture/origin.py b/impactutils/rupture/origin.py
index f869dfd..ec310e0 100755
--- a/impactutils/rupture/origin.py
+++ b/impactutils/rupture/origin.py
@@ -83,9 +83,9 @@ class Origin(object):
         if not -180 <= float(event['lon']) <= 180:
             raise ValueError('lon must be between -180 and 180 degrees.')
 
-        if 'type' in ekeys and 'mech' not in ekeys:
-            event['mech'] = event['type']
-            del event['type']
+        event = dict(event)
+        if 'type' in ekeys and event.get('mech', '') == '':
+            event['mech'] = event.pop('type')
         if 'mech' in event.keys():
             if event['mech'] == '':
                 event['mech'] = constants.DEFAULT_MECH
-- 
2.43.0


From 786b7ebf7b097a12272ba69d0a09fb19c6efd021 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Thu, 19 Nov 2026 00:52:08 +0000
Subject: [PATCH 099/105] fix: get_rupture reads GeoJSON in UTF-8, with Latin-1
 as fallback

---
 impactutils/rupture/factory.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/factory.py b/impactutils/rupture/factory.py
index 4a5eb29..3f87f97 100644
--- a/impactutils/rupture/factory.py
+++ b/impactutils/rupture/factory.py
@@ -60,8 +60,12 @@ def get_rupture(origin, file=None, mesh_dx=0.5, new_format=True):
             # First, try to read as a json file
             # -----------------------------------------------------------------
             if isinstance(file, str):
-                with open(file, encoding="latin-1") as f:
-                    d = json.load(f)
+                with open(file, 'rb') as f:
+                    data = f.read()
+                try:
+                    d = json.loads(data)
+                except UnicodeDecodeError:
+                    d = json.loads(data.decode('latin-1'))
             else:
                 d = json.loads(str(file))
 
-- 
2.43.0


From 031fa9a20cbe4b116cc20b1e391b70a8fe9a4569 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Thu, 19 Nov 2026 00:53:02 +0000
Subject: [PATCH 100/105] fix: references of rupture text files are read and
 written in UTF-8

---
 impactutils/rupture/factory.py      | 9 ++++++++-
 impactutils/rupture/quad_rupture.py | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/factory.py b/impactutils/rupture/factory.py
index 3f87f97..262fcdc 100644
--- a/impactutils/rupture/factory.py
+++ b/impactutils/rupture/factory.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python3
 
 # stdlib modules
+import io
 import json
 import logging
 import copy
@@ -305,7 +306,13 @@ def text_to_json(file, new_format=True):
     if hasattr(file, 'read'):
         f = file
     else:
-        f = open(file, 'rt', encoding="latin-1")
+        with open(file, 'rb') as fbytes:
+            data = fbytes.read()
+        try:
+            text = data.decode('utf-8-sig')
+        except UnicodeDecodeError:
+            text = data.decode('latin-1')
+        f = io.StringIO(text, newline=None)
         isfile = True
 
     reference = ''
diff --git a/impactutils/rupture/quad_rupture.py b/impactutils/rupture/quad_rupture.py
index 8f8df30..e3fb14e 100755
--- a/impactutils/rupture/quad_rupture.py
+++ b/impactutils/rupture/quad_rupture.py
@@ -405,7 +405,7 @@ class QuadRupture(Rupture):
 
         """
         if not hasattr(rupturefile, 'read'):
-            f = open(rupturefile, 'wt')
+            f = open(rupturefile, 'wt', encoding='utf-8')
         else:
             f = rupturefile  # just a reference to the input file-like object
         f.write(f'#{self._reference}\n')
-- 
2.43.0


From 93c00a5e1fe8eaa1179e9e703dc146aa86764275 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Thu, 19 Nov 2026 00:53:02 +0000
Subject: [PATCH 101/105] fix: rupture text files with a reference of several
 lines can be read

---
 impactutils/rupture/quad_rupture.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/impactutils/rupture/quad_rupture.py b/impactutils/rupture/quad_rupture.py
index e3fb14e..c930070 100755
--- a/impactutils/rupture/quad_rupture.py
+++ b/impactutils/rupture/quad_rupture.py
@@ -408,7 +408,9 @@ class QuadRupture(Rupture):
             f = open(rupturefile, 'wt', encoding='utf-8')
         else:
             f = rupturefile  # just a reference to the input file-like object
-        f.write(f'#{self._reference}\n')
+        # every line of the reference has to be a comment
+        reference = str(self._reference).replace('\r', '\n')
+        f.write('#' + reference.replace('\n', '\n#') + '\n')
         for quad in self.getQuadrilaterals():
             P0, P1, P2, P3 = quad
             f.write(f"{P0.latitude:.4f} {P0.longitude:.4f} {P0.depth:.4f}\n")
-- 
2.43.0


From af11d32ca4244ac35a48440298d344fa640c25bf Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Thu, 19 Nov 2026 00:54:01 +0000
Subject: [PATCH 102/105] fix: pound signs inside the reference of a rupture
 text file are kept

---
 impactutils/rupture/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/rupture/factory.py b/impactutils/rupture/factory.py
index 262fcdc..e8e62c2 100644
--- a/impactutils/rupture/factory.py
+++ b/impactutils/rupture/factory.py
@@ -324,7 +324,7 @@ def text_to_json(file, new_format=True):
 
         if line.strip().startswith('#'):
             # Get reference string
-            reference += line.strip().replace('#', '')
+            reference += line.strip().lstrip('#')
             continue
 
         if line.strip().startswith('>'):
-- 
2.43.0


From ac8e4727aa2ce5b3a4dbf4326d3529578c30eccd Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Thu, 19 Nov 2026 00:58:08 +0000
Subject: [PATCH 103/105] fix: PDL event times of other time zones are sent in
 UTC, and years have four digits

---
 impactutils/transfer/pdlsender.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/impactutils/transfer/pdlsender.py b/impactutils/transfer/pdlsender.py
index 126a61d..c07c8a5 100755
--- a/impactutils/transfer/pdlsender.py
+++ b/impactutils/transfer/pdlsender.py
@@ -110,6 +110,11 @@ class PDLSender(Sender):
                   for propkey in self._required_properties}
         return self._replace_pieces(cmd, values)
 
+    @staticmethod
+    def _format_time(time):
+        # strftime does not pad the years before 1000
+        return time.replace(tzinfo=None).isoformat(timespec='milliseconds')
+
     def _replace_product_properties(self, cmd):
         if hasattr(self, '_product_properties'):
             prop_nuggets = []
@@ -122,7 +127,7 @@ class PDLSender(Sender):
                         f'--property-{propkey}={int(propvalue):d}')
                 elif isinstance(propvalue, datetime.datetime):
                     prop_nuggets.append(
-                        f'--property-{propkey}={propvalue.strftime(DATE_TIME_FMT)[0:23]}')
+                        f'--property-{propkey}={self._format_time(propvalue)}')
                 elif isinstance(propvalue, str):
                     prop_nuggets.append(f'--property-{propkey}={propvalue}')
                 else:
@@ -154,8 +159,12 @@ class PDLSender(Sender):
             for propkey in self._optional_properties:
                 if propkey in self._properties:
                     if propkey == 'eventtime':
+                        eventtime = self._properties[propkey]
+                        if eventtime.utcoffset() is not None:
+                            eventtime = eventtime.astimezone(
+                                datetime.timezone.utc)
                         opt_nuggets.append(
-                            f'--{propkey}={self._properties[propkey].strftime(DATE_TIME_FMT)[0:23]}Z')
+                            f'--{propkey}={self._format_time(eventtime)}Z')
                     else:
                         fmt = '--%s=' + self._optional_properties_fmt[propkey]
                         opt_nuggets.append(
-- 
2.43.0


From 2fc8731a6cca7a95b4224282a68d0b6c5023e179 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Thu, 19 Nov 2026 01:01:52 +0000
Subject: [PATCH 104/105] fix: data frames keep the text, digits, types and row
 order they were stored with

---
 impactutils/io/container.py | 56 ++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/impactutils/io/container.py b/impactutils/io/container.py
index 1265a01..0b73250 100644
--- a/impactutils/io/container.py
+++ b/impactutils/io/container.py
@@ -438,15 +438,35 @@ class HDFContainer(object):
         else:
             dataframe_group = self._hdfobj[GROUPS['dataframe']]
 
-        inbytes = dataframe.to_json(date_format='iso').encode('utf-8')
+        # pandas finds types again by guessing (the text '010' becomes 10), so
+        # store each column with its type, and the rows in their order
+        fmt = {'date_format': 'iso', 'date_unit': 'ns', 'double_precision': 15}
+        contents = json.loads(dataframe.iloc[:, :0].to_json(
+            orient='split', **fmt))
+        contents['columns'] = json.loads(dataframe.iloc[:0].to_json(
+            orient='split', **fmt))['columns']
+        contents['index_type'] = str(dataframe.index.dtype)
+        contents['index_names'] = list(dataframe.index.names)
+        contents['types'] = [str(dtype) for dtype in dataframe.dtypes]
+        contents['data'] = []
+        for idx, ctype in enumerate(contents['types']):
+            column = dataframe.iloc[:, idx]
+            if ctype in ('float64', 'float32'):
+                contents['data'].append(column.tolist())
+            else:
+                contents['data'].append(json.loads(
+                    column.to_json(orient='values', **fmt)))
+        inbytes = json.dumps(contents).encode('utf-8')
         mdataset = dataframe_group.create_dataset(dataframe_name, data=inbytes)
-        # use attributes to store time columns?
-        cidx = dataframe.select_dtypes(include=['datetime64[ns]']).columns
-        clist = cidx.tolist()
-        cstr = json.dumps(clist)
-        mdataset.attrs['time_columns'] = cstr.encode('utf-8')
         return mdataset
 
+    @staticmethod
+    def _restore_type(values, type_name):
+        if type_name.startswith('datetime64[ns, '):
+            # the times are stored in UTC
+            values = values.astype('datetime64[ns, UTC]')
+        return values.astype(type_name)
+
     def getDataFrame(self, name):
         """Return a DataFrame stored in container.
 
@@ -464,10 +484,26 @@ class HDFContainer(object):
         mdataset = dataframe_group[dataframe_name]
         outstring = mdataset[()].decode('utf-8')
 
-        # in setDataFrame, we stored the names of the
-        # date/time columns in an attribute.  Let's use that
-        # now to make sure those are read back in with the appropriate
-        # type
+        if 'time_columns' not in mdataset.attrs:
+            contents = json.loads(outstring)
+            data = {idx: self._restore_type(
+                        pd.Series(values, dtype='object'), ctype)
+                    for idx, (values, ctype) in enumerate(
+                        zip(contents['data'], contents['types']))}
+            index, columns = [
+                pd.Index([tuple(label) if isinstance(label, list) else label
+                          for label in contents[axis]])
+                for axis in ('index', 'columns')]
+            dataframe = pd.DataFrame(data, index=range(len(index)))
+            dataframe.index = self._restore_type(
+                index, contents['index_type'])
+            dataframe.index.names = contents['index_names']
+            dataframe.columns = columns
+            return dataframe
+
+        # older files have the names of the date/time columns in an
+        # attribute.  Let's use that now to make sure those are read
+        # back in with the appropriate type
         cstr = mdataset.attrs['time_columns']
         if isinstance(cstr, bytes):  # h5py 3 returns str here
             cstr = cstr.decode('utf-8')
-- 
2.43.0


From 8934950e5a69a9a17c3e20fcc005f6ba1ada66d6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Thu, 19 Nov 2026 01:40:31 +0000
Subject: [PATCH 105/105] fix: senders working in one remote directory at a
 time do not disturb each other

---
 impactutils/transfer/copysender.py   | 15 +++++++++------
 impactutils/transfer/ftpsender.py    | 11 +++++++----
 impactutils/transfer/securesender.py |  5 ++---
 3 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/impactutils/transfer/copysender.py b/impactutils/transfer/copysender.py
index 2d09ee4..9e62055 100755
--- a/impactutils/transfer/copysender.py
+++ b/impactutils/transfer/copysender.py
@@ -3,7 +3,7 @@
 # stdlib imports
 import shutil
 import os.path
-import datetime
+import uuid
 
 # local imports
 from .sender import Sender
@@ -61,11 +61,15 @@ class CopySender(Sender):
         # remove any previous cancel files sent to remote_folder
         cancelfile = os.path.join(remote_folder, self._cancelfile)
         if os.path.isfile(cancelfile):
-            os.remove(cancelfile)
+            try:
+                os.remove(cancelfile)
+            except FileNotFoundError:
+                # another sender was faster
+                pass
 
         nfiles = 0
         if not os.path.isdir(remote_folder):
-            os.makedirs(remote_folder)
+            os.makedirs(remote_folder, exist_ok=True)
         if self._local_directory:
             local_folder = self._local_directory
             # recursively find all of the files locally, then
@@ -137,11 +141,10 @@ class CopySender(Sender):
                 remote_folder, os.path.relpath(local_file, local_folder))
             root, rfile = os.path.split(remote_file)
             if not os.path.isdir(root):
-                os.makedirs(root)
+                os.makedirs(root, exist_ok=True)
         else:
             root, tfile = os.path.split(local_file)
             remote_file = os.path.join(remote_folder, tfile)
-        remote_tmp_file = remote_file + '.tmp_' + \
-            datetime.datetime.utcnow().strftime('%Y%m%d%H%M%S')
+        remote_tmp_file = remote_file + '.tmp_' + uuid.uuid4().hex[:14]
         shutil.copyfile(local_file, remote_tmp_file)
         os.rename(remote_tmp_file, remote_file)
diff --git a/impactutils/transfer/ftpsender.py b/impactutils/transfer/ftpsender.py
index 11f20ee..7a31b12 100755
--- a/impactutils/transfer/ftpsender.py
+++ b/impactutils/transfer/ftpsender.py
@@ -1,7 +1,7 @@
 #!/usr/bin/env python
 
 # stdlib imports
-import datetime
+import uuid
 from ftplib import FTP, error_perm
 import os.path
 import shutil
@@ -190,7 +190,11 @@ class FTPSender(Sender):
                     ftp.cwd(directory)
                 except error_perm as msg:
                     try:
-                        ftp.mkd(directory)
+                        try:
+                            ftp.mkd(directory)
+                        except error_perm:
+                            # another sender may have made it meanwhile
+                            pass
                         ftp.cwd(directory)
                     except error_perm as msg:
                         raise Exception(
@@ -254,8 +258,7 @@ class FTPSender(Sender):
         # make a temporary file first, then rename it
         # so the poller doesn't grab it before its finished transferring.
         fbase, fpath = os.path.split(filename)  # this is a local file
-        tmpfile = fpath + '.tmp_' + \
-            datetime.datetime.utcnow().strftime('%Y%m%d%H%M%S')
+        tmpfile = fpath + '.tmp_' + uuid.uuid4().hex[:14]
         cmd = "STOR " + tmpfile
         # we don't tell the ftp server about the local path to the file
 
diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index df483f0..f64db0b 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -2,7 +2,7 @@
 
 # stdlib imports
 import os.path
-import datetime
+import uuid
 import getpass
 import shlex
 
@@ -219,8 +219,7 @@ class SecureSender(Sender):
         else:
             root, tfile = os.path.split(local_file)
             remote_file = os.path.join(remote_folder, tfile)
-        remote_tmp_file = remote_file + '.tmp_' + \
-            datetime.datetime.utcnow().strftime('%Y%m%d%H%M%S')
+        remote_tmp_file = remote_file + '.tmp_' + uuid.uuid4().hex[:14]
         print(f'Copying {local_file}...')
         scp.put(local_file, remote_tmp_file)
         # mv would put the file into a folder of that name
-- 
2.43.0

