From 37bef9fc71a8faf4eefc52395d503f18bb7c4764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:33 +0000
Subject: [PATCH 001/171] fix: pass the reader options on when the file format
 is given explicitly

---
 weio/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/__init__.py b/weio/__init__.py
index cc31316..c93bb57 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -246,7 +246,7 @@ def read(filename, fileformat=None, **kwargs):
         fileformat,F = detectFormat(filename, **kwargs)
     # Reading the file with the appropriate class if necessary
     if not isinstance(F, fileformat.constructor):
-        F=fileformat.constructor(filename=filename)
+        F=fileformat.constructor(filename=filename, **kwargs)
     return F
 
 
-- 
2.43.0


From ea64146dab033cba46c81a172d48ed5d111c841d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:51 +0000
Subject: [PATCH 002/171] fix: skip __init__.py when looking for user formats
 (the full path was compared)

---
 weio/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/__init__.py b/weio/__init__.py
index c93bb57..eebe3fb 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -143,7 +143,7 @@ def userFileClasses(userpath=None, ignoreErrors=False, verbose=True):
         pyfiles = glob.glob(os.path.join(userpath,'*.py'))
         # Loop through files, look for classes of the form ClassNameFile, 
         for f in pyfiles:
-            if f in ['__init__.py']:
+            if os.path.basename(f) in ['__init__.py']:
                 continue
             mod_name = os.path.basename(os.path.splitext(f)[0])
             try:
-- 
2.43.0


From 8f0291877f9e268443a946c90c496a4ff9700e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:51 +0000
Subject: [PATCH 003/171] fix: fileFormats(ignoreErrors=True) returns the
 errors as well when the list of formats is cached

---
 weio/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weio/__init__.py b/weio/__init__.py
index eebe3fb..417db8e 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -12,15 +12,16 @@ class UserFormatImportError(Exception):
 
 
 _FORMATS=None
+_FORMATS_ERRORS=[] # errors found when the list of formats was built
 
 def fileFormats(userpath=None, ignoreErrors=False, verbose=False):
     """ return list of fileformats supported by the library
     If userpath is provided, 
 
     """
-    global _FORMATS
+    global _FORMATS, _FORMATS_ERRORS
     if _FORMATS is not None:
-        return _FORMATS
+        return (_FORMATS, _FORMATS_ERRORS) if ignoreErrors else _FORMATS
     # --- Library formats
     from .fast_input_file         import FASTInputFile
     from .fast_output_file        import FASTOutputFile
@@ -117,6 +118,7 @@ def fileFormats(userpath=None, ignoreErrors=False, verbose=False):
     formats = np.asarray(formats)[np.argsort(priorities, kind='stable')]
 
     _FORMATS=formats
+    _FORMATS_ERRORS=errors
     if ignoreErrors:
         return formats, errors
     else:
-- 
2.43.0


From 94597eb8775013f2d978829846f5e88ccfd637f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:50 +0000
Subject: [PATCH 004/171] fix: FAST text output with a single time step is read
 as a table

---
 weio/fast_output_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 94ee22c..800042e 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -187,7 +187,7 @@ def load_ascii_output(filename):
         # Data, up to end of file or empty line (potential comment line at the end)
 #         data = np.array([l.strip().split() for l in takewhile(lambda x: len(x.strip())>0, f.readlines())]).astype(np.float)
         # ---
-        data = np.loadtxt(f, comments=('This')) # Adding "This" for the Hydro Out files..
+        data = np.loadtxt(f, comments=('This'), ndmin=2) # Adding "This" for the Hydro Out files..
         return data, info
 
 
-- 
2.43.0


From e4a89cbb74adada934ebec620947c5d3581ece04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:50 +0000
Subject: [PATCH 005/171] fix: columns without units get no units when a table
 is written to FAST binary

---
 weio/fast_output_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 800042e..7231bc6 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -366,7 +366,7 @@ def writeDataFrame(df, filename, binary=True):
     for c in df.columns:
         c     = c.strip()
         name  = c
-        units = ''
+        unit  = ''
         if c[-1]==']':
             chars=['[',']']
         elif c[-1]==')':
@@ -410,7 +410,7 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
     # Data sanitization
     chanNames = list(chanNames)
     channels  = np.asarray(channels)
-    if chanUnits[0][0]!='(':
+    if not all(u.startswith('(') for u in chanUnits):
         chanUnits = ['('+u+')' for u in chanUnits] # units surrounded by parenthesis to match OpenFAST convention
 
     nT, nChannelsWithTime = np.shape(channels)
-- 
2.43.0


From 9ffb9ef063c8db8c95995df80fcc1fd6b95927c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:50 +0000
Subject: [PATCH 006/171] fix: channel names and units of more than 10
 characters can be written to FAST binary

---
 weio/fast_output_file.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 7231bc6..0e1821d 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -444,8 +444,13 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
     ColScl  = np.single(int16Rng/ranges)
     ColOff  = np.single(int16Min - np.single(mins)*ColScl)
     
+    # Names and units that do not fit in the default length are written with the extended format
+    nChar = max([10]+[len(s) for s in chanNames]+[len(s) for s in chanUnits])
+    if fileID == 2 and nChar>10:
+        fileID = 4
+
     #Just available for fileID 
-    if fileID != 2:
+    if fileID not in [2, 4]:
         print("current version just works with FileID = 2")
 
     else:
@@ -460,6 +465,8 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
 
             # Write header informations
             fid.write(struct.pack('@h',fileID))
+            if fileID == 4:
+                fid.write(struct.pack('@h',nChar))
             fid.write(struct.pack('@i',nChannels))
             fid.write(struct.pack('@i',nT))
             fid.write(struct.pack('@d',timeStart))
@@ -472,13 +479,13 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
 
             # Write channel names
             for chan in chanNames:
-                ordchan = [ord(char) for char in chan]+ [32]*(10-len(chan))
-                fid.write(struct.pack('@10B', *ordchan))
+                ordchan = [ord(char) for char in chan]+ [32]*(nChar-len(chan))
+                fid.write(struct.pack('@{}B'.format(nChar), *ordchan))
 
             # Write channel units
             for unit in chanUnits:
-                ordunit = [ord(char) for char in unit]+ [32]*(10-len(unit))
-                fid.write(struct.pack('@10B', *ordunit))
+                ordunit = [ord(char) for char in unit]+ [32]*(nChar-len(unit))
+                fid.write(struct.pack('@{}B'.format(nChar), *ordunit))
 
             # Pack data
             packedData=np.zeros((nT, nChannels), dtype=np.int16)
-- 
2.43.0


From 33342415c2d11a57adc34222bd2876d33e4e7e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:50 +0000
Subject: [PATCH 007/171] fix: a single time step can be written to FAST binary

---
 weio/fast_output_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 0e1821d..6a1f0ce 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -426,7 +426,7 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
 
     time = channels[:,iTime]
     timeStart = time[0]
-    timeIncr  = time[1]-time[0]
+    timeIncr  = time[1]-time[0] if nT>1 else 0
     dataWithoutTime = channels[:,1:]
         
     # Compute data range, scaling and offsets to convert to int16
-- 
2.43.0


From ec0037ba711a188f42c5bafa260efd184be51d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:14 +0000
Subject: [PATCH 008/171] fix: removing the mean of a line or plane of a
 TurbSim box does not modify the box

---
 weio/turbsim_file.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 5cee26a..bd1324b 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -248,9 +248,9 @@ class TurbSimFile(File):
         v = ts['u'][1,:,iy0,iz0]
         w = ts['u'][2,:,iy0,iz0]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u-np.mean(u)
+            v = v-np.mean(v)
+            w = w-np.mean(w)
         return u, v, w
 
     def _latline(ts, ix0=None, iz0=None, removeMean=False):
@@ -264,9 +264,9 @@ class TurbSimFile(File):
         v = ts['u'][1,ix0,:,iz0]
         w = ts['u'][2,ix0,:,iz0]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u-np.mean(u)
+            v = v-np.mean(v)
+            w = w-np.mean(w)
         return u, v, w
 
     def _vertline(ts, ix0=None, iy0=None, removeMean=False):
@@ -280,9 +280,9 @@ class TurbSimFile(File):
         v = ts['u'][1,ix0,iy0,:]
         w = ts['u'][2,ix0,iy0,:]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u-np.mean(u)
+            v = v-np.mean(v)
+            w = w-np.mean(w)
         return u, v, w
 
     # --------------------------------------------------------------------------------}
@@ -301,9 +301,9 @@ class TurbSimFile(File):
         v = ts['u'][1,:,:,iz0]
         w = ts['u'][2,:,:,iz0]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u-np.mean(u)
+            v = v-np.mean(v)
+            w = w-np.mean(w)
         return u, v, w
 
     def verticalPlane(ts, y=None, iy0=None, removeMean=False):
@@ -319,9 +319,9 @@ class TurbSimFile(File):
         v = ts['u'][1,:,iy0,:]
         w = ts['u'][2,:,iy0,:]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u-np.mean(u)
+            v = v-np.mean(v)
+            w = w-np.mean(w)
         return u, v, w
 
     # --------------------------------------------------------------------------------}
-- 
2.43.0


From 21d41600ba8268402d2c3867482b150f7945e4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:14 +0000
Subject: [PATCH 009/171] fix: TurbSim fields are rounded and clipped to the 16
 bit range when written (constant or nearly constant fields were off by one
 unit or wrapped around)

---
 weio/turbsim_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index bd1324b..45f10ff 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -145,8 +145,8 @@ class TurbSimFile(File):
             else:
                 scl[k] = intrng / (all_max-all_min)
             off[k]    = intmin - scl[k] * all_min
-            out[k]    = (ts[k]    * scl[k] + off[k]).astype(np.int16)
-            outTwr[k] = (tsTwr[k] * scl[k] + off[k]).astype(np.int16)
+            out[k]    = np.clip(np.round(ts[k]    * scl[k] + off[k]), intmin, intmin+intrng).astype(np.int16)
+            outTwr[k] = np.clip(np.round(tsTwr[k] * scl[k] + off[k]), intmin, intmin+intrng).astype(np.int16)
         z0 = self['z'][0]
         dz = self['z'][1]- self['z'][0]
         dy = self['y'][1]- self['y'][0]
-- 
2.43.0


From b02167d6582d9d9660a37683903f582136c640d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:14 +0000
Subject: [PATCH 010/171] fix: a TurbSim box with a single tower point can be
 displayed

---
 weio/turbsim_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 45f10ff..1664498 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -566,7 +566,7 @@ class TurbSimFile(File):
 
         # Tower
         if 'zTwr' in self.keys() and len(self['zTwr'])>0:
-            s+=' - zTwr: [{} ... {}],  dz: {}, n: {} \n'.format(self['zTwr'][0],self['zTwr'][-1],self['zTwr'][1]-self['zTwr'][0],len(self['zTwr']))
+            s+=' - zTwr: [{} ... {}],  dz: {}, n: {} \n'.format(self['zTwr'][0],self['zTwr'][-1],self['z'][0]-self['z'][1],len(self['zTwr']))
         if 'uTwr' in self.keys() and self['uTwr'].shape[2]>0:
             s+=' - uTwr: ({} x {} x {} ) \n'.format(*(self['uTwr'].shape))
             ux,uy,uz=self['uTwr'][0], self['uTwr'][1], self['uTwr'][2]
-- 
2.43.0


From 3d12b3ebc3d5cead19a5fd4c7c3e58662b2f8171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:14 +0000
Subject: [PATCH 011/171] fix: the tower of a previous TurbSim box is not kept
 when the box is replaced by a Mann box

---
 weio/turbsim_file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 1664498..013ffee 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -698,8 +698,9 @@ class TurbSimFile(File):
         # TODO
         self['ID'] = 7 # ...
         self['info'] = 'Converted from MannBox fields {:s}.'.format(time.strftime('%d-%b-%Y at %H:%M:%S', time.localtime()))
-#         self['zTwr'] = np.array([])
-#         self['uTwr'] = np.array([])
+        # No tower in Mann boxes
+        self['zTwr'] = np.zeros(0)
+        self['uTwr'] = np.zeros((3,nt,0))
         self['zRef'] = None
         self['uRef'] = None
         self['zRef'], self['uRef'], bHub = self.hubValues()
-- 
2.43.0


From eca8f182e628961bc73fc003486fc0093d64f1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 012/171] fix: converting a HAWC2 dat file to a table does not
 rename the channels of the file object

---
 weio/hawc2_dat_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index 3a3bab4..f45aaaf 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -57,7 +57,7 @@ class HAWC2DatFile(File):
         import re
 
         # Simplify output names
-        names=self.info['attribute_names']
+        names=list(self.info['attribute_names'])
         for i,desc in enumerate(self.info['attribute_descr']):
             elem = re.findall(r'E-nr:\s*(\d+)', desc)
             zrel = re.findall(r'Z-rel:\s*(\d+.\d+)', desc)
-- 
2.43.0


From 52214fe90a911639a1f2130cdf1b10836abc5536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 013/171] fix: writing a HAWC2 sel file only changes the
 extension of the file name

---
 weio/hawc2_dat_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index f45aaaf..a628fd6 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -107,7 +107,7 @@ class HAWC2DatFile(File):
         if ext=='.dat':
             datfilename=filename
         elif ext=='.sel':
-            datfilename=filename.replace(ext,'.dat')
+            datfilename=os.path.splitext(filename)[0]+'.dat'
         else:
             datfilename=filename+'.dat'
         selfilename=datfilename[:-4]+'.sel'
-- 
2.43.0


From ee66169149f3a1da1c1da1bc939f407b8a047867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 014/171] fix: channels of a HAWC2 file requested in several
 calls are mapped to the right columns

---
 weio/wetb/hawc2/Hawc2io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/wetb/hawc2/Hawc2io.py b/weio/wetb/hawc2/Hawc2io.py
index 192ab50..66131a7 100644
--- a/weio/wetb/hawc2/Hawc2io.py
+++ b/weio/wetb/hawc2/Hawc2io.py
@@ -329,12 +329,12 @@ class ReadHawc2(object):
                 except:
                     self.Iknown.append(i)
                     I2.append(i)
-                    I1.append(len(I1))
+                    I1.append(len(self.Iknown)-1)
             # read new channels
             if I2:
                 temp = self.ReadAll(I2)
                 # add new channels to Data
-                if self.Data.any():
+                if self.Data.size>0:
                     self.Data = np.append(self.Data, temp, axis=1)
                 # if first call, so Daata is empty
                 else:
-- 
2.43.0


From 3812e30a8002be5c25f7e4c89a712a55e14ca9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:45 +0000
Subject: [PATCH 015/171] fix: BHawC sel files with one or two channels, as
 written by the library, can be read

---
 weio/wetb/hawc2/Hawc2io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/Hawc2io.py b/weio/wetb/hawc2/Hawc2io.py
index 66131a7..8b264be 100644
--- a/weio/wetb/hawc2/Hawc2io.py
+++ b/weio/wetb/hawc2/Hawc2io.py
@@ -99,7 +99,7 @@ class ReadHawc2(object):
             self.t = np.linspace(0, self.Time, self.NrSc + 1)[1:]
             # --- Find line with channel info
             iLine=0
-            for i in np.arange(5,13):
+            for i in np.arange(5,min(13,len(Lines))):
                 if Lines[i].lower().find('channel')>=0:
                     iLine=i+1
             if iLine==0:
-- 
2.43.0


From 4fc6857123fbb3a835ba3bb9bee52cdd1138a051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:42 +0000
Subject: [PATCH 016/171] fix: reading an empty file raises EmptyFileError (the
 name was not imported)

---
 weio/bladed_out_file.py        | 2 +-
 weio/bmodes_out_file.py        | 2 +-
 weio/cactus_element_file.py    | 2 +-
 weio/fast_input_file.py        | 4 +++-
 weio/raawmat_file.py           | 2 +-
 weio/rosco_performance_file.py | 2 +-
 6 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 1315fb2..f32e9d7 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -6,7 +6,7 @@ import pandas as pd
 import glob
 import shlex
 # try:
-from .file import File, WrongFormatError, BrokenFormatError, isBinary
+from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError, isBinary
 # except:
 #     EmptyFileError    = type('EmptyFileError', (Exception,),{})
 #     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/bmodes_out_file.py b/weio/bmodes_out_file.py
index 9022ccf..ca6f705 100644
--- a/weio/bmodes_out_file.py
+++ b/weio/bmodes_out_file.py
@@ -6,7 +6,7 @@ import pandas as pd
 import os
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/cactus_element_file.py b/weio/cactus_element_file.py
index b899787..5173181 100644
--- a/weio/cactus_element_file.py
+++ b/weio/cactus_element_file.py
@@ -3,7 +3,7 @@ import pandas as pd
 import os
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 51a6868..a6a55ec 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -8,11 +8,13 @@ from builtins import str
 from future import standard_library
 standard_library.install_aliases()
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     # --- Allowing this file to be standalone..
     class WrongFormatError(Exception):
         pass
+    class EmptyFileError(Exception):
+        pass
     class BrokenFormatError(Exception):
         pass
     File = dict
diff --git a/weio/raawmat_file.py b/weio/raawmat_file.py
index fc5661e..dc7d063 100644
--- a/weio/raawmat_file.py
+++ b/weio/raawmat_file.py
@@ -111,7 +111,7 @@ def matfile(path_file,output='pandas',path_key=None):
         return ds
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index 18deea1..00c44c8 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -6,7 +6,7 @@ import pandas as pd
 import os
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
-- 
2.43.0


From ef5561121a9215a454181d486160689b62c78c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:54 +0000
Subject: [PATCH 017/171] fix: TDMS files are read with the current npTDMS
 library

---
 weio/tdms_file.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/weio/tdms_file.py b/weio/tdms_file.py
index d05e1a9..4b7f7d5 100644
--- a/weio/tdms_file.py
+++ b/weio/tdms_file.py
@@ -19,14 +19,18 @@ class TDMSFile(File):
             raise Exception('Install the library nptdms to read this file')
 
         fh = TdmsFile(self.filename, read_metadata_only=False)
-        channels_address = list(fh.objects.keys())
-        channels_address = [ s.replace("'",'') for s in channels_address]
-        channel_keys= [ s.split('/')[1:]  for s in channels_address if len(s.split('/'))==3]
+        if hasattr(fh, 'objects'): # nptdms < 1.0
+            channels_address = list(fh.objects.keys())
+            channels_address = [ s.replace("'",'') for s in channels_address]
+            channel_keys= [ s.split('/')[1:]  for s in channels_address if len(s.split('/'))==3]
+            channels    = [fh.object(ck[0],ck[1]) for ck in channel_keys]
+        else:
+            channels    = [ch for group in fh.groups() for ch in group.channels()]
+            channel_keys= [[ch.group_name, ch.name] for ch in channels]
         # --- Setting up list of signals and times
         signals=[]
         times=[]
-        for i,ck in enumerate(channel_keys):
-            channel = fh.object(ck[0],ck[1])
+        for channel in channels:
             signals.append(channel.data)
             times.append  (channel.time_track())
 
-- 
2.43.0


From 3b7047daf7904b6f0e0b6b932856d634411bd255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:54 +0000
Subject: [PATCH 018/171] fix: CACTUS files without element or time data can be
 converted to a table, and the conversion does not change the object

---
 weio/cactus_file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/weio/cactus_file.py b/weio/cactus_file.py
index 7745a39..50e118c 100644
--- a/weio/cactus_file.py
+++ b/weio/cactus_file.py
@@ -183,7 +183,8 @@ class CactusFile(File):
     def timeDataToOpenFAST(self, df):
         """ Convert to similar labels as OpenFAST"""
         if df is None:
-            return None
+            return None, 0
+        df        = df.copy()
         nRot      = self['configinputs']['nr']
         nPerRot   = self['configinputs']['nti']
         TSR       = self.TSR
@@ -269,8 +270,8 @@ class CactusFile(File):
 
     def elemDataToOpenFAST(self, dfElem,  df, c=0, dfDS=None, alphaSign=-1):
         """ Convert to similar lables as openfast """
-        if dfElem is None:
-            return df
+        if dfElem is None or df is None:
+            return df, c
 
         U=self.U
         R=self.R
-- 
2.43.0


From b6429b5ee290b27b492a03a421dacef7d9a33e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:54 +0000
Subject: [PATCH 019/171] fix: writing a CACTUS file is not implemented and
 does not wipe out the file

---
 weio/cactus_file.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/weio/cactus_file.py b/weio/cactus_file.py
index 50e118c..3deac0f 100644
--- a/weio/cactus_file.py
+++ b/weio/cactus_file.py
@@ -366,8 +366,7 @@ class CactusFile(File):
 
     def _write(self):
         """ """
-        with open(self.filename,'w') as f:
-            f.write(self.toString)
+        raise NotImplementedError()
 
     def toDataFrame(self, format='OpenFAST', alphaSign=-1):
         # ---
@@ -376,10 +375,6 @@ class CactusFile(File):
         return df
 
 
-    def toString(self):
-        s=''
-        return s
-
     def __repr__(self):
         s ='Class XXXX (attributes: data)\n'
         return s
-- 
2.43.0


From b17c9c88145c8188f5f124ed893d8691a495a910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:54 +0000
Subject: [PATCH 020/171] fix: writing a linearization file is not implemented
 and does not wipe out the file

---
 weio/fast_linearization_file.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/weio/fast_linearization_file.py b/weio/fast_linearization_file.py
index 374d432..8370bde 100644
--- a/weio/fast_linearization_file.py
+++ b/weio/fast_linearization_file.py
@@ -148,13 +148,8 @@ class FASTLinearizationFile(File):
                         self['EDDOF'] = line[5:].split()
                         self['M']     = readMat(f, 24, 24)
 
-    def toString(self):
-        s=''
-        return s
-
     def _write(self):
-        with open(self.filename,'w') as f:
-            f.write(self.toString())
+        raise NotImplementedError()
 
     def short_descr(self,slist):
         def shortname(s):
-- 
2.43.0


From 4222a32e7efa148e08ffda09166b691e0eabd14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:54 +0000
Subject: [PATCH 021/171] fix: FLEX profile files can be written and read back

---
 weio/flex_profile_file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/weio/flex_profile_file.py b/weio/flex_profile_file.py
index 9a29f17..6e01340 100644
--- a/weio/flex_profile_file.py
+++ b/weio/flex_profile_file.py
@@ -20,11 +20,12 @@ class ProfileSet():
 
     def toString(self,PREFIX=''):
         s =PREFIX+self.header+'\n'
+        s+=str(len(self.thickness))+'\n'
         s+=' '.join([str(t) for t in self.thickness])+'\n'
         s+=str(self.polars[0].shape[0])+'\n'
         for ph,t,polar in zip(self.polar_headers,self.thickness,self.polars):
             s+=ph+'\n'
-            s+='\n'.join([' '.join(['{:15.7e}'.format(v) for v in line]) for line in polar])
+            s+='\n'.join([' '.join(['{:15.7e}'.format(v) for v in line]) for line in polar])+'\n'
 #             s+=ph+'\n'
         return s
 
@@ -117,7 +118,7 @@ class FLEXProfileFile(File):
     def toString(self):
         s=''
         if len(self.ProfileSets)>0:
-            prefix='PROFILE SET '
+            prefix='PROFILE SET'
         else:
             prefix=''
         for pset in self.ProfileSets:
@@ -126,7 +127,7 @@ class FLEXProfileFile(File):
 
     def _write(self):
         with open(self.filename,'w') as f:
-            f.write(self.toString)
+            f.write(self.toString())
 
     def __repr__(self):
         s ='Class FlexProfileFile (attributes: ProfileSets)\n'
-- 
2.43.0


From e068b40e5984d00f64717f3c9316752de3516b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:25 +0000
Subject: [PATCH 022/171] fix: SubDyn summary modes and JSON come from the
 object itself (not the last file read), and the JSON export does not change
 the element table

---
 weio/fast_summary_file.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/weio/fast_summary_file.py b/weio/fast_summary_file.py
index 86a75f2..ce4a88d 100644
--- a/weio/fast_summary_file.py
+++ b/weio/fast_summary_file.py
@@ -154,9 +154,9 @@ def readSubDynSum(self):
         """ return Guyan and CB modes"""
         if maxDisp is None:
             #compute max disp such as it's 10% of maxdimension
-            dx = np.max(self['X'])-np.min(self['X'])
-            dy = np.max(self['Y'])-np.min(self['Y'])
-            dz = np.max(self['Z'])-np.min(self['Z'])
+            dx = np.max(data['X'])-np.min(data['X'])
+            dy = np.max(data['Y'])-np.min(data['Y'])
+            dz = np.max(data['Z'])-np.min(data['Z'])
             maxDisp = np.max([dx,dy,dz])*0.1
 
         # NOTE: DOF have been reindexed -1
@@ -185,8 +185,8 @@ def readSubDynSum(self):
 
         dispGy, posGy, _, dispCB, posCB, _ = data.getModes()
 
-        Nodes    = self['Nodes']
-        Elements = self['Elements']
+        Nodes    = data['Nodes']
+        Elements = data['Elements'].copy()
         Elements[:,0]-=1
         Elements[:,1]-=1
         Elements[:,2]-=1
-- 
2.43.0


From 6c3965efd4e472b8b6102f82437dd88f46e54ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:37 +0000
Subject: [PATCH 023/171] fix: converting an .elm file to a table does not
 rename the columns of the data

---
 weio/fast_output_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 6a1f0ce..c2d35c0 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -124,7 +124,7 @@ class FASTOutputFile(File):
         else:
             cols=self.info['attribute_names']
         if isinstance(self.data, pd.DataFrame):
-            df= self.data
+            df= self.data.copy()
             df.columns=cols
         else:
             df = pd.DataFrame(data=self.data,columns=cols)
-- 
2.43.0


From aa0998b2d1d4d72dff0ef6db9f2ffd8deef9f53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:37 +0000
Subject: [PATCH 024/171] fix: .elm files can be written and read back

---
 weio/fast_output_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index c2d35c0..465bc23 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -112,11 +112,14 @@ class FASTOutputFile(File):
             writeBinary(self.filename, channels, chanNames, chanUnits, fileID=2, descStr=descStr)
         else:
             # ascii output
+            data = self.data.values if isinstance(self.data, pd.DataFrame) else self.data
             with open(self.filename,'w') as f:
+                if self.filename.lower().endswith('.elm'):
+                    f.write('\n') # the channel names of elm files are on the second line
                 f.write('\t'.join(['{:>10s}'.format(c)         for c in self.info['attribute_names']])+'\n')
                 f.write('\t'.join(['{:>10s}'.format('('+u+')') for u in self.info['attribute_units']])+'\n')
                 # TODO better..
-                f.write('\n'.join(['\t'.join(['{:10.4f}'.format(y[0])]+['{:10.3e}'.format(x) for x in y[1:]]) for y in self.data]))
+                f.write('\n'.join(['\t'.join(['{:10.4f}'.format(y[0])]+['{:10.3e}'.format(x) for x in y[1:]]) for y in data]))
 
     def _toDataFrame(self):
         if self.info['attribute_units'] is not None:
-- 
2.43.0


From cc9e42207c4be9809b45cf462fe72ce78464f830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:23 +0000
Subject: [PATCH 025/171] fix: the layout detected in a csv file is not kept
 when another file is read with the same object, and writing does not change
 the separator of the object

---
 weio/csv_file.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 5e8197c..2365922 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -52,12 +52,24 @@ class CSVFile(File):
             else:
                 self.header=header
         self.nHeader=0
+        self._detected={} # layout detected by the last read: {option: (value given, value detected)}
         if (len(self.commentLines)>0) and (self.commentChar is not None):
             raise Exception('Provide either `commentChar` or `commentLines` for CSV file types')
         if (len(self.colNames)>0) and (self.colNamesLine is not None):
             raise Exception('Provide either `colNames` or `colNamesLine` for CSV file types')
         super(CSVFile, self).__init__(filename=filename,**kwargs)
 
+    def read(self, filename=None, **kwargs):
+        # The layout detected in the previous file does not apply to this one
+        for k,(given,detected) in self._detected.items():
+            if getattr(self,k) is detected:
+                setattr(self,k,given)
+        given={k:getattr(self,k) for k in ['sep','colNames','commentChar','commentLines','colNamesLine']}
+        try:
+            super(CSVFile, self).read(filename, **kwargs)
+        finally:
+            self._detected={k:(v,getattr(self,k)) for k,v in given.items()}
+
     def _read(self):
         COMMENT_CHAR=['#','!',';']
         # --- Detecting encoding
@@ -254,25 +266,26 @@ class CSVFile(File):
 
     def _write(self):
         # --- Safety
-        if self.sep==r'\s+' or self.sep=='':
-            self.sep='\t'
+        sep=self.sep
+        if sep==r'\s+' or sep=='':
+            sep='\t'
         # Write
         if len(self.header)>0:
             with open(self.filename, 'w', encoding='utf-8') as f:
                 f.write('\n'.join(self.header)+'\n')
             with open(self.filename, 'a', encoding='utf-8') as f:
                 try:
-                    self.data.to_csv(f,   sep=self.sep,     index=False,header=False, line_terminator='\n')
+                    self.data.to_csv(f,   sep=sep,     index=False,header=False, line_terminator='\n')
                 except TypeError:
                     print('[WARN] CSVFile: Pandas failed, likely encoding error. Attempting a quick and dirty fix.')
                     s=''
                     vals=self.data.values
                     for l in vals:
-                        sLine=(self.sep).join([str(v) for v in l])
+                        sLine=sep.join([str(v) for v in l])
                         s+=sLine+'\n'
                     f.write(s)
         else:
-            self.data.to_csv(self.filename,sep=self.sep,index=False)
+            self.data.to_csv(self.filename,sep=sep,index=False)
 
     def __repr__(self):
         s = 'CSVFile: {}\n'.format(self.filename)
-- 
2.43.0


From a26df1dd217916b8a81be9bfddbf981974986446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:23 +0000
Subject: [PATCH 026/171] fix: the matrices of a previous linearization file
 are not kept when another one is read

---
 weio/fast_linearization_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/fast_linearization_file.py b/weio/fast_linearization_file.py
index 8370bde..6ae96bc 100644
--- a/weio/fast_linearization_file.py
+++ b/weio/fast_linearization_file.py
@@ -42,6 +42,7 @@ class FASTLinearizationFile(File):
         return 'FAST linearization output'
 
     def _read(self, *args, **kwargs):
+        self.clear()
         self['header']=[]
 
         def extractVal(lines, key):
-- 
2.43.0


From 4ad47fb7b65a522135e856b17f5797da38e9af27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:23 +0000
Subject: [PATCH 027/171] fix: a FLEX documentation object can be used to read
 another file

---
 weio/flex_doc_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/flex_doc_file.py b/weio/flex_doc_file.py
index aeac114..eb8cd96 100644
--- a/weio/flex_doc_file.py
+++ b/weio/flex_doc_file.py
@@ -26,6 +26,7 @@ class FLEXDocFile(File):
             if line1.find('#Program')!=0:
                 raise WrongFormatError()
             lines=f.read().splitlines()+[line1]
+        self.clear()
 
         ArraysHeader=[
         '#Blade_ShapeFunction_DOF1_Shape',
-- 
2.43.0


From 05787e17d3b75869646fce3aedd1c7ea2e3dad2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:23 +0000
Subject: [PATCH 028/171] fix: the isolated mass and stiffness matrices of the
 blade are read (missing comma)

---
 weio/flex_doc_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/flex_doc_file.py b/weio/flex_doc_file.py
index eb8cd96..e741aeb 100644
--- a/weio/flex_doc_file.py
+++ b/weio/flex_doc_file.py
@@ -55,7 +55,7 @@ class FLEXDocFile(File):
         ]
 
         ArraysNoHeader=[
-        '#Blade_IsolatedMassMatrix'
+        '#Blade_IsolatedMassMatrix',
         '#Blade_IsolatedStiffnessMatrix',
         '#Blade_IsolatedDampingMatrix',
         '#Foundation_IsolatedMassMatrix',
-- 
2.43.0


From bfd17a4fa52ca179db02a043a362fd3af61ca516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:23 +0000
Subject: [PATCH 029/171] fix: the sections of a previous tecplot file are not
 kept when another one is read, and a file can be read again without repeating
 its name

---
 weio/tecplot_file.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index 1c9aa2d..f24c189 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -85,7 +85,7 @@ def _process_merged_line(line, section, dict_out):
         print('Processing section {}:'.format(section),line)
         dict_out[section]=line
 
-def read_tecplot(filename, dict_out={}):
+def read_tecplot(filename, dict_out=None):
     """ Reads a tecplot file
     Limited support:
        - title optional
@@ -94,6 +94,8 @@ def read_tecplot(filename, dict_out={}):
     For now, assumes that only one section of numerical data is present
     """
 
+    if dict_out is None:
+        dict_out={}
     merged_line=''
     current_section=''
     variables=[]
@@ -174,7 +176,8 @@ class TecplotFile(File):
             raise EmptyFileError('File is empty:',self.filename)
 
         try:
-            read_tecplot(filename,self)
+            self.clear()
+            read_tecplot(self.filename,self)
         except BrokenFormatError:
             raise 
         except WrongFormatError:
-- 
2.43.0


From 7dfce2567c6f36df81d1ade67c2baf2c3d15e864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:23 +0000
Subject: [PATCH 030/171] fix: the content of a previous VTK file is not kept
 when another one is read, and a file can be read or written again without
 repeating its name

---
 weio/vtk_file.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index e3ed2f7..a53a389 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -57,6 +57,12 @@ class VTKFile(File):
 
     def __init__(self,filename=None,**kwargs):
         self.filename = None
+        self._init_data()
+        # Propagate read
+        if filename:
+            self.read(filename=filename,**kwargs)
+
+    def _init_data(self):
         # For regular grid
         self.xp_grid=None  # location of points
         self.yp_grid=None
@@ -81,10 +87,6 @@ class VTKFile(File):
         self.num_items = 0
         self.section = None
 
-        # Propagate read
-        if filename:
-            self.read(filename=filename,**kwargs)
-
 
     def read(self, filename=None):
         """ read a VTK file """
@@ -97,8 +99,9 @@ class VTKFile(File):
         if os.stat(self.filename).st_size == 0:
             raise EmptyFileError('File is empty:',self.filename)
 
-        with open(filename, "rb") as f:
+        with open(self.filename, "rb") as f:
             # initialize output data
+            self._init_data()
             # skip header and title
             f.readline()
             f.readline()
@@ -170,7 +173,7 @@ class VTKFile(File):
                 if len(values.shape) == 2 and values.shape[1] == 2:
                     data[k] = pad(data[k])
 
-        with open(filename, "wb") as f:
+        with open(self.filename, "wb") as f:
             f.write(b"# vtk DataFile Version 4.2\n")
             f.write("written \n".encode("utf-8"))
             f.write(("BINARY\n" if binary else "ASCII\n").encode("utf-8"))
-- 
2.43.0


From bf17db85f1942eb6321025febb052159b65e7ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:23 +0000
Subject: [PATCH 031/171] fix: writing a VTK file does not change the
 two-component fields of the object

---
 weio/vtk_file.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index a53a389..f4a21a6 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -163,15 +163,11 @@ class VTKFile(File):
         else:
             points = self.points
 
-        if self.point_data:
-            for name, values in self.point_data.items():
-                if len(values.shape) == 2 and values.shape[1] == 2:
-                    self.point_data[name] = pad(values)
+        def pad2(values):
+            return pad(values) if len(values.shape) == 2 and values.shape[1] == 2 else values
 
-        for name, data in self.cell_data.items():
-            for k, values in enumerate(data):
-                if len(values.shape) == 2 and values.shape[1] == 2:
-                    data[k] = pad(data[k])
+        point_data = {name:pad2(values) for name, values in self.point_data.items()}
+        cell_data  = {name:[pad2(values) for values in data] for name, data in self.cell_data.items()}
 
         with open(self.filename, "wb") as f:
             f.write(b"# vtk DataFile Version 4.2\n")
@@ -187,13 +183,13 @@ class VTKFile(File):
             if self.point_data:
                 num_points = self.points.shape[0]
                 f.write("POINT_DATA {}\n".format(num_points).encode("utf-8"))
-                _write_field_data(f, self.point_data, binary)
+                _write_field_data(f, point_data, binary)
 
             # write cell data
             if self.cell_data:
                 total_num_cells = sum(len(c.data) for c in self.cells)
                 f.write("CELL_DATA {}\n".format(total_num_cells).encode("utf-8"))
-                _write_field_data(f, self.cell_data, binary)
+                _write_field_data(f, cell_data, binary)
 
 
     def __repr__(self):
-- 
2.43.0


From eb034f15d6e129a64cbf8407d71bcf717f4c6d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:23 +0000
Subject: [PATCH 032/171] fix: the type of a previous FAST input file is not
 kept when another one is read

---
 weio/fast_input_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index a6a55ec..3bdcf98 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -99,7 +99,10 @@ class FASTInputFile(File):
             return self.basefile
 
     def read(self, filename=None):
-        return self.fixedfile.read(filename)
+        if filename is None:
+            filename = self.filename
+        self._fixedfile = None # the dedicated format depends on the file
+        return self.basefile.read(filename)
 
     def write(self, filename=None):
         return self.fixedfile.write(filename)
-- 
2.43.0


From 73c0310922bf6d6024982c2ac46e1b3a6d6e6a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:23 +0000
Subject: [PATCH 033/171] fix: setting an unknown variable of a FAST input file
 raises a KeyError

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 3bdcf98..3049341 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -211,7 +211,7 @@ class FASTInputFileBase(File):
             d = self.data[i]
             if d['label'].lower()==label.lower():
                 I.append(i)
-        if len(I)<0:
+        if len(I)==0:
             raise KeyError('Variable `'+ label+'` not found in FAST file:'+self.filename)
         else:
             return I
-- 
2.43.0


From a89360c90cfa54913424e52e2f0efeff9a389c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:23 +0000
Subject: [PATCH 034/171] fix: iterating over a FAST input file stops at its
 last line

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 3049341..a5d4abc 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -231,7 +231,7 @@ class FASTInputFileBase(File):
         return self
 
     def __next__(self): # Python 2: def next(self)
-        if self.iCurrent > self.iMax:
+        if self.iCurrent >= self.iMax:
             raise StopIteration
         else:
             self.iCurrent += 1
-- 
2.43.0


From 40823955906ecf134cc510561d35bddb31a9ef6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:23 +0000
Subject: [PATCH 035/171] fix: the comment of a FAST input file can be read and
 set

---
 weio/fast_input_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index a5d4abc..d866b88 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -129,7 +129,7 @@ class FASTInputFile(File):
 
     @comment.setter
     def comment(self,comment):
-        self.fixedfile.comment(comment)
+        self.fixedfile.comment = comment
 
     def __iter__(self):
         return self.fixedfile.__iter__()
@@ -1637,7 +1637,7 @@ class ADPolarFile(FASTInputFileBase):
 
     @property
     def comment(self):
-        return FASTInputFileBase.comment
+        return '\n'.join([self.data[i]['value'] for i in self._IComment])
 
     @comment.setter
     def comment(self, comment):
-- 
2.43.0


From 2c75280e367a79ad2aab5276ba3592e86c376e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:23 +0000
Subject: [PATCH 036/171] fix: FAST input files with characters outside of the
 default encoding can be written

---
 weio/fast_input_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index d866b88..a016608 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -752,7 +752,7 @@ class FASTInputFileBase(File):
 
     def _write(self):
         self._writeSanityChecks()
-        with open(self.filename,'w') as f:
+        with open(self.filename,'w', errors="surrogateescape") as f:
             f.write(self.toString())
 
     def toDataFrame(self):
@@ -1586,7 +1586,7 @@ class ADPolarFile(FASTInputFileBase):
                     if i>0:
                         self.data[i]['label'] = labRaw
             # Write
-            with open(self.filename,'w') as f:
+            with open(self.filename,'w', errors="surrogateescape") as f:
                 f.write(self.toString())
             # Restore labels 
             for i,labFull in enumerate(AllLabels):
-- 
2.43.0


From 9ebd621160c0fd50b537920fd7f3dc9e1f106c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:55 +0000
Subject: [PATCH 037/171] fix: ElastoDyn blade files can be read with their
 dedicated class

---
 weio/fast_input_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index a016608..3c680c9 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1349,7 +1349,10 @@ class EDBladeFile(FASTInputFileBase):
             self.addValKey(     0.0   , 'BldEdgSh(6)', '           , coeff of x^6')
         else:
             # fix some stuff that generic reader fail at
-            self.data[1] =  self._lines[1]
+            d = getDict()
+            d['isComment'] = True
+            d['value']     = self._lines[1]
+            self.data[1] = d
         self.module='EDBlade'
 
     def _writeSanityChecks(self):
-- 
2.43.0


From baf1dc67a7458f69c2b8b61b703fbfdf06f1c6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:55 +0000
Subject: [PATCH 038/171] fix: a FAST input file that cannot be written does
 not wipe out the target file

---
 weio/fast_input_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 3c680c9..7af4c3b 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -752,8 +752,9 @@ class FASTInputFileBase(File):
 
     def _write(self):
         self._writeSanityChecks()
+        s = self.toString()
         with open(self.filename,'w', errors="surrogateescape") as f:
-            f.write(self.toString())
+            f.write(s)
 
     def toDataFrame(self):
         return self._toDataFrame()
-- 
2.43.0


From 685334eddcfdc367cea9dde7b011d89a441dd442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:30 +0000
Subject: [PATCH 039/171] fix: the module of a FAST input file does not depend
 on whether it was queried before

---
 weio/fast_input_file.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 7af4c3b..86a0060 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -77,10 +77,7 @@ class FASTInputFile(File):
             return self.basefile
     @property
     def module(self):
-        if self._fixedfile is None:
-            return self.basefile.module
-        else:
-            return self._fixedfile.module
+        return self.fixedfile.module
 
     def fixedFormat(self):
         # --- Creating a dedicated Child
@@ -89,7 +86,7 @@ class FASTInputFile(File):
             return ADBladeFile.from_fast_input_file(self.basefile)
         elif 'NBlInpSt' in KEYS:
             return EDBladeFile.from_fast_input_file(self.basefile)
-        elif 'MassMatrix' in KEYS and self.module =='ExtPtfm':
+        elif 'MassMatrix' in KEYS and self.basefile.module =='ExtPtfm':
             return ExtPtfmFile.from_fast_input_file(self.basefile)
         elif 'NumCoords' in KEYS and 'InterpOrd' in KEYS:
             return ADPolarFile.from_fast_input_file(self.basefile)
-- 
2.43.0


From 322076f6399da02722a0751573d90956d930190a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:13 +0000
Subject: [PATCH 040/171] fix: the column names of csv files with comment lines
 are written, and found again

---
 weio/csv_file.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 2365922..e89b01d 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -235,6 +235,8 @@ class CSVFile(File):
                             if len(self.commentChar)>0:
                                 l=l[len(self.commentChar):]
                         cols=split(l)
+                        if self.sep=='\t' and len(cols)!=len(first_cols):
+                            cols=l.split() # names separated by blanks, data separated by tabs
                         nFloat = sum([strIsFloat(s) for s in cols])
                         if len(cols)==len(first_cols) and nFloat <= len(colNames)-1:
                             self.colNames = cols
@@ -269,13 +271,19 @@ class CSVFile(File):
         sep=self.sep
         if sep==r'\s+' or sep=='':
             sep='\t'
+        elif sep is None:
+            sep=','
         # Write
         if len(self.header)>0:
             with open(self.filename, 'w', encoding='utf-8') as f:
                 f.write('\n'.join(self.header)+'\n')
-            with open(self.filename, 'a', encoding='utf-8') as f:
+                # Names that are neither in the header nor given by the user
+                writeNames = len(self.colNames)==0 or (self.colNamesLine is not None and self.colNamesLine>=len(self.header))
+                if writeNames:
+                    f.write(sep.join([str(c) for c in self.data.columns])+'\n')
+            with open(self.filename, 'a', encoding='utf-8', newline='') as f:
                 try:
-                    self.data.to_csv(f,   sep=sep,     index=False,header=False, line_terminator='\n')
+                    self.data.to_csv(f,   sep=sep,     index=False,header=False)
                 except TypeError:
                     print('[WARN] CSVFile: Pandas failed, likely encoding error. Attempting a quick and dirty fix.')
                     s=''
-- 
2.43.0


From 123815eb6dda6c55ea44680fda3d14a4cdcf6099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:37 +0000
Subject: [PATCH 041/171] fix: ROSCO performance files can be written

---
 weio/rosco_performance_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index 00c44c8..3440d33 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -4,6 +4,7 @@ Input/output class for the ROSCO performance (Cp,Ct,Cq) fileformat
 import numpy as np
 import pandas as pd
 import os
+from datetime import datetime
 
 try:
     from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
@@ -188,7 +189,7 @@ def write_rotor_performance(txt_filename, pitch, TSR, CP, CT, CQ, WS=None, Turbi
     file = open(txt_filename,'w')
     # Headerlines
     file.write('# ----- Rotor performance tables for the {} wind turbine ----- \n'.format(TurbineName))
-    file.write('# ------------ Written on {} using the ROSCO toolbox ------------ \n\n'.format(now.strftime('%b-%d-%y')))
+    file.write('# ------------ Written on {} using the ROSCO toolbox ------------ \n\n'.format(datetime.now().strftime('%b-%d-%y')))
 
     # Pitch angles, TSR, and wind speed
     file.write('# Pitch angle vector, {} entries - x axis (matrix columns) (deg)\n'.format(len(pitch)))
-- 
2.43.0


From 3925daccc890c788bd4b3b2e9e5ec728a3ced6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:37 +0000
Subject: [PATCH 042/171] fix: Excel files can be written with the current
 pandas and without xlsxwriter

---
 weio/excel_file.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/weio/excel_file.py b/weio/excel_file.py
index df28931..a48e2e2 100644
--- a/weio/excel_file.py
+++ b/weio/excel_file.py
@@ -48,9 +48,9 @@ class ExcelFile(File):
     #    return s
 
     def _write(self):
-        # Create a Pandas Excel writer using XlsxWriter as the engine.
-        writer = pd.ExcelWriter(self.filename, engine='xlsxwriter')
-        # Convert the dataframe to an XlsxWriter Excel object.
+        # Create a Pandas Excel writer (with the default engine of pandas).
+        writer = pd.ExcelWriter(self.filename)
+        # Convert the dataframes to Excel sheets.
         for k,_ in self.data.items():
             df = self.data[k]
             df.to_excel(writer, sheet_name=k, index=False)
@@ -73,7 +73,7 @@ class ExcelFile(File):
         #                                           'value': '5',
         #                                           'format': format1})
         # Close the Pandas Excel writer and output the Excel file.
-        writer.save()
+        writer.close()
 
     def __repr__(self):
         s ='Class XXXX (attributes: data)\n'
-- 
2.43.0


From 5c95cc099f27d8ba64f0d5cd480745876510212d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:15 +0000
Subject: [PATCH 043/171] fix: tecplot files with titles, zones, auxiliary
 data, many columns or a single row are written and read back as they were

---
 weio/tecplot_file.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index f24c189..de203f9 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -45,7 +45,7 @@ def _process_merged_line(line, section, dict_out):
     n = len(section)
     line = line[n:].strip()
     if section=='title':
-        dict_out[section]=line
+        dict_out[section]=line.lstrip('=').strip()
     elif section=='variables':
         line = line.replace('=','').strip()
         line = line.replace(',',' ').strip()
@@ -103,10 +103,13 @@ def read_tecplot(filename, dict_out=None):
         dfs = []  # list of dataframes
         iline=0
         while True:
-            line= f.readline().strip()
+            line= f.readline()
             iline+=1
             if not line:
                 break
+            line=line.strip()
+            if not line:
+                continue
             l=line.lower().strip()
             # Comment
             if l[0]=='#':
@@ -136,7 +139,7 @@ def read_tecplot(filename, dict_out=None):
                         _process_merged_line(merged_line, current_section, dict_out)
                     # --- Special case of numerical values outside of zone
                     f.close()
-                    M = np.loadtxt(filename, skiprows = iline-1)
+                    M = np.loadtxt(filename, skiprows = iline-1, ndmin=2)
                     if M.shape[1]!=len(dict_out['variables']):
                         raise BrokenFormatError('Number of columns of data does not match number of variables')
                     dict_out['data']=M
@@ -198,11 +201,16 @@ class TecplotFile(File):
             f.write('VARIABLES = ' + ','.join(['"{}"'.format(col) for col in self['variables'] ]) + '\n')
             for k in Keywords[2:]:
                 if k in self.keys():
-                    f.write('{} = {}\n'.format(k,self[k]))
+                    if isinstance(self[k], dict):
+                        for kk,v in self[k].items():
+                            f.write('{} {}="{}"\n'.format(k,kk.strip(),v))
+                    else:
+                        f.write('{} {}\n'.format(k,self[k]))
             # Data
             if 'data' in self.keys():
                 for row in self['data']:
-                    srow = np.array2string(row, edgeitems=0, separator=' ', precision=precision)
+                    srow = np.array2string(row, edgeitems=0, separator=' ', precision=precision, floatmode='unique' if precision is None else 'maxprec',
+                                           max_line_width=np.inf, threshold=len(row)+1)
                     f.write(srow[1:-1]+'\n')
 
 
-- 
2.43.0


From f8d934922c7d3589ab7a5d21fc13abe7cc7ad764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:15 +0000
Subject: [PATCH 044/171] fix: the last (empty) line of a FAST input file is
 not lost each time the file is written

---
 weio/fast_input_file.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 86a0060..3c0d627 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -731,8 +731,7 @@ class FASTInputFileBase(File):
                     s += beamdyn_section_mat_tostring(x,K,M)
             else:
                 raise Exception('Unknown table type for variable {}'.format(d))
-            if i<len(self.data)-1:
-                s+='\n'
+            s+='\n'
         return s
 
     def write(self, filename=None):
-- 
2.43.0


From 0f1b4d3296c8ca9b22955505810a6baa9f7fd9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:15 +0000
Subject: [PATCH 045/171] fix: airfoil coordinate files are written and read
 back

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 3c0d627..cef124e 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -483,7 +483,7 @@ class FASTInputFileBase(File):
                         self.data.append(parseFASTInputLine(lines[i],i)); i+=1;
                         self.data.append(parseFASTInputLine(lines[i],i)); i+=1;
                         self.data.append(parseFASTInputLine(lines[i],i)); i+=1;
-                        splits=cleanAfterChar(cleanLine(lines[i]),'!').split()
+                        splits=cleanAfterChar(cleanLine(lines[i]),'!').replace(',',' ').split()
                         # Airfoil ref point
                         try:
                             pos=[float(splits[0]), float(splits[1])]
-- 
2.43.0


From b32d839f5620ad9d7ddbcaee31fbcb31a3e5b620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:36 +0000
Subject: [PATCH 046/171] fix: the coordinates of airfoil files are written
 with one heading line, as they are read

---
 weio/fast_input_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index cef124e..181c28e 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -712,7 +712,8 @@ class FASTInputFileBase(File):
                     s+='\n'.join('\t'.join('{}'.format(x) for x in y) for y in d['value'])
             elif d['tabType']==TABTYPE_NUM_WITH_HEADERCOM:
                 s+='! {}\n'.format(' '.join(['{:15s}'.format(s) for s in d['tabColumnNames']]))
-                s+='! {}\n'.format(' '.join(['{:15s}'.format(s) for s in d['tabUnits']]))
+                if d['label']!='AirfoilCoord': # airfoil coordinates have no line of units
+                    s+='! {}\n'.format(' '.join(['{:15s}'.format(s) for s in d['tabUnits']]))
                 s+='\n'.join('\t'.join('{:15.8e}'.format(x) for x in y) for y in d['value'])
             elif d['tabType']==TABTYPE_FIL:
                 #f.write('{} {} {}\n'.format(d['value'][0],d['tabDetect'],d['descr']))
-- 
2.43.0


From a8a89d45f46301fb4f43dc89babd600b5e419b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:55 +0000
Subject: [PATCH 047/171] fix: labels and empty lines are not added to a FAST
 input file each time it is written (additional stiffness, nodal outputs,
 lists of one file)

---
 weio/fast_input_file.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 181c28e..854b49a 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -402,7 +402,7 @@ class FASTInputFileBase(File):
                 # Parsing outlist, and then we continue at a new "i" (to read END etc.)
                 OutList,i = parseFASTOutList(lines,i+1) 
                 d = getDict()
-                if self.hasNodal:
+                if self.hasNodal and not firstword.endswith('_Nodal'):
                     d['label']   = firstword+'_Nodal'
                 else:
                     d['label']   = firstword
@@ -717,8 +717,11 @@ class FASTInputFileBase(File):
                 s+='\n'.join('\t'.join('{:15.8e}'.format(x) for x in y) for y in d['value'])
             elif d['tabType']==TABTYPE_FIL:
                 #f.write('{} {} {}\n'.format(d['value'][0],d['tabDetect'],d['descr']))
-                s+='{} {} {}\n'.format(d['value'][0],d['label'],d['descr']) # TODO?
-                s+='\n'.join(fil for fil in d['value'][1:])
+                if d['label']=='KDAdd':
+                    s+='{}'.format(d['value'][0]) # The lines of this section are kept as they are
+                else:
+                    s+='{} {} {}'.format(d['value'][0],d['label'],d['descr']) # TODO?
+                s+=''.join('\n'+fil for fil in d['value'][1:])
             elif d['tabType']==TABTYPE_NUM_BEAMDYN:
                 # TODO use dedicated sub-class
                 data = d['value']
-- 
2.43.0


From 8db480ab8299a8ca3d064bbbbac7042045a9b3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:03 +0000
Subject: [PATCH 048/171] fix: BHawC sel: channel labels and descriptions are
 written in full (fields are tab separated)

---
 weio/hawc2_dat_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index a628fd6..6651101 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -130,7 +130,7 @@ class HAWC2DatFile(File):
                 f.write('{:19s}\t{:25s}\t{:25s}\t{:25s}\n'.format('Channel','Variable descriptions','Labels','Units'))
                 for chan,(label,descr,unit) in enumerate(zip(self.info['attribute_names'],self.info['attribute_descr'],self.info['attribute_units'])):
                     unit=unit.replace('(','').replace(')','').replace('[','').replace(']','')
-                    f.write('{:19s}\t{:25s}\t{:25s}\t{:25s}\n'.format(str(chan+1),descr[0:26],label[0:26],'['+unit+']'))
+                    f.write('{:19s}\t{:25s}\t{:25s}\t{:25s}\n'.format(str(chan+1),descr,label,'['+unit+']'))
             else:
 
                 f.write('________________________________________________________________________________________________________________________\n')
-- 
2.43.0


From 98823c09e9fa654c21c0faf91fbf3d10c1742528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:03 +0000
Subject: [PATCH 049/171] fix: HAWC2 dat: reading again does not keep the
 flavour of the previous file

---
 weio/hawc2_dat_file.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index 6651101..93fed4f 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -41,8 +41,7 @@ class HAWC2DatFile(File):
             self.info['attribute_names'] = res_file.ChInfo[0]
             self.info['attribute_units'] = res_file.ChInfo[1]
             self.info['attribute_descr'] = res_file.ChInfo[2]
-            if res_file.FileFormat=='BHAWC_ASCII':
-                self.bHawc=True
+            self.bHawc = res_file.FileFormat=='BHAWC_ASCII'
         except FileNotFoundError:
             raise
             #raise WrongFormatError('HAWC2 dat File {}:  '.format(self.filename)+' File Not Found:'+e.filename)
-- 
2.43.0


From 1ef61ca0be289b1d604129fe820d9dadd67db5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:45 +0000
Subject: [PATCH 050/171] fix: a polar with several tables keeps its labels
 when it can not be written

---
 weio/fast_input_file.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 854b49a..eec5dac 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1582,19 +1582,22 @@ class ADPolarFile(FASTInputFileBase):
             Labs=['Re','Ctrl','UserProp','alpha0','alpha1','alpha2','eta_e','C_nalpha','T_f0','T_V0','T_p','T_VL','b1','b2','b5','A1','A2','A5','S1','S2','S3','S4','Cn1','Cn2','St_sh','Cd0','Cm0','k0','k1','k2','k3','k1_hat','x_cp_bar','UACutout','filtCutOff','InclUAdata','NumAlf','AFCoeff']
             # Store all labels
             AllLabels=[self.data[i]['label'] for i in range(len(self.data))]
-            # Removing lab Offset - TODO TEMPORARY HACK
-            for iTab in range(nTabs):
-                labOffset='_{}'.format(iTab+1)
-                for labRaw in Labs:
-                    i = self.getIDSafe(labRaw+labOffset)
-                    if i>0:
-                        self.data[i]['label'] = labRaw
+            try:
+                # Removing lab Offset - TODO TEMPORARY HACK
+                for iTab in range(nTabs):
+                    labOffset='_{}'.format(iTab+1)
+                    for labRaw in Labs:
+                        i = self.getIDSafe(labRaw+labOffset)
+                        if i>0:
+                            self.data[i]['label'] = labRaw
+                s = self.toString()
+            finally:
+                # Restore labels 
+                for i,labFull in enumerate(AllLabels):
+                    self.data[i]['label'] = labFull
             # Write
             with open(self.filename,'w', errors="surrogateescape") as f:
-                f.write(self.toString())
-            # Restore labels 
-            for i,labFull in enumerate(AllLabels):
-                self.data[i]['label'] = labFull
+                f.write(s)
 
     def _toDataFrame(self):
         dfs = FASTInputFileBase._toDataFrame(self)
-- 
2.43.0


From 837bcf64930e57dd03b9c54e9a8048e33d827303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:45 +0000
Subject: [PATCH 051/171] fix: lines "END of ..." are kept whole when a FAST
 input file is written

---
 weio/fast_input_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index eec5dac..0183966 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1023,6 +1023,7 @@ def parseFASTInputLine(line_raw,i,allowSpaceSeparatedList=False):
             if len(sp)>2 and sp[1]=='of':
                 d['isComment']=True
                 d['value']=line_raw
+                return d
 
         # Detecting lists
         List=[];
-- 
2.43.0


From c741864ab53555b4ce18f3e2d5d59a41bfc70aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:17 +0000
Subject: [PATCH 052/171] fix: text files with non-ascii characters after the
 first bytes can be read (the first bytes being ascii does not mean that the
 file is)

---
 weio/file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/file.py b/weio/file.py
index c28f78f..9aeeb9f 100644
--- a/weio/file.py
+++ b/weio/file.py
@@ -69,6 +69,8 @@ class File(dict):
             return 'utf-8-sig'
         else:
             result = chardet.detect(raw)
+            if result['encoding'] is not None and result['encoding'].lower()=='ascii':
+                return 'utf-8' # Only the first bytes are known to be ascii
             return result['encoding']
 
 
-- 
2.43.0


From 78625bb2e229554ca75dd5f32cc8be8c5810e441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:17 +0000
Subject: [PATCH 053/171] fix: csv files with a single line, or with column
 names only, can be read

---
 weio/csv_file.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index e89b01d..80baa2e 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -169,13 +169,13 @@ class CSVFile(File):
             try:
                 with open(self.filename,'r',encoding=self.encoding) as f:
                     dummy=[next(f).strip() for x in range(iStartLine)]
-                    head=[next(f).strip() for x in range(2)]
+                    head=[line.strip() for _,line in zip(range(2),f)]
                 # comma, semi columns or tab
-                if head[1].find(',')>0:
+                if head[-1].find(',')>0:
                     self.sep=','
-                elif head[1].find(';')>0:
+                elif head[-1].find(';')>0:
                     self.sep=';'
-                elif head[1].find('\t')>0:
+                elif head[-1].find('\t')>0:
                     self.sep='\t'
                 else:
                     self.sep=r'\s+'
@@ -211,7 +211,7 @@ class CSVFile(File):
                 self.colNamesLine = iStartLine
                 iStartLine = iStartLine+1
                 #  --- Now, maybe the user has put some units below
-                first_line = readline(iStartLine)
+                first_line = readline(iStartLine) or ''
                 #print('>>> first line',first_line)
                 first_cols = split(first_line)
                 nFloat = sum([strIsFloat(s) for s in first_cols])
@@ -258,6 +258,9 @@ class CSVFile(File):
                 self.data = pd.read_csv(f,sep=self.sep,skiprows=skiprows,header=None,comment=self.commentChar)
         except pd.errors.ParserError as e:
             raise WrongFormatError('CSV File {}: '.format(self.filename)+e.args[0])
+        except pd.errors.EmptyDataError:
+            # Column names without data
+            self.data = pd.DataFrame(columns=range(len(self.colNames)))
 
         if (len(self.colNames)==0) or (len(self.colNames)!=len(self.data.columns)):
             self.colNames=['C{}'.format(i) for i in range(len(self.data.columns))]
-- 
2.43.0


From b3d5faab06c54e8484e756369c66a6e10d77e9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:17 +0000
Subject: [PATCH 054/171] fix: missing values of a blank or tab separated table
 are written such that the other values are not shifted when read back

---
 weio/csv_file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 80baa2e..86c288e 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -276,6 +276,7 @@ class CSVFile(File):
             sep='\t'
         elif sep is None:
             sep=','
+        na_rep = 'NaN' if sep=='\t' else '' # Tabs are read as blanks, an empty field would be skipped
         # Write
         if len(self.header)>0:
             with open(self.filename, 'w', encoding='utf-8') as f:
@@ -286,7 +287,7 @@ class CSVFile(File):
                     f.write(sep.join([str(c) for c in self.data.columns])+'\n')
             with open(self.filename, 'a', encoding='utf-8', newline='') as f:
                 try:
-                    self.data.to_csv(f,   sep=sep,     index=False,header=False)
+                    self.data.to_csv(f,   sep=sep,     index=False,header=False,na_rep=na_rep)
                 except TypeError:
                     print('[WARN] CSVFile: Pandas failed, likely encoding error. Attempting a quick and dirty fix.')
                     s=''
@@ -296,7 +297,7 @@ class CSVFile(File):
                         s+=sLine+'\n'
                     f.write(s)
         else:
-            self.data.to_csv(self.filename,sep=sep,index=False)
+            self.data.to_csv(self.filename,sep=sep,index=False,na_rep=na_rep)
 
     def __repr__(self):
         s = 'CSVFile: {}\n'.format(self.filename)
-- 
2.43.0


From 326342a54a585927840a6407405590362de7790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:43 +0000
Subject: [PATCH 055/171] fix: tab separated tables with empty cells or blanks
 within cells are not shifted

---
 weio/csv_file.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 86c288e..b621f96 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -105,6 +105,22 @@ class CSVFile(File):
                 return True
             except:
                 return False
+        def onlyTabsSeparate(skiprows):
+            """ True if all lines have the same number of fields between tabs, with blanks or nothing in some of them.
+            Otherwise, tabs and blanks are equivalent. """
+            n=len(self.colNames)
+            found=False
+            with open(self.filename,'r',encoding=self.encoding) as f:
+                for i,line in enumerate(f):
+                    line=line.rstrip('\r\n')
+                    if i in skiprows or len(line.strip())==0 or (self.commentChar and line.startswith(self.commentChar)):
+                        continue
+                    fields=line.split('\t')
+                    n = n or len(fields)
+                    if len(fields)!=n:
+                        return False
+                    found = found or len(line.split())!=n
+            return found
         # --- Safety
         if self.sep=='' or self.sep==' ':
             self.sep=r'\s+'
@@ -249,7 +265,7 @@ class CSVFile(File):
             skiprows = skiprows + self.commentLines
         skiprows =list(sorted(set(skiprows)))
         if self.sep is not None:
-            if self.sep=='\t':
+            if self.sep=='\t' and not onlyTabsSeparate(skiprows):
                 self.sep=r'\s+'
         #print(skiprows)
         try:
-- 
2.43.0


From d337b168ef2ef9baee653b172f26592cee98c366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:01 +0000
Subject: [PATCH 056/171] fix: csv: the separator is found when the first cell
 is empty

---
 weio/csv_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index b621f96..7b2b489 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -187,9 +187,9 @@ class CSVFile(File):
                     dummy=[next(f).strip() for x in range(iStartLine)]
                     head=[line.strip() for _,line in zip(range(2),f)]
                 # comma, semi columns or tab
-                if head[-1].find(',')>0:
+                if head[-1].find(',')>=0:
                     self.sep=','
-                elif head[-1].find(';')>0:
+                elif head[-1].find(';')>=0:
                     self.sep=';'
                 elif head[-1].find('\t')>0:
                     self.sep='\t'
-- 
2.43.0


From 81f88e0f8010edadc9b456978420666a97dcdee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:42 +0000
Subject: [PATCH 057/171] fix: the encoding of a utf-8 file is found when a
 character lies across the first bytes looked at

---
 weio/file.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/weio/file.py b/weio/file.py
index 9aeeb9f..07ee45d 100644
--- a/weio/file.py
+++ b/weio/file.py
@@ -68,9 +68,14 @@ class File(dict):
         if raw.startswith(codecs.BOM_UTF8):
             return 'utf-8-sig'
         else:
+            # utf-8 (or ascii so far), the last character may be cut
+            if b'\x00' not in raw:
+                try:
+                    codecs.getincrementaldecoder('utf-8')().decode(raw)
+                    return 'utf-8'
+                except UnicodeDecodeError:
+                    pass
             result = chardet.detect(raw)
-            if result['encoding'] is not None and result['encoding'].lower()=='ascii':
-                return 'utf-8' # Only the first bytes are known to be ascii
             return result['encoding']
 
 
-- 
2.43.0


From 131c06cbd622a57b6e351deda283efe73f1937dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:27 +0000
Subject: [PATCH 058/171] fix: missing values are also written when the
 separator is a blank

---
 weio/csv_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 7b2b489..351ef8e 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -292,7 +292,7 @@ class CSVFile(File):
             sep='\t'
         elif sep is None:
             sep=','
-        na_rep = 'NaN' if sep=='\t' else '' # Tabs are read as blanks, an empty field would be skipped
+        na_rep = 'NaN' if sep.isspace() else '' # Tabs are read as blanks, an empty field would be skipped
         # Write
         if len(self.header)>0:
             with open(self.filename, 'w', encoding='utf-8') as f:
-- 
2.43.0


From 0404b5473443c8d7e25d534347a81d108a3815df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:58 +0000
Subject: [PATCH 059/171] fix: AeroDyn blade files with a single node can be
 written

---
 weio/fast_input_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 0183966..3aeb249 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1419,6 +1419,8 @@ class ADBladeFile(FASTInputFileBase):
         self['NumBlNds']=self['BldAeroNodes'].shape[0]
         aeroNodes = self['BldAeroNodes']
         # TODO double check this calculation with gradient
+        if aeroNodes.shape[0]<2:
+            return # Gradients need at least two nodes
         dr = np.gradient(aeroNodes[:,0])
         dx = np.gradient(aeroNodes[:,1])
         crvAng = np.degrees(np.arctan2(dx,dr))*np.pi/180
-- 
2.43.0


From f442dd3e80d304e9f458d9acdca357f081731b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:58 +0000
Subject: [PATCH 060/171] fix: quoted file names with blanks are kept whole in
 lists of files

---
 weio/fast_input_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 3aeb249..b48d8a9 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1286,7 +1286,9 @@ def parseFASTFilTable(lines,n,iStart):
         if len(lines)!=n:
             raise WrongFormatError('Not enough lines in table: {} lines instead of {}'.format(len(lines),n))
         for i in range(n):
-            l = lines[i].split()
+            l = cleanLine(lines[i]).split()
+            if len(l)>0:
+                _merge_value(l) # a quoted name may contain blanks
             #print(l[0].strip())
             Tab.append(l[0].strip())
             
-- 
2.43.0


From 8a49f3230e7cc1bd9f64963c296546cf60053ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:09 +0000
Subject: [PATCH 061/171] fix: the comment line of blade files is kept whole

---
 weio/fast_input_file.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index b48d8a9..d8017d9 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -295,6 +295,16 @@ class FASTInputFileBase(File):
         """ return indices of comment line"""
         return [] # Typical OpenFAST files have comment on second line [1]
 
+    def _setCommentLines(self, lines):
+        """ Comment lines (often free text) are kept as they are in the file """
+        for i in self._IComment:
+            if i>=len(lines):
+                continue
+            d = getDict()
+            d['isComment'] = True
+            d['value']     = lines[i]
+            self.data[i] = d
+
 
     def read(self, filename=None):
         if filename:
@@ -650,6 +660,7 @@ class FASTInputFileBase(File):
 # #             print(e)
 #             raise Exception('Fast File {}: '.format(self.filename)+'\n'+e.args[0])
         self._lines = lines 
+        self._setCommentLines(lines) # fix some stuff that generic reader fail at
 
             
     def toString(self):
@@ -1314,6 +1325,7 @@ class EDBladeFile(FASTInputFileBase):
     def from_fast_input_file(cls, parent):
         self = cls()
         self.setData(filename=parent.filename, data=parent.data, hasNodal=parent.hasNodal, module='EDBlade')
+        self._setCommentLines(getattr(parent,'_lines',[]))
         return self
 
     def __init__(self, filename=None, **kwargs):
@@ -1351,12 +1363,6 @@ class EDBladeFile(FASTInputFileBase):
             self.addValKey(     0.0   , 'BldEdgSh(4)', '           , coeff of x^4')
             self.addValKey(     0.0   , 'BldEdgSh(5)', '           , coeff of x^5')
             self.addValKey(     0.0   , 'BldEdgSh(6)', '           , coeff of x^6')
-        else:
-            # fix some stuff that generic reader fail at
-            d = getDict()
-            d['isComment'] = True
-            d['value']     = self._lines[1]
-            self.data[1] = d
         self.module='EDBlade'
 
     def _writeSanityChecks(self):
@@ -1403,6 +1409,7 @@ class ADBladeFile(FASTInputFileBase):
     def from_fast_input_file(cls, parent):
         self = cls()
         self.setData(filename=parent.filename, data=parent.data, hasNodal=parent.hasNodal, module='ADBlade')
+        self._setCommentLines(getattr(parent,'_lines',[]))
         return self
 
     def __init__(self, filename=None, **kwargs):
-- 
2.43.0


From 5c01d9943fbb76c40742ea14f613af2dbefd264c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:55 +0000
Subject: [PATCH 062/171] fix: SubDyn file of a deck is read when SD is
 requested (was HD)

---
 weio/fast_input_deck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index 1153ca5..bbd318f 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -275,7 +275,7 @@ class FASTInputDeck(dict):
 
             # SubDyn
             if self.fst_vt['Fst']['CompSub'] == 1:
-                self.fst_vt['SubDyn'] = self._read(self.fst_vt['Fst']['SubFile'],'HD')
+                self.fst_vt['SubDyn'] = self._read(self.fst_vt['Fst']['SubFile'],'SD')
 
             # Mooring
             if self.fst_vt['Fst']['CompMooring']==1:
-- 
2.43.0


From e9873c49180018b66c80063ed62136f88d91f55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:55 +0000
Subject: [PATCH 063/171] fix: the written deck refers to its ServoDyn file
 (was the AeroDyn file)

---
 weio/fast_input_deck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index bbd318f..db2e66f 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -371,7 +371,7 @@ class FASTInputDeck(dict):
         fst['BDBldFile(3)'] = '"' + os.path.basename(filename_BD) + '"'
         fst['InflowFile']   = '"' + os.path.basename(filename_IW) + '"'
         fst['AeroFile']     = '"' + os.path.basename(filename_AD) + '"'
-        fst['ServoFile']    = '"' + os.path.basename(filename_AD) + '"'
+        fst['ServoFile']    = '"' + os.path.basename(filename_SvD) + '"'
         fst['HydroFile']    = '"' + os.path.basename(filename_HD) + '"'
         fst['SubFile']      = '"' + os.path.basename(filename_SD) + '"'
         fst['MooringFile']  = '"' + os.path.basename(filename_MD) + '"'
-- 
2.43.0


From 8c958283afd9976405e84835cd636d28a590ec8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:55 +0000
Subject: [PATCH 064/171] fix: absolute paths of blade and airfoil files of a
 deck

---
 weio/fast_input_deck.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index db2e66f..57f5b4f 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -102,13 +102,15 @@ class FASTInputDeck(dict):
         else:
             baseDir  = os.path.dirname(filename)
 
+        baseDir = baseDir.replace('"','')
+
         self.verbose  = verbose
 
         self.fst_vt[key] = self._read(filename,'AD')
 
         if self.fst_vt[key] is not None:
             # Blades
-            bld_file = os.path.join(baseDir, self.fst_vt[key]['ADBlFile(1)'])
+            bld_file = os.path.join(baseDir, self.fst_vt[key]['ADBlFile(1)'].replace('"',''))
             self.fst_vt['AeroDynBlade'] = self._read(bld_file,'ADbld')
             #self.fst_vt['AeroDynBlade'] = []
             #for i in range(3):
@@ -117,7 +119,7 @@ class FASTInputDeck(dict):
             # Polars
             self.fst_vt['af_data']=[] # TODO add to "AeroDyn"
             for afi, af_filename in enumerate(self.fst_vt['AeroDyn15']['AFNames']):
-                af_filename = os.path.join(baseDir,af_filename).replace('"','')
+                af_filename = os.path.join(baseDir,af_filename.replace('"',''))
                 try: 
                     polar = self._read(af_filename, 'AF')
                 except:
@@ -288,7 +290,7 @@ class FASTInputDeck(dict):
                 self.fst_vt['BeamDyn'] = self._read(self.fst_vt['Fst']['BDBldFile(1)'],'BD')
                 if self.fst_vt['BeamDyn'] is not None:
                     # Blades
-                    bld_file = os.path.join(os.path.dirname(self.fst_vt['Fst']['BDBldFile(1)']), self.fst_vt['BeamDyn']['BldFile'])
+                    bld_file = self.BD_bld_relpath
                     self.fst_vt['BeamDynBlade']= self._read(bld_file,'BDbld')
 
         # --- Backward compatibility
-- 
2.43.0


From c2c72eb5688161345e10d51f96051972737c2f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:55 +0000
Subject: [PATCH 065/171] fix: decks with AeroDyn14 can be read and written

---
 weio/fast_input_deck.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index 57f5b4f..d2fff5f 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -109,16 +109,19 @@ class FASTInputDeck(dict):
         self.fst_vt[key] = self._read(filename,'AD')
 
         if self.fst_vt[key] is not None:
-            # Blades
-            bld_file = os.path.join(baseDir, self.fst_vt[key]['ADBlFile(1)'].replace('"',''))
-            self.fst_vt['AeroDynBlade'] = self._read(bld_file,'ADbld')
+            # Blades (NOTE: AeroDyn14 files have no separate blade files)
+            keys = self.fst_vt[key].keys()
+            if 'ADBlFile(1)' in keys:
+                bld_file = os.path.join(baseDir, self.fst_vt[key]['ADBlFile(1)'].replace('"',''))
+                self.fst_vt['AeroDynBlade'] = self._read(bld_file,'ADbld')
             #self.fst_vt['AeroDynBlade'] = []
             #for i in range(3):
             #    bld_file = os.path.join(os.path.dirname(self.fst_vt['Fst']['AeroFile']), self.fst_vt[key]['ADBlFile({})'.format(i+1)])
             #    self.fst_vt['AeroDynBlade'].append(self._read(bld_file,'ADbld'))
             # Polars
             self.fst_vt['af_data']=[] # TODO add to "AeroDyn"
-            for afi, af_filename in enumerate(self.fst_vt['AeroDyn15']['AFNames']):
+            afKey = 'AFNames' if 'AFNames' in keys else 'FoilNm'
+            for afi, af_filename in enumerate(self.fst_vt[key][afKey]):
                 af_filename = os.path.join(baseDir,af_filename.replace('"',''))
                 try: 
                     polar = self._read(af_filename, 'AF')
@@ -126,7 +129,7 @@ class FASTInputDeck(dict):
                     polar=None
                     print('[FAIL] reading polar {}'.format(af_filename))
                 self.fst_vt['af_data'].append(polar)
-                if polar is not None:
+                if polar is not None and 'NumCoords' in polar.keys():
                     coordFile = polar['NumCoords']
                     if isinstance(coordFile,str):
                         coordFile = coordFile.replace('"','')
@@ -408,7 +411,8 @@ class FASTInputDeck(dict):
             self.fst_vt['InflowWind'].write(filename_IW)
 
         if fst['CompAero']>0:
-            self.fst_vt['AeroDyn15'].write(filename_AD)
+            key = 'AeroDyn14' if fst['CompAero']==1 else 'AeroDyn15'
+            self.fst_vt[key].write(filename_AD)
             # TODO other files
 
         if fst['CompServo']>0:
-- 
2.43.0


From c71d4b0ad5617775ec59f67836c9fad1ae25a76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:55 +0000
Subject: [PATCH 066/171] fix: nothing of the previous deck is left when a deck
 is read again

---
 weio/fast_input_deck.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index d2fff5f..4b00bb0 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -120,6 +120,7 @@ class FASTInputDeck(dict):
             #    self.fst_vt['AeroDynBlade'].append(self._read(bld_file,'ADbld'))
             # Polars
             self.fst_vt['af_data']=[] # TODO add to "AeroDyn"
+            self.fst_vt['ac_data']=[]
             afKey = 'AFNames' if 'AFNames' in keys else 'FoilNm'
             for afi, af_filename in enumerate(self.fst_vt[key][afKey]):
                 af_filename = os.path.join(baseDir,af_filename.replace('"',''))
@@ -226,6 +227,16 @@ class FASTInputDeck(dict):
         if filename is not None:
             self.filename = filename
 
+        # Nothing should remain from a previous read
+        for k in self.fst_vt.keys():
+            self.fst_vt[k] = None
+        self.fst_vt['description'] = ''
+        self.fst_vt['af_data']     = []
+        self.fst_vt['ac_data']     = []
+        self.inputfiles = {}
+        self.AD         = None
+        self.ADversion  = ''
+
         # Read OpenFAST files
         self.fst_vt['Fst'] = self._read(self.FAST_InputFile, 'Fst')
         if self.fst_vt['Fst'] is None:
@@ -299,8 +310,6 @@ class FASTInputDeck(dict):
         # --- Backward compatibility
         self.fst = self.fst_vt['Fst']
         self.ED  = self.fst_vt['ElastoDyn']
-        if not hasattr(self,'AD'):
-            self.AD = None
         if self.AD is not None:
             self.AD.Bld1 = self.fst_vt['AeroDynBlade']
             self.AD.AF  = self.fst_vt['af_data']
-- 
2.43.0


From 5a34359c504abd19ddbcbcb0dd7d63787a4d59e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:34 +0000
Subject: [PATCH 067/171] fix: deck written with its module files in another
 directory refers to them

---
 weio/fast_input_deck.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index 4b00bb0..deb4f29 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -379,17 +379,23 @@ class FASTInputDeck(dict):
         filename_BD_bld = os.path.join(directory,prefix+'BD_bld'+suffix+'.dat')  if fst['CompElast']>0   else 'none'
         # TODO AD Profiles and OLAF
 
-        fst['EDFile']       = '"' + os.path.basename(filename_ED) + '"'
-        fst['BDBldFile(1)'] = '"' + os.path.basename(filename_BD) + '"'
-        fst['BDBldFile(2)'] = '"' + os.path.basename(filename_BD) + '"'
-        fst['BDBldFile(3)'] = '"' + os.path.basename(filename_BD) + '"'
-        fst['InflowFile']   = '"' + os.path.basename(filename_IW) + '"'
-        fst['AeroFile']     = '"' + os.path.basename(filename_AD) + '"'
-        fst['ServoFile']    = '"' + os.path.basename(filename_SvD) + '"'
-        fst['HydroFile']    = '"' + os.path.basename(filename_HD) + '"'
-        fst['SubFile']      = '"' + os.path.basename(filename_SD) + '"'
-        fst['MooringFile']  = '"' + os.path.basename(filename_MD) + '"'
-        fst['IceFile']      = '"' + os.path.basename(filename_Ice)+ '"'
+        def ref(f):
+            """ path as seen from the main file"""
+            if f!='none':
+                f = os.path.relpath(f, os.path.dirname(filename) or '.')
+            return '"' + f + '"'
+
+        fst['EDFile']       = ref(filename_ED)
+        fst['BDBldFile(1)'] = ref(filename_BD)
+        fst['BDBldFile(2)'] = ref(filename_BD)
+        fst['BDBldFile(3)'] = ref(filename_BD)
+        fst['InflowFile']   = ref(filename_IW)
+        fst['AeroFile']     = ref(filename_AD)
+        fst['ServoFile']    = ref(filename_SvD)
+        fst['HydroFile']    = ref(filename_HD)
+        fst['SubFile']      = ref(filename_SD)
+        fst['MooringFile']  = ref(filename_MD)
+        fst['IceFile']      = ref(filename_Ice)
         fst.write(filename)
 
 
-- 
2.43.0


From 34db302374cd8b3848e400b82764aa3f1c390c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:17 +0000
Subject: [PATCH 068/171] fix: keys of YAML summaries are stripped and found at
 the first colon

---
 weio/mini_yaml.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/weio/mini_yaml.py b/weio/mini_yaml.py
index 04269b9..f787a57 100644
--- a/weio/mini_yaml.py
+++ b/weio/mini_yaml.py
@@ -68,13 +68,13 @@ def yaml_read(filename,dictIn=None):
         i+=1;
         if len(l)==0:
             continue
-        sp=l.split(':')
+        sp=l.split(':',1)
         if len(sp)==2 and len(sp[1].strip())==0:
-            key=sp[0]
+            key=sp[0].strip()
             array,i=readDashList(i)
             d[key]=array
         elif len(sp)==2:
-            key=sp[0]
+            key=sp[0].strip()
             val=sp[1]
             try:
                 d[key]=int(val)
@@ -84,7 +84,7 @@ def yaml_read(filename,dictIn=None):
                 except:
                     d[key]=val.strip()
         else:
-            raise Exception('Line {:d} has colon, number of splits is {}, which is not supported'.format(len(sp)))
+            raise Exception('Line {:d} has no colon, which is not supported: {}'.format(i, l))
     return d
 
 
-- 
2.43.0


From c9663ff35a67f1d611173a7ce40cea3e8eb3b935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:17 +0000
Subject: [PATCH 069/171] fix: YAML lists mixing integers and reals, with
 comment lines, or empty at the end of file

---
 weio/mini_yaml.py | 47 +++++++++++++++++++----------------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/weio/mini_yaml.py b/weio/mini_yaml.py
index f787a57..26400af 100644
--- a/weio/mini_yaml.py
+++ b/weio/mini_yaml.py
@@ -31,36 +31,27 @@ def yaml_read(filename,dictIn=None):
 
     def readDashList(iStart):
         """ """
-        i=iStart
-        while i<len(lines):
+        rows=[]
+        iEnd=iStart # line after the last line of the list
+        for i in range(iStart,len(lines)):
             l = lines[i].strip()
-            if len(l)==0:
-                iEnd=i-1
+            if len(l)>0 and l[0]=='#':
+                continue # comment line
+            if len(l)==0 or l[0]!='-':
                 break
-            if l[0]=='-':
-                iEnd=i
-                i+=1
-            else:
-                iEnd=i-1
-                break
-        n=iEnd-iStart+1
-        FirstElems = cleanComment(lines[iStart])[1:].replace(']','').replace('[','').split(',')
-        FirstElems = np.array([v.strip() for v in FirstElems if len(v.strip())>0])
-        try: 
-            FirstElems=FirstElems.astype(int)
-            mytype=int
-        except:
-            try: 
-                FirstElems=FirstElems.astype(float)
-                mytype=float
-            except:
-                raise Exception('Cannot convert line to float or int: {}'.format(lines[iStart]))
-        M = np.zeros((n,len(FirstElems)), mytype)
-        if len(FirstElems)>0:
-            for i in np.arange(iStart,iEnd+1):
-                elem = cleanComment(lines[i])[1:].replace(']','').replace('[','').split(',')
-                M[i-iStart,:] = np.array([v.strip() for v in elem if len(v)>0]).astype(mytype)
-        return M, iEnd+1
+            elem = cleanComment(l)[1:].replace(']','').replace('[','').split(',')
+            rows.append([v.strip() for v in elem if len(v.strip())>0])
+            iEnd=i+1
+        if len(rows)==0:
+            return np.zeros((0,0), int), iEnd
+        if any([len(r)!=len(rows[0]) for r in rows]):
+            raise Exception('Rows with different number of values, line {}: {}'.format(iStart+1, lines[iStart]))
+        for mytype in [int, float]:
+            try:
+                return np.array([[mytype(v) for v in r] for r in rows], mytype).reshape((len(rows),len(rows[0]))), iEnd
+            except ValueError:
+                pass
+        raise Exception('Cannot convert list to float or int, line {}: {}'.format(iStart+1, lines[iStart]))
 
     i=0
     while i<len(lines):
-- 
2.43.0


From 113ce34cfb4f43e5e846d7dde50e8696227eaa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:17 +0000
Subject: [PATCH 070/171] fix: nothing of the previous summary file is left
 when another one is read

---
 weio/fast_summary_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/fast_summary_file.py b/weio/fast_summary_file.py
index ce4a88d..c94dd5c 100644
--- a/weio/fast_summary_file.py
+++ b/weio/fast_summary_file.py
@@ -61,6 +61,7 @@ class FASTSummaryFile(File):
         with open(self.filename, 'r', errors="surrogateescape") as fid:
             header= readFirstLines(fid, 4)
         if any(['subdyn' in s.lower() for s in header]):
+            self.clear()
             self['module']='SubDyn'
             readSubDynSum(self)
         else:
-- 
2.43.0


From ecb8503c73ca87861c0613ef1051e5050644f447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:53 +0000
Subject: [PATCH 071/171] fix: blank lines of htc files are neither read as
 elements nor a reason to fail, and comments after them are kept

---
 weio/wetb/hawc2/htc_contents.py | 8 ++++----
 weio/wetb/hawc2/htc_file.py     | 4 +++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index 22aa3e4..0afd62b 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -22,8 +22,10 @@ def parse_next_line(lines):
     _3to2list = list(lines.pop(0).split(";"))
     line, comments, = _3to2list[:1] + [_3to2list[1:]]
     comments = ";".join(comments).rstrip()
-    while lines and lines[0].lstrip().startswith(";"):
-        comments += "\n%s" % lines.pop(0).rstrip()
+    while lines and (lines[0].strip() == "" or lines[0].lstrip().startswith(";")):
+        comment = lines.pop(0).rstrip()
+        if comment != "":
+            comments += "\n%s" % comment
     return line.strip(), comments
 
 
@@ -234,8 +236,6 @@ class HTCSection(HTCContents):
         else:
             section = HTCSection(name, begin_comments)
         while lines:
-            if lines[0].strip() == "":
-                lines.pop(0)
             if lines[0].lower().startswith("begin"):
                 section._add_contents(HTCSection.from_lines(lines))
             elif lines[0].lower().startswith("end"):
diff --git a/weio/wetb/hawc2/htc_file.py b/weio/wetb/hawc2/htc_file.py
index 6848a7e..9f1d515 100644
--- a/weio/wetb/hawc2/htc_file.py
+++ b/weio/wetb/hawc2/htc_file.py
@@ -173,7 +173,9 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
 
         #lines = copy(self.lines)
         while lines:
-            if lines[0].startswith(";"):
+            if lines[0] == "":
+                lines.pop(0)
+            elif lines[0].startswith(";"):
                 self.initial_comments.append(lines.pop(0).strip() + "\n")
             elif lines[0].lower().startswith("begin"):
                 self._add_contents(HTCSection.from_lines(lines))
-- 
2.43.0


From c120acd813751de3e2fe789c8c15e032a72db464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:23 +0000
Subject: [PATCH 072/171] fix: names of htc blocks are recognised whatever the
 blanks before them

---
 weio/wetb/hawc2/htc_contents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index 0afd62b..c0d28dc 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -228,7 +228,7 @@ class HTCSection(HTCContents):
     @staticmethod
     def from_lines(lines):
         line, begin_comments = parse_next_line(lines)
-        name = line[6:].lower()
+        name = line[6:].strip().lower()
         if name == "output":
             section = HTCOutputSection(name, begin_comments)
         elif name.startswith("output_at_time"):
-- 
2.43.0


From 4a359a7dd49e26fc3623c0e3488652a5d33922ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:23 +0000
Subject: [PATCH 073/171] fix: output_at_time blocks with a comment can be
 written

---
 weio/wetb/hawc2/htc_contents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index c0d28dc..db0b6cf 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -419,7 +419,7 @@ class HTCOutputAtTimeSection(HTCOutputSection):
 
     def __str__(self, level=0):
         s = "%sbegin %s %s %s;%s\n" % ("  " * level, self.name_, self.type, self.time,
-                                       ("", "\t" + self.begin_comments)[len(self.begin_comments.strip())])
+                                       ("", "\t" + self.begin_comments)[len(self.begin_comments.strip()) > 0])
         s += "".join([c.__str__(level + 1) for c in self])
         s += "".join([s.__str__(level + 1) for s in self.sensors])
         s += "%send %s;%s\n" % ("  " * level, self.name_, ("", "\t" + self.end_comments)
-- 
2.43.0


From 9858098bac17fc13d3cb4761b6a58562e94ae46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:23 +0000
Subject: [PATCH 074/171] fix: htc values that are not finite numbers, or that
 hold underscores, are kept as text

---
 weio/wetb/hawc2/htc_contents.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index db0b6cf..b6cb54d 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -29,13 +29,21 @@ def parse_next_line(lines):
     return line.strip(), comments
 
 
-def fmt_value(v):
+def fmt_number(v):
+    """ value of a number, or the text itself if it is not a (finite) number """
+    if "_" in v:  # digits separated by underscores are no number in htc files
+        return v
     try:
         if int(float(v)) == float(v):
             return int(float(v))
         return float(v)
-    except ValueError:
-        return v.replace("\\", "/")
+    except (ValueError, OverflowError):
+        return v
+
+
+def fmt_value(v):
+    v = fmt_number(v)
+    return v.replace("\\", "/") if isinstance(v, str) else v
 
 
 class HTCContents(object):
@@ -450,14 +458,7 @@ class HTCSensor(HTCLine):
         else:
             type, sensor, values = "", "", []
 
-        def fmt(v):
-            try:
-                if int(float(v)) == float(v):
-                    return int(float(v))
-                return float(v)
-            except ValueError:
-                return v
-        values = [fmt(v) for v in values]
+        values = [fmt_number(v) for v in values]
         return HTCSensor(type, sensor, values, comments)
 
     def __str__(self, level=0):
-- 
2.43.0


From 76ee8f17d2898647101928f7ec269df564a3f959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:23 +0000
Subject: [PATCH 075/171] fix: copies of htc blocks are complete and know their
 elements

---
 weio/wetb/hawc2/htc_contents.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index b6cb54d..838bc15 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -295,9 +295,13 @@ class HTCSection(HTCContents):
 
     def copy(self):
         copy = HTCSection(name=self.name_, begin_comments=self.begin_comments, end_comments=self.end_comments)
+        self._copy_contents(copy)
+        return copy
+
+    def _copy_contents(self, copy):
         for k, v in self.contents.items():
             copy.contents[k] = v.copy()
-        return copy
+            copy.contents[k].parent = copy
 
 
 class HTCLine(HTCContents):
@@ -379,6 +383,16 @@ class HTCOutputSection(HTCSection):
         self.sensors.insert(nr, htcSensor)
         htcSensor.parent = self
 
+    def copy(self):
+        copy = HTCOutputSection(name=self.name_, begin_comments=self.begin_comments, end_comments=self.end_comments)
+        self._copy_contents(copy)
+        return copy
+
+    def _copy_contents(self, copy):
+        HTCSection._copy_contents(self, copy)
+        for s in self.sensors:
+            copy._add_sensor(s.copy())
+
     def line_from_line(self, lines):
         name = lines[0].split()[0].strip()
 
@@ -425,6 +439,12 @@ class HTCOutputAtTimeSection(HTCOutputSection):
         self.time = float(time)
         HTCOutputSection.__init__(self, name, begin_comments=begin_comments, end_comments=end_comments)
 
+    def copy(self):
+        copy = HTCOutputAtTimeSection(name="%s %s %s" % (self.name_, self.type, self.time),
+                                      begin_comments=self.begin_comments, end_comments=self.end_comments)
+        self._copy_contents(copy)
+        return copy
+
     def __str__(self, level=0):
         s = "%sbegin %s %s %s;%s\n" % ("  " * level, self.name_, self.type, self.time,
                                        ("", "\t" + self.begin_comments)[len(self.begin_comments.strip()) > 0])
@@ -468,6 +488,9 @@ class HTCSensor(HTCLine):
                                    ("", "\t" + self.str_values())[bool(self.values)],
                                    ("", "\t" + self.comments)[bool(self.comments.strip())])
 
+    def copy(self):
+        return HTCSensor(self.type, self.sensor, self.values, self.comments)
+
     def delete(self):
         self.parent.sensors.remove(self)
 
-- 
2.43.0


From 06ca6e902223d0a1b0f916be729139da4cf5c9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:23 +0000
Subject: [PATCH 076/171] fix: an output block given to add_section is added,
 not replaced by an empty one

---
 weio/wetb/hawc2/htc_contents.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index 838bc15..2b0deb1 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -152,12 +152,13 @@ class HTCContents(object):
             section_name = section.name_
         if section_name in self and allow_duplicate is False:
             return self[section_name]
-        if section_name == "output":
-            section = HTCOutputSection(section_name)
-        elif section_name.startswith("output_at_time"):
-            section = HTCOutputAtTimeSection(section_name)
-        elif section is None:
-            section = HTCSection(section_name)
+        if section is None:
+            if section_name == "output":
+                section = HTCOutputSection(section_name)
+            elif section_name.startswith("output_at_time"):
+                section = HTCOutputAtTimeSection(section_name)
+            else:
+                section = HTCSection(section_name)
         self._add_contents(section)
         kwargs.update(members)
         for k, v in kwargs.items():
-- 
2.43.0


From bcc04856b9b711f422e22d21b680cc5aa9351472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:23 +0000
Subject: [PATCH 077/171] fix: get_element of htc blocks looks for the value
 asked for

---
 weio/wetb/hawc2/htc_contents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index 2b0deb1..05293ec 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -284,7 +284,7 @@ class HTCSection(HTCContents):
         if isinstance(key, int):
             lst = [s for s in self if s.values[key] == value]
         elif isinstance(key, str):
-            lst = [s for s in self if key in s and s[key][0] == name]
+            lst = [s for s in self if key in s and s[key][0] == value]
         else:
             raise ValueError("Key argument must be int or str")
         if len(lst) == 1:
-- 
2.43.0


From e996fc09e6da02e0b3603affcd82512d54bb2b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:34 +0000
Subject: [PATCH 078/171] fix: comments at the end of htc blocks do not gain
 blanks each time the file is saved

---
 weio/wetb/hawc2/htc_contents.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index 05293ec..b7632d4 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -248,7 +248,8 @@ class HTCSection(HTCContents):
             if lines[0].lower().startswith("begin"):
                 section._add_contents(HTCSection.from_lines(lines))
             elif lines[0].lower().startswith("end"):
-                line, section.end_comments = parse_next_line(lines)
+                line, end_comments = parse_next_line(lines)
+                section.end_comments = end_comments.strip(" \t")
                 break
             elif lines:
                 section._add_contents(section.line_from_line(lines))
-- 
2.43.0


From 3ba8ee3ecb2236d00235f2ccfd543d3b92a8a3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:34 +0000
Subject: [PATCH 079/171] fix: setBodyC2 leaves the body as it was when it
 cannot set the sections

---
 weio/hawc2_htc_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawc2_htc_file.py b/weio/hawc2_htc_file.py
index 0a7449c..52a8b79 100644
--- a/weio/hawc2_htc_file.py
+++ b/weio/hawc2_htc_file.py
@@ -76,7 +76,6 @@ class HAWC2HTCFile(File):
         nsec     = bdy.c2_def.nsec[0]
         nsec_new = val.shape[0]
         sec_keys = [k for k in bdy.c2_def.keys() if k.startswith('sec')]
-        bdy.c2_def.nsec = nsec_new
         if nsec != nsec_new:
             if nsec_new<nsec:
                 for k in sec_keys[nsec_new:]:
@@ -86,6 +85,7 @@ class HAWC2HTCFile(File):
                 # we delete
             else:
                 raise NotImplementedError('Setting c2_def with different number of sections')
+        bdy.c2_def.nsec = nsec_new
         for i, k in enumerate(sec_keys):
             bdy.c2_def[k].values[0] = int(val[i][0])
             bdy.c2_def[k].values[1:] = val[i][1:]
-- 
2.43.0


From 88fde79d0af1046c7fc0f2d0858b7acb024c0e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:34 +0000
Subject: [PATCH 080/171] fix: a htc file that cannot be saved is not emptied

---
 weio/wetb/hawc2/htc_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/htc_file.py b/weio/wetb/hawc2/htc_file.py
index 9f1d515..51eb526 100644
--- a/weio/wetb/hawc2/htc_file.py
+++ b/weio/wetb/hawc2/htc_file.py
@@ -242,8 +242,10 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
         # exist_ok does not exist in Python27
         if not os.path.exists(os.path.dirname(filename)) and os.path.dirname(filename) != "":
             os.makedirs(os.path.dirname(filename))  # , exist_ok=True)
+        txt = str(self)
+        txt.encode('cp1252')  # raises an exception before the file is opened
         with self.open(filename, 'w', encoding='cp1252') as fid:
-            fid.write(str(self))
+            fid.write(txt)
 
     def set_name(self, name, subfolder=''):
         """Sets the base filename of the simulation files. 
-- 
2.43.0


From f560bcdd50c8dbf382a3ae0190e198746aacecc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:58 +0000
Subject: [PATCH 081/171] fix: files included in a htc file are found whatever
 their letter case when the model path is detected

---
 weio/wetb/hawc2/htc_file.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/weio/wetb/hawc2/htc_file.py b/weio/wetb/hawc2/htc_file.py
index 51eb526..6c84d94 100644
--- a/weio/wetb/hawc2/htc_file.py
+++ b/weio/wetb/hawc2/htc_file.py
@@ -47,6 +47,12 @@ def fixcase(path):
         # Use matched folder
         p = pjoin(p, f_lst[0])
     return p
+
+def isfile_case_insensitive(f):
+    try:
+        return os.path.isfile(fixcase(f))  # raises exception if not existing
+    except IOError:
+        return False
 # --- end os_path
 
 class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
@@ -144,12 +150,6 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
             return "../"
         rel_input_files = [f for f in input_files if not os.path.isabs(f)]
 
-        def isfile_case_insensitive(f):
-            try:
-                f = fixcase(f)  # raises exception if not existing
-                return os.path.isfile(f)
-            except IOError:
-                return False
         found = ([np.sum([isfile_case_insensitive(os.path.join(os.path.dirname(self.filename), "../" * i, f))
                           for f in rel_input_files]) for i in range(4)])
 
@@ -206,7 +206,7 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
 
                 if self.modelpath == 'unknown':
                     p = os.path.dirname(self.filename)
-                    lu = [os.path.isfile(os.path.abspath(os.path.join(p, "../" * i, filename.replace("\\", "/"))))
+                    lu = [isfile_case_insensitive(os.path.abspath(os.path.join(p, "../" * i, filename.replace("\\", "/"))))
                           for i in range(4)].index(True)
                     filename = os.path.join(p, "../" * lu, filename)
                 else:
-- 
2.43.0


From 84aa7462c9bd56e35b03e10252ea3500fb2d794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:58 +0000
Subject: [PATCH 082/171] fix: the model path of a htc file is detected from
 its included files too

---
 weio/wetb/hawc2/htc_file.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/weio/wetb/hawc2/htc_file.py b/weio/wetb/hawc2/htc_file.py
index 6c84d94..623010f 100644
--- a/weio/wetb/hawc2/htc_file.py
+++ b/weio/wetb/hawc2/htc_file.py
@@ -105,6 +105,7 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
     filename = None
     jinja_tags = {}
     htc_inputfiles = []
+    continue_files = []
     level = 0
     modelpath = "../"
     initial_comments = None
@@ -145,10 +146,11 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
 
         #print (["../"*i for i in range(3)])
         import numpy as np
-        input_files = HTCFile(self.filename, 'unknown').input_files()
+        htc = HTCFile(self.filename, 'unknown')
+        input_files = htc.input_files()
         if len(input_files) == 1:  # only input file is the htc file
             return "../"
-        rel_input_files = [f for f in input_files if not os.path.isabs(f)]
+        rel_input_files = [f for f in input_files + htc.continue_files if not os.path.isabs(f)]
 
         found = ([np.sum([isfile_case_insensitive(os.path.join(os.path.dirname(self.filename), "../" * i, f))
                           for f in rel_input_files]) for i in range(4)])
@@ -164,6 +166,7 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
         self.contents = OrderedDict()
         self.initial_comments = []
         self.htc_inputfiles = []
+        self.continue_files = []
         if self.filename is None:
             lines = self.empty_htc.split("\n")
         else:
@@ -204,6 +207,7 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
             if l.lower().lstrip().startswith('continue_in_file'):
                 filename = l.lstrip().split(";")[0][len("continue_in_file"):].strip().lower()
 
+                self.continue_files.append(filename.replace("\\", "/"))
                 if self.modelpath == 'unknown':
                     p = os.path.dirname(self.filename)
                     lu = [isfile_case_insensitive(os.path.abspath(os.path.join(p, "../" * i, filename.replace("\\", "/"))))
-- 
2.43.0


From 5a968d26855ea2f007e306bdcff182958e48e82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:33 +0000
Subject: [PATCH 083/171] fix: htc files with bytes that are no cp1252
 characters are read and saved unchanged

---
 weio/wetb/hawc2/htc_file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weio/wetb/hawc2/htc_file.py b/weio/wetb/hawc2/htc_file.py
index 623010f..b3a8fb5 100644
--- a/weio/wetb/hawc2/htc_file.py
+++ b/weio/wetb/hawc2/htc_file.py
@@ -189,7 +189,7 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
                 self._add_contents(line)
 
     def readfilelines(self, filename):
-        with self.open(self.unix_path(os.path.abspath(filename.replace('\\', '/'))), encoding='cp1252') as fid:
+        with self.open(self.unix_path(os.path.abspath(filename.replace('\\', '/'))), encoding='cp1252', errors='surrogateescape') as fid:
             txt = fid.read()
         if txt[:10].encode().startswith(b'\xc3\xaf\xc2\xbb\xc2\xbf'):
             txt = txt[3:]
@@ -247,8 +247,8 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
         if not os.path.exists(os.path.dirname(filename)) and os.path.dirname(filename) != "":
             os.makedirs(os.path.dirname(filename))  # , exist_ok=True)
         txt = str(self)
-        txt.encode('cp1252')  # raises an exception before the file is opened
-        with self.open(filename, 'w', encoding='cp1252') as fid:
+        txt.encode('cp1252', 'surrogateescape')  # raises an exception before the file is opened
+        with self.open(filename, 'w', encoding='cp1252', errors='surrogateescape') as fid:
             fid.write(txt)
 
     def set_name(self, name, subfolder=''):
-- 
2.43.0


From 4e2110cf7ab57a100991d2d7774b5917f29a25e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:05 +0000
Subject: [PATCH 084/171] fix: htc files whose first bytes are no cp1252
 characters are read

---
 weio/wetb/hawc2/htc_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/htc_file.py b/weio/wetb/hawc2/htc_file.py
index b3a8fb5..05ea97a 100644
--- a/weio/wetb/hawc2/htc_file.py
+++ b/weio/wetb/hawc2/htc_file.py
@@ -191,7 +191,7 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
     def readfilelines(self, filename):
         with self.open(self.unix_path(os.path.abspath(filename.replace('\\', '/'))), encoding='cp1252', errors='surrogateescape') as fid:
             txt = fid.read()
-        if txt[:10].encode().startswith(b'\xc3\xaf\xc2\xbb\xc2\xbf'):
+        if txt.startswith('\xef\xbb\xbf'):
             txt = txt[3:]
         if self.jinja_tags:
             template = jinja2.Template(txt)
-- 
2.43.0


From 99913c39715a85f483be9dccd42e33e26c8c151d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:52 +0000
Subject: [PATCH 085/171] fix: radius_ae returns the nearest radius for a
 radius of zero too

---
 weio/wetb/hawc2/ae_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/ae_file.py b/weio/wetb/hawc2/ae_file.py
index 2521d47..c5a3a6e 100644
--- a/weio/wetb/hawc2/ae_file.py
+++ b/weio/wetb/hawc2/ae_file.py
@@ -58,7 +58,7 @@ class AEFile(object):
 
     def radius_ae(self, radius=None, set_nr=1):
         radii = self.ae_sets[set_nr][:, 0]
-        if radius:
+        if radius is not None:
             return radii[np.argmin(np.abs(radii - radius))]
         else:
             return radii
-- 
2.43.0


From 0e55f111a6a05660c18634ef083905032f230cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:52 +0000
Subject: [PATCH 086/171] fix: HAWC2 ae sets may have any number

---
 weio/hawc2_ae_file.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/weio/hawc2_ae_file.py b/weio/hawc2_ae_file.py
index 950fe6a..0098910 100644
--- a/weio/hawc2_ae_file.py
+++ b/weio/hawc2_ae_file.py
@@ -58,21 +58,18 @@ class HAWC2AEFile(File):
         cols=['radius_[m]','chord_[m]','thickness_[%]','pc_set_[#]']
         nset = len(self.data.ae_sets)
         if nset == 1:
-            return pd.DataFrame(data=self.data.ae_sets[1], columns=cols)
+            return pd.DataFrame(data=self.sets[0], columns=cols)
         else:
             dfs = {}
-            for iset,aeset in enumerate(self.data.ae_sets):
-                name='ae_set_{}'.format(iset+1)
-                dfs[name] = pd.DataFrame(data=self.data.ae_sets[iset+1], columns=cols)
+            for iset,aeset in self.data.ae_sets.items():
+                name='ae_set_{}'.format(iset)
+                dfs[name] = pd.DataFrame(data=aeset, columns=cols)
             return dfs
 
     @property
     def sets(self):
         # Returns a list of ae_sets, otherwise not easy to iterate
-        sets=[]
-        for iset,aeset in enumerate(self.data.ae_sets):
-            sets.append(self.data.ae_sets[iset+1])
-        return sets
+        return list(self.data.ae_sets.values())
 
     # --- Convenient utils
     def add_set(self, **kwargs):
-- 
2.43.0


From 95246cbf00b426e8d35274ea84c54f9675011115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:52 +0000
Subject: [PATCH 087/171] fix: an ae file that cannot be written is not emptied

---
 weio/wetb/hawc2/ae_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/ae_file.py b/weio/wetb/hawc2/ae_file.py
index c5a3a6e..fd7b827 100644
--- a/weio/wetb/hawc2/ae_file.py
+++ b/weio/wetb/hawc2/ae_file.py
@@ -103,8 +103,9 @@ class AEFile(object):
             # fails if dirname is empty string
             if len(os.path.dirname(filename)) > 0:
                 os.makedirs(os.path.dirname(filename))
+        txt = str(self)
         with open(filename, 'w') as fid:
-            fid.write(str(self))
+            fid.write(txt)
 
     def _read_file(self, filename):
         ''' This method will read in the ae data from a HAWC2 ae file'''
-- 
2.43.0


From 6e286b9a5c67a8087e7ff152c8902de73f0b7194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:52 +0000
Subject: [PATCH 088/171] fix: a pc file that cannot be written is not emptied

---
 weio/wetb/hawc2/pc_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/pc_file.py b/weio/wetb/hawc2/pc_file.py
index 83e0a1b..50ba40f 100644
--- a/weio/wetb/hawc2/pc_file.py
+++ b/weio/wetb/hawc2/pc_file.py
@@ -147,8 +147,9 @@ class PCFile(object):
             # fails if dirname is empty string
             if len(os.path.dirname(filename)) > 0:
                 os.makedirs(os.path.dirname(filename))
+        txt = str(self)
         with open(filename, 'w') as fid:
-            fid.write(str(self))
+            fid.write(txt)
         self.filename = filename
 
 
-- 
2.43.0


From 4b1cb0a8f0fbe3e358c5d95fb0028f1a8457d08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:52 +0000
Subject: [PATCH 089/171] fix: sets of a HAWC2 pc file

---
 weio/hawc2_pc_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawc2_pc_file.py b/weio/hawc2_pc_file.py
index 74e69bd..e7a75c5 100644
--- a/weio/hawc2_pc_file.py
+++ b/weio/hawc2_pc_file.py
@@ -77,7 +77,7 @@ class HAWC2PCFile(File):
 
     @property
     def sets(self):
-        return self.pc_sets
+        return self.data.pc_sets
 
     def __repr__(self):
         cols=['Alpha_[deg]','Cl_[-]','Cd_[-]','Cm_[-]']
-- 
2.43.0


From 9561b24cef8ce96861025feaead46b5e527db45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:46 +0000
Subject: [PATCH 090/171] fix: coefficients of a pc set with a single profile

---
 weio/wetb/hawc2/pc_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/wetb/hawc2/pc_file.py b/weio/wetb/hawc2/pc_file.py
index 50ba40f..07fb337 100644
--- a/weio/wetb/hawc2/pc_file.py
+++ b/weio/wetb/hawc2/pc_file.py
@@ -52,6 +52,8 @@ class PCFile(object):
 
     def _Cxxx(self, thickness, alpha, column, pc_set_nr=1):
         thicknesses, profiles = self.pc_sets[pc_set_nr]
+        if len(profiles) == 1:
+            return np.interp(alpha, profiles[0][:, 0], profiles[0][:, column])
         index = np.searchsorted(thicknesses, thickness)
         if index == 0:
             index = 1
-- 
2.43.0


From 5e40591171d7eba755e36c6358c24ea5f37fb1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:46 +0000
Subject: [PATCH 091/171] fix: columns of st files are written apart whatever
 the width of the values

---
 weio/wetb/hawc2/st_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/wetb/hawc2/st_file.py b/weio/wetb/hawc2/st_file.py
index 91497a0..ff0ca1f 100644
--- a/weio/wetb/hawc2/st_file.py
+++ b/weio/wetb/hawc2/st_file.py
@@ -120,7 +120,7 @@ class StFile(object):
 
     def to_str(self, mset=1, set=1, precision='%12.5e '):
         d = self.main_data_sets[mset][set]
-        return '\n'.join([(precision * d.shape[1]) % tuple(row) for row in d])
+        return '\n'.join([' '.join([precision % v for v in row]) for row in d])
 
     def set_value(self, mset_nr, set_nr, **kwargs):
         for k, v in kwargs.items():
@@ -141,7 +141,7 @@ class StFile(object):
                 c = self.main_data_sets[1][1].shape[1]
                 raise TypeError(f'St input needs 19 (iso) or 30 (aniso/fpm) cols, not {c}')
 
-        colwidth = len(precision % 1)
+        colwidth = len(precision % 1) + 1
         sep = '=' * colwidth * len(self.cols) + '\n'
         colhead = ''.join([k.center(colwidth) for k in self.cols]) + '\n'
 
-- 
2.43.0


From 61d2a28972cb1b16cb53cf43d9684b7f4dfb3c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:12 +0000
Subject: [PATCH 092/171] fix: FLEX output: one time per row of data, whatever
 the rounding of the time step

---
 weio/flex_out_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/flex_out_file.py b/weio/flex_out_file.py
index d9c95e5..1d2708d 100644
--- a/weio/flex_out_file.py
+++ b/weio/flex_out_file.py
@@ -41,7 +41,7 @@ class FLEXOutFile(File):
             raise WrongFormatError('FLEX File {}: '.format(self.filename)+'\n'+e.args[0])
         self.nt       = np.size(self.data,0)
         self.nSensors = np.size(self.data,1)
-        self.time = np.arange(self.tmin, self.tmin +  self.nt * self.dt, self.dt).reshape(self.nt,1).astype(dtype)
+        self.time = (self.tmin + self.dt*np.arange(self.nt)).reshape(self.nt,1).astype(dtype)
 
         # --- Then the sensor file
         sensor_filename = os.path.join(os.path.dirname(self.filename), "sensor")
-- 
2.43.0


From 3c224dc63bb2053f22e6e7f1d9c18a9ad4920910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:12 +0000
Subject: [PATCH 093/171] fix: FLEX output: unknown versions of the file are
 refused with WrongFormatError

---
 weio/flex_out_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/flex_out_file.py b/weio/flex_out_file.py
index 1d2708d..5039acd 100644
--- a/weio/flex_out_file.py
+++ b/weio/flex_out_file.py
@@ -111,6 +111,8 @@ def read_flex_res(filename, dtype=np.float32):
             tmin = np.fromfile(fid, 'f', 1)[0] # Dummy
             dt = np.fromfile(fid, 'f', 1)[0] # Dummy
             scale_factors = np.fromfile(fid, 'f', nSensors).astype(dtype)
+        else:
+            raise WrongFormatError('Unknown version of FLEX out file: {}'.format(Version))
         # --- Reading Time series
         # FILE POSITION <<< fid.seek(8*nSensors + 48*2)
         data = np.fromfile(fid, 'int16').astype(dtype) #data = np.fromstring(fid.read(), 'int16').astype(dtype)
-- 
2.43.0


From cf915a77c8a40ce73fa5a84b6250fe13a0981cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:12 +0000
Subject: [PATCH 094/171] fix: FLEX sensor file: blank lines at the end are not
 sensors

---
 weio/flex_out_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/flex_out_file.py b/weio/flex_out_file.py
index 5039acd..cdb9980 100644
--- a/weio/flex_out_file.py
+++ b/weio/flex_out_file.py
@@ -137,6 +137,8 @@ def read_flex_sensor(sensor_file):
     d=dict({ 'ID':[],'Gain':[],'Offset':[],'Unit':[],'Name':[],'Description':[]});
     for line in sensor_info_lines:
         line   = line.strip().split()
+        if len(line)==0:
+            continue
         d['ID']          .append(int(line[0]))
         d['Gain']        .append(float(line[1]))
         d['Offset']      .append(float(line[2]))
-- 
2.43.0


From 7d5c5f3118a5d28b6cec821a1b4bcf7e870e1911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:30 +0000
Subject: [PATCH 095/171] fix: FLEX blade: the version is a number after #, not
 any number in the comment

---
 weio/flex_blade_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weio/flex_blade_file.py b/weio/flex_blade_file.py
index 4442ffa..e04276b 100644
--- a/weio/flex_blade_file.py
+++ b/weio/flex_blade_file.py
@@ -33,8 +33,10 @@ class FLEXBladeFile(File):
             except:
                 raise WrongFormatError('Unable to read first two lines of blade file')
             try:
+                if not firstline.startswith('#'):
+                    raise ValueError()
                 self.version=int(firstline[1:4])
-            except:
+            except ValueError:
                 self.version=0
             # --- Different handling depending on version
             if self.version==0:
-- 
2.43.0


From 4e78c77543a8de2928014b231edf42dc2bb95690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:30 +0000
Subject: [PATCH 096/171] fix: FLEX blade: a section with missing values is
 refused instead of being filled with its only value

---
 weio/flex_blade_file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weio/flex_blade_file.py b/weio/flex_blade_file.py
index e04276b..851d730 100644
--- a/weio/flex_blade_file.py
+++ b/weio/flex_blade_file.py
@@ -74,6 +74,8 @@ class FLEXBladeFile(File):
                 for iSec in range(nSections):
                     vals=f.readline().split()
                     #if len(vals)>=nColsStruct:
+                    if len(vals)<nColsStruct:
+                        raise ValueError('Missing values')
                     struct[iSec,:]=np.array(vals[0:nColsStruct]).astype(float)
                     #elif self.version==1:
                     #    # version 1 has either 8 or 9 columns
@@ -105,6 +107,8 @@ class FLEXBladeFile(File):
             try:
                 for iSec in range(nSections):
                     vals=f.readline().split()[0:nColsAero]
+                    if len(vals)<nColsAero:
+                        raise ValueError('Missing values')
                     aero[iSec,:]=np.array(vals).astype(float)
             except:
                 raise WrongFormatError('Unable to read aerodynamic data')
-- 
2.43.0


From f3cebbd1d8f6a6b04fbc4059bf5d31e4ac803a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:30 +0000
Subject: [PATCH 097/171] fix: FLEX profile: a line with one value is refused
 instead of being copied to the four columns

---
 weio/flex_profile_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/flex_profile_file.py b/weio/flex_profile_file.py
index 6e01340..081e432 100644
--- a/weio/flex_profile_file.py
+++ b/weio/flex_profile_file.py
@@ -99,7 +99,7 @@ class FLEXProfileFile(File):
                     polars.append(np.zeros((nAlpha,4)))
                     try:
                         for ia in range(nAlpha):
-                            polars[it][ia,:]=np.array([f.readline().split()]).astype(float)
+                            polars[it][ia,:]=np.array(f.readline().split()).astype(float).reshape(4)
                     except:
                         raise BrokenFormatError('An error occured while reading set number {}, polar number {}, (thickness {}), value number {}.'.format(setNumber,it+1,t,ia+1))
 
-- 
2.43.0


From 04afcd5cb4e76dbb63df5c1c09b81bdf8e28e146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:30 +0000
Subject: [PATCH 098/171] fix: FLEX doc: the first row of the matrices is read

---
 weio/flex_doc_file.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/weio/flex_doc_file.py b/weio/flex_doc_file.py
index e741aeb..79d2a18 100644
--- a/weio/flex_doc_file.py
+++ b/weio/flex_doc_file.py
@@ -130,8 +130,6 @@ class FLEXDocFile(File):
                 elif sp[0] in ArraysNoHeader:
                     array_lines=[]
                     i=i+1
-                    header=lines[i]
-                    i=i+1
                     while i<len(lines) and len(lines[i])>0 and lines[i][0]!='#':
                         array_lines.append(np.array([float(v) for v in lines[i].split()]))
                         i=i+1
-- 
2.43.0


From 5dbb8e791ef7dab03dbbe41934c1c2d3b7793e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:30 +0000
Subject: [PATCH 099/171] fix: FLEX doc: texts are kept, and units and remarks
 are not read as values

---
 weio/flex_doc_file.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/weio/flex_doc_file.py b/weio/flex_doc_file.py
index 79d2a18..a4d0729 100644
--- a/weio/flex_doc_file.py
+++ b/weio/flex_doc_file.py
@@ -149,11 +149,13 @@ class FLEXDocFile(File):
                     key=keys[0][1:]
                     subkey = '_'.join(keys[1:])
                     values= ' '.join(sp[1:])
-                    try:
-                        dat= np.array(rx.findall(values)).astype(float)
+                    # Numbers, followed by units and remarks
+                    numbers = re.split(r'[\[(;]', values)[0]
+                    if len(numbers.strip())>0 and len(rx.sub('', numbers).strip())==0:
+                        dat= np.array(rx.findall(numbers)).astype(float)
                         if len(dat)==1:
                             dat=dat[0]
-                    except:
+                    else:
                         dat = values
 
                     if len(key.strip())>0:
-- 
2.43.0


From ba3570b8e708566f87c8cd017d917cd5db4e1d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:30 +0000
Subject: [PATCH 100/171] fix: FLEX doc: a line with blanks ends a table, and a
 table may have no rows

---
 weio/flex_doc_file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weio/flex_doc_file.py b/weio/flex_doc_file.py
index a4d0729..ccef3cc 100644
--- a/weio/flex_doc_file.py
+++ b/weio/flex_doc_file.py
@@ -95,7 +95,7 @@ class FLEXDocFile(File):
                     i=i+1
                     header=lines[i]
                     i=i+1
-                    while i<len(lines) and len(lines[i])>0 and lines[i][0]!='#':
+                    while i<len(lines) and len(lines[i].strip())>0 and lines[i][0]!='#':
                         array_lines.append(np.array([float(v) if v not in ['Fnd','Twr','COG'] else ['Fnd','Twr','COG'].index(v) for v in lines[i].split()]))
                         i=i+1
                     # --- Process array
@@ -115,6 +115,8 @@ class FLEXDocFile(File):
                         spcol=header.split(']')
                         cols= [v.strip().replace(' ','_').replace('[','_[').replace('__','_').replace('__','_')+']' for v in spcol[:-1]]
 
+                    if len(M)==0:
+                        M = np.zeros((0,len(cols)))
                     if len(cols)!=M.shape[1]:
                         cols=['C{}'.format(j) for j in range(M.shape[1])]
                     # --- Store
@@ -130,7 +132,7 @@ class FLEXDocFile(File):
                 elif sp[0] in ArraysNoHeader:
                     array_lines=[]
                     i=i+1
-                    while i<len(lines) and len(lines[i])>0 and lines[i][0]!='#':
+                    while i<len(lines) and len(lines[i].strip())>0 and lines[i][0]!='#':
                         array_lines.append(np.array([float(v) for v in lines[i].split()]))
                         i=i+1
                     # --- Process array
-- 
2.43.0


From fb9e8e2abfc6236b0bb0097831ae60654f964a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:59 +0000
Subject: [PATCH 101/171] fix: Bladed: data are text or binary according to the
 header, not to their first bytes

---
 weio/bladed_out_file.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index f32e9d7..f630b51 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -49,6 +49,10 @@ def read_bladed_sensor_file(sensorfile):
                 dat['nSections'] = 1
                 dat['SectionList'] = []
 
+        elif t_line.startswith('ACCESS'):
+            # D: direct access (binary), S: sequential access (text)
+            dat['Access'] = t_line[6:].strip().upper()
+
         elif t_line.startswith('FORMAT'):
             # precision: n/a, R*4, R*8, I*4 
             temp = t_line[7:].strip()
@@ -175,7 +179,8 @@ def read_bladed_output(sensorFilename, readTimeFilesOnly=False):
     # --- Read data file
     dataFilename = sensorFilename.replace('%','$')
 
-    if isBinary(dataFilename):            # it is binary            
+    access = sensorInfo.get('Access','')
+    if access=='D' or (access!='S' and isBinary(dataFilename)):            # it is binary            
 
         with open(os.path.join(dataFilename), 'rb') as fid_2:
             data = np.fromfile(fid_2, sensorInfo['Precision'])
-- 
2.43.0


From d369ff0a38ec3683355ab85f054029f6d0467b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:59 +0000
Subject: [PATCH 102/171] fix: Bladed: integer data are read as integers

---
 weio/bladed_out_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index f630b51..9c44288 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -57,7 +57,9 @@ def read_bladed_sensor_file(sensorfile):
             # precision: n/a, R*4, R*8, I*4 
             temp = t_line[7:].strip()
             dat['Precision'] = np.float32
-            if temp[-1] == '8':
+            if temp.startswith('I'):
+                dat['Precision'] = np.int32
+            elif temp[-1] == '8':
                 dat['Precision'] = np.float64
 
         elif t_line.startswith('GENLAB'):
-- 
2.43.0


From 799a681dfb40f98086a7f10083300f3910388a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:59 +0000
Subject: [PATCH 103/171] fix: Bladed: text data have the size given by the
 header (single steps, missing lines)

---
 weio/bladed_out_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 9c44288..2803c6f 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -203,7 +203,7 @@ def read_bladed_output(sensorFilename, readTimeFilesOnly=False):
         if sensorInfo['NDIMENS'] == 2:
             try:
                 # Data is stored as time, signal, we reshape to signal, time
-                data = np.loadtxt(dataFilename)
+                data = np.loadtxt(dataFilename).reshape((nMajor, nSensors))
             except ValueError as e:
                 # Most likely this was a binary file...
                 data = np.empty((nMajor, nSensors)) * np.nan
-- 
2.43.0


From d342a037af97402d16b8d84c0f57315989b14da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:59 +0000
Subject: [PATCH 104/171] fix: Bladed: unreadable text data are reported
 instead of being replaced by NaN

---
 weio/bladed_out_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 2803c6f..065d275 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -222,6 +222,7 @@ def read_bladed_output(sensorFilename, readTimeFilesOnly=False):
             except:
                 data = np.empty((nMajor, nSections, nSensors)) * np.nan
                 print('>>> Failed to read 3d ascii file: {}'.format(dataFilename))
+                raise
 
     return OrgData(data, **sensorInfo)
 
-- 
2.43.0


From 1e909bf3bbd7f73f48c6b68890e0b0a828df9c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:59 +0000
Subject: [PATCH 105/171] fix: Bladed: the time axis needs both its start and
 its step

---
 weio/bladed_out_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 065d275..1b529dc 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -173,7 +173,7 @@ def read_bladed_output(sensorFilename, readTimeFilesOnly=False):
     nSensors   = sensorInfo['nSensors']
     nMajor     = sensorInfo['nMajor']
     nSections  = sensorInfo['nSections']
-    hasTime = 'MIN' and 'STEP' in sensorInfo.keys()
+    hasTime = 'MIN' in sensorInfo.keys() and 'STEP' in sensorInfo.keys()
     # --- Return if caller only wants time series
     if readTimeFilesOnly and not hasTime:
         return [], {}
@@ -343,7 +343,7 @@ class BladedFile(File):
                 dataSets[key] = {}
                 dset = dataSets[key]
                 # We force a time vector when possible
-                if 'MIN' and 'STEP' in info.keys():
+                if 'MIN' in info.keys() and 'STEP' in info.keys():
                     time = np.arange(info['nMajor'])*info['STEP'] + info['MIN']
                     data = np.column_stack((time, data))
                     info['ChannelName'].insert(0, 'Time')
-- 
2.43.0


From 6208a8895c2ba72042ec0bb24ca23aef110f5eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:59 +0000
Subject: [PATCH 106/171] fix: Bladed: folders and files with %, $ or wildcards
 in their names

---
 weio/bladed_out_file.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 1b529dc..3bb99a0 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -179,7 +179,8 @@ def read_bladed_output(sensorFilename, readTimeFilesOnly=False):
         return [], {}
     
     # --- Read data file
-    dataFilename = sensorFilename.replace('%','$')
+    base, ext = os.path.splitext(sensorFilename)
+    dataFilename = base + ext.replace('%','$')
 
     access = sensorInfo.get('Access','')
     if access=='D' or (access!='S' and isBinary(dataFilename)):            # it is binary            
@@ -281,10 +282,10 @@ class BladedFile(File):
         basename, ext = os.path.splitext(self.filename)
         if ext.lower()=='.$pj':
             readTimeFilesOnly=True
-            searchPattern = basename + '.%[0-9][0-9]*' # find all files in the folder
+            searchPattern = glob.escape(basename) + '.%[0-9][0-9]*' # find all files in the folder
         else:
             readTimeFilesOnly=False
-            searchPattern = basename + ext.replace('$','%') # sensor file name
+            searchPattern = glob.escape(basename + ext.replace('$','%')) # sensor file name
         
         # Look for files matching pattern
         files = glob.glob(searchPattern)
@@ -303,7 +304,7 @@ class BladedFile(File):
 
         for i,filename in enumerate(files):
 
-            dataFilename = filename.replace('%','$')
+            dataFilename = os.path.splitext(filename)[0] + os.path.splitext(filename)[1].replace('%','$')
             try:
                 # Call "Read_bladed_file" function to Read and store data:
                 data, info = read_bladed_output(filename, readTimeFilesOnly=readTimeFilesOnly)    
-- 
2.43.0


From 621d1848e4a5786a77db71e1a0c0610aabbb2c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:59 +0000
Subject: [PATCH 107/171] fix: Bladed: names, units and sections may continue
 over several lines

---
 weio/bladed_out_file.py | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 3bb99a0..459a0f3 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -24,6 +24,16 @@ def read_bladed_sensor_file(sensorfile):
     with open(sensorfile, 'r') as fid:
         sensorLines = fid.readlines()
 
+    def fullLine(i, nextKey):
+        """ line i, with the lines that continue it, up to the line starting with nextKey"""
+        s = sensorLines[i].replace('\t',' ')
+        for line in sensorLines[i+1:]:
+            line = line.replace('\t',' ').strip()
+            if line.startswith(nextKey):
+                return s
+            s = s.strip()+' '+line
+        return sensorLines[i].replace('\t',' ')
+
     dat=dict() # relevant info in sensor file
     
     ## read sensor file line by line (just read up to line 20)
@@ -76,14 +86,8 @@ def read_bladed_sensor_file(sensorfile):
         elif t_line.startswith('AXITICK'):
             # Section on the 3rd dimension you are reading
             # sometimes, the info is written on "AXIVAL"
-            # Check next line, we concatenate if doesnt start with AXISLAB (Might need more cases)
-            try:
-                nextLine=sensorLines[i+1].strip()
-                if not nextLine.startswith('AXISLAB'):
-                    t_line = t_line.strip()+' '+nextLine
-            except:
-                pass
-
+            # We concatenate the next lines until AXISLAB (Might need more cases)
+            t_line = fullLine(i, 'AXISLAB')
             temp = t_line[7:].strip()
             temp = temp.strip('\'').split('\' \'')
             dat['SectionList'] = np.array(temp, dtype=str)
@@ -91,24 +95,14 @@ def read_bladed_sensor_file(sensorfile):
 
         elif t_line.startswith('VARIAB'):
             # channel names, NOTE: either quoted, non-quoted, and a mix of both
-            # Check next line, we concatenate if doesnt start with AXISLAB (Might need more cases)
-            try:
-                nextLine=sensorLines[i+1].strip()
-                if not nextLine.startswith('VARUNIT'):
-                    t_line = t_line.strip()+' '+nextLine
-            except:
-                pass
+            # We concatenate the next lines until VARUNIT (Might need more cases)
+            t_line = fullLine(i, 'VARUNIT')
             dat['ChannelName'] = shlex.split(t_line[6:])
 
         elif t_line.startswith('VARUNIT'):
             # channel units:         
-            # Check next line, we concatenate if doesnt start with AXISLAB (Might need more cases)
-            try:
-                nextLine=sensorLines[i+1].strip()
-                if not nextLine.startswith('AXISLAB'):
-                    t_line = t_line.strip()+' '+nextLine
-            except:
-                pass
+            # We concatenate the next lines until AXISLAB (Might need more cases)
+            t_line = fullLine(i, 'AXISLAB')
             def repUnits(s):
                 s = s.replace('TT','s^2').replace('T','s').replace('A','rad')
                 s = s.replace('P','W').replace('L','m').replace('F','N').replace('M','kg')
-- 
2.43.0


From e692034f0608cb4edec8297ee94d4b790414ef8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:59 +0000
Subject: [PATCH 108/171] fix: Bladed: data sets with the same name are all
 kept

---
 weio/bladed_out_file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 459a0f3..71cba28 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -357,6 +357,10 @@ class BladedFile(File):
             self.dataSets= {'Misc': dataSets[keyMisc[0]]}
         else:
             # Instead of using nMajor as key, we use the "name"
+            names = [v['name'] for v in dataSets.values()]
+            for k,v in dataSets.items():
+                if names.count(v['name'])>1:
+                    v['name'] = v['name']+'_'+str(k)
             self.dataSets= {v['name']: v for (k, v) in dataSets.items()}
 
                 
-- 
2.43.0


From 64781c9eaf4611b61d4255a0d13a91507d5f142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:36 +0000
Subject: [PATCH 109/171] fix: Bladed: headers with more than 30 lines are read
 to their end

---
 weio/bladed_out_file.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 71cba28..ab49163 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -36,10 +36,9 @@ def read_bladed_sensor_file(sensorfile):
 
     dat=dict() # relevant info in sensor file
     
-    ## read sensor file line by line (just read up to line 20)
-    #while i < 17: 
+    ## read sensor file line by line
     for i, t_line in enumerate(sensorLines):
-        if i>30:
+        if t_line.startswith('NVARS'): # end of the relevant information
             break
         t_line = t_line.replace('\t',' ')
         
-- 
2.43.0


From 86a52d1167dfddb9a182b1d07f36170879ea1884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:34 +0000
Subject: [PATCH 110/171] fix: VTK: fields with one component and tensors are
 available on the grid

---
 weio/vtk_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index f4a21a6..341886b 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -140,7 +140,8 @@ class VTKFile(File):
             # We provide point_data_grid, corresponds to point_data but reshaped
             for k,PD in self.point_data.items():
                 # NOTE: tested foe len(y)=1, len(z)=1
-                self.point_data_grid[k]=PD.reshape(len(self.xp_grid), len(self.yp_grid), len(self.zp_grid),PD.shape[1], order='F')
+                comps = PD.shape[1:] if len(PD.shape)>1 else (1,)
+                self.point_data_grid[k]=PD.reshape((len(self.xp_grid), len(self.yp_grid), len(self.zp_grid))+comps, order='F')
 
 
     def write(self, filename=None, binary=True):
-- 
2.43.0


From ac198d64ea90f0d4b8793f00a2811c4181450df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:34 +0000
Subject: [PATCH 111/171] fix: VTK: grids of a single point have one vertex
 cell

---
 weio/vtk_file.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index 341886b..a84fd7c 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -871,7 +871,12 @@ def _generate_cells(dim):
     ele_no = numpy.prod(ele_dim, dtype=int)
     spatial_dim = len(ele_dim)
 
-    if spatial_dim == 1:
+    if spatial_dim == 0:
+        # one vertex
+        cells = numpy.array([1, 0], dtype=int)
+        cell_types = numpy.full(ele_no, 1, dtype=int)
+
+    elif spatial_dim == 1:
         # cells are lines in 1D
         cells = numpy.empty((ele_no, 3), dtype=int)
         cells[:, 0] = 2
-- 
2.43.0


From 4b92219279294d9068f5aa8e9749f3b74643448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:34 +0000
Subject: [PATCH 112/171] fix: VTK: coordinates of rectilinear grids keep their
 values when the axes have different data types

---
 weio/vtk_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index a84fd7c..2586f41 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -920,7 +920,7 @@ def _generate_points(axis):
     z_dim = len(axis[2])
     pnt_no = x_dim * y_dim * z_dim
     x_id, y_id, z_id = numpy.mgrid[0:x_dim, 0:y_dim, 0:z_dim]
-    points = numpy.empty((pnt_no, 3), dtype=axis[0].dtype)
+    points = numpy.empty((pnt_no, 3), dtype=numpy.result_type(*axis))
     # VTK sorts points and cells in Fortran order
     points[:, 0] = axis[0][x_id.reshape(-1, order="F")]
     points[:, 1] = axis[1][y_id.reshape(-1, order="F")]
-- 
2.43.0


From 4e861300f28522491a8c6f43b535bdeb218a1755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:34 +0000
Subject: [PATCH 113/171] fix: VTK: tensors are written with all their
 components

---
 weio/vtk_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index 2586f41..ca4bcd0 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -1289,7 +1289,7 @@ def _write_field_data(f, data, binary):
             num_components = 1
         else:
             num_tuples = values.shape[0]
-            num_components = values.shape[1]
+            num_components = int(numpy.prod(values.shape[1:]))
 
         if " " in name:
             raise WriteError("VTK doesn't support spaces in field names", name)
-- 
2.43.0


From 81033545fc5dbef7bbcd8514f172de28ef7f2930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:34 +0000
Subject: [PATCH 114/171] fix: VTK: cell data of files with polygons are kept,
 and polygons of files of version 5.1 are read

---
 weio/vtk_file.py | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index ca4bcd0..855e4c4 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -1094,31 +1094,37 @@ def translate_cells(data, types, cell_data_raw):
     cells = []
     cell_data = {}
     if has_polygon:
-        numnodes = numpy.empty(len(types), dtype=int)
-        # If some polygons are in the VTK file, loop over the cells
-        numcells = len(types)
-        offsets = numpy.empty(len(types), dtype=int)
-        offsets[0] = 0
-        for idx in range(numcells - 1):
+        if isinstance(data, tuple):
+            offsets, conn = data
+            numnodes = numpy.diff(offsets)
+            idx0 = 0
+        else:
+            numnodes = numpy.empty(len(types), dtype=int)
+            # If some polygons are in the VTK file, loop over the cells
+            numcells = len(types)
+            offsets = numpy.empty(len(types), dtype=int)
+            offsets[0] = 0
+            for idx in range(numcells - 1):
+                numnodes[idx] = data[offsets[idx]]
+                offsets[idx + 1] = offsets[idx] + numnodes[idx] + 1
+
+            idx = numcells - 1
             numnodes[idx] = data[offsets[idx]]
-            offsets[idx + 1] = offsets[idx] + numnodes[idx] + 1
-
-        idx = numcells - 1
-        numnodes[idx] = data[offsets[idx]]
-        if not numpy.all(numnodes == data[offsets]):
-            raise ReadError()
+            if not numpy.all(numnodes == data[offsets]):
+                raise ReadError()
+            idx0 = 1
+            conn = data
 
-        # TODO: cell_data
         for idx, vtk_cell_type in enumerate(types):
-            start = offsets[idx] + 1
+            start = offsets[idx] + idx0
             cell_idx = start + _vtk_to_meshio_order(
                 vtk_cell_type, numnodes[idx], offsets.dtype
             )
-            cell = data[cell_idx]
+            cell = conn[cell_idx]
 
             cell_type = vtk_to_meshio_type[vtk_cell_type]
             if cell_type == "polygon":
-                cell_type += str(data[offsets[idx]])
+                cell_type += str(numnodes[idx])
 
             if len(cells) > 0 and cells[-1].type == cell_type:
                 cells[-1].data.append(cell)
@@ -1128,6 +1134,10 @@ def translate_cells(data, types, cell_data_raw):
         # convert data to numpy arrays
         for k, c in enumerate(cells):
             cells[k] = CellBlock(c.type, numpy.array(c.data))
+
+        b = numpy.cumsum([0] + [len(c.data) for c in cells])
+        for name, d in cell_data_raw.items():
+            cell_data[name] = [d[start:end] for start, end in zip(b[:-1], b[1:])]
     else:
         # Deduct offsets from the cell types. This is much faster than manually going
         # through the data array. Slight disadvantage: This doesn't work for cells with
-- 
2.43.0


From 67e1cf3884ed7e7efff9c6d7b03dbbb01fe1b85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:34 +0000
Subject: [PATCH 115/171] fix: VTK: meshes without cells are read

---
 weio/vtk_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index 855e4c4..86d8ec5 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -1093,6 +1093,8 @@ def translate_cells(data, types, cell_data_raw):
 
     cells = []
     cell_data = {}
+    if len(types) == 0:
+        return cells, cell_data
     if has_polygon:
         if isinstance(data, tuple):
             offsets, conn = data
-- 
2.43.0


From ad7708113f3bee7ddaff5e6a8c2212c76bf78358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:34 +0000
Subject: [PATCH 116/171] fix: VTK: meshes made in memory need no cell data to
 be written

---
 weio/vtk_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index 86d8ec5..8f1a430 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -74,6 +74,8 @@ class VTKFile(File):
         self.field_data = {}
         self.point_data = {} 
         self.dataset = {} 
+        self.cells = []
+        self.cell_data = {}
 
 
 
-- 
2.43.0


From 17b7006b7e2f2d43a457c7cefd72f40b56fd10fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:34 +0000
Subject: [PATCH 117/171] fix: VTK: colours and lookup tables are skipped in
 both encodings

---
 weio/vtk_file.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index 8f1a430..91d58cd 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -771,18 +771,21 @@ def _read_section(f, info):
         info.num_items = int(info.split[1])
 
     elif info.section == "LOOKUP_TABLE":
-        info.num_items = int(info.split[2])
-        numpy.fromfile(f, count=info.num_items * 4, sep=" ", dtype=float)
-        # rgba = data.reshape((info.num_items, 4))
+        num_colors = int(info.split[2])
+        if info.is_ascii:
+            numpy.fromfile(f, count=num_colors * 4, sep=" ", dtype=float)
+        else:
+            numpy.fromfile(f, count=num_colors * 4, dtype=numpy.ubyte)
+        # rgba = data.reshape((num_colors, 4))
 
     elif info.section == "COLOR_SCALARS":
         nValues = int(info.split[2])
         # re-use num_items from active POINT/CELL_DATA
         num_items = info.num_items
-        dtype = numpy.ubyte
         if info.is_ascii:
-            dtype = float
-        numpy.fromfile(f, count=num_items * nValues, dtype=dtype)
+            numpy.fromfile(f, count=num_items * nValues, sep=" ", dtype=float)
+        else:
+            numpy.fromfile(f, count=num_items * nValues, dtype=numpy.ubyte)
 
 
 def _read_subsection(f, info):
-- 
2.43.0


From e259e0a283745d6636507223819720ca100e1372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:34 +0000
Subject: [PATCH 118/171] fix: VTK: files with missing values are refused

---
 weio/vtk_file.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index 91d58cd..db99402 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -945,6 +945,8 @@ def _read_coords(f, data_type, is_ascii, num_points):
         line = f.readline().decode("utf-8")
         if line != "\n":
             raise ReadError()
+    if coords.size != num_points:
+        raise ReadError("Expected {} values, got {}".format(num_points, coords.size))
     return coords
 
 
@@ -972,6 +974,8 @@ def _read_cells(f, is_ascii, num_items, dtype=numpy.dtype("int32")):
         line = f.readline().decode("utf-8")
         if line != "\n":
             raise ReadError()
+    if c.size != num_items:
+        raise ReadError("Expected {} values, got {}".format(num_items, c.size))
     return c
 
 
@@ -985,6 +989,8 @@ def _read_cell_types(f, is_ascii, num_items):
         # Sometimes, there's no newline at the end
         if line.strip() != "":
             raise ReadError()
+    if ct.size != num_items:
+        raise ReadError("Expected {} values, got {}".format(num_items, ct.size))
     return ct
 
 
@@ -1017,7 +1023,7 @@ def _read_scalar_field(f, num_data, split, is_ascii):
         if line != "\n":
             raise ReadError()
 
-    data = data.reshape(-1, num_comp)
+    data = data.reshape(num_data, num_comp)
     return {data_name: data}
 
 
@@ -1041,7 +1047,7 @@ def _read_field(f, num_data, split, shape, is_ascii):
         if line != "\n":
             raise ReadError()
 
-    data = data.reshape(-1, *shape)
+    data = data.reshape(num_data, *shape)
     return {data_name: data}
 
 
@@ -1070,6 +1076,8 @@ def _read_fields(f, num_fields, is_ascii):
             if line != "\n":
                 raise ReadError()
 
+        if dat.size != shape0 * shape1:
+            raise ReadError("Expected {} values, got {}".format(shape0 * shape1, dat.size))
         if shape0 != 1:
             dat = dat.reshape((shape1, shape0))
 
-- 
2.43.0


From a43c59756aae6bc367f73d3e9a19e2116d420885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:34 +0000
Subject: [PATCH 119/171] fix: VTK: what cannot be written is refused before
 the target file is opened

---
 weio/vtk_file.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index db99402..1be81af 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -172,6 +172,20 @@ class VTKFile(File):
         point_data = {name:pad2(values) for name, values in self.point_data.items()}
         cell_data  = {name:[pad2(values) for values in data] for name, data in self.cell_data.items()}
 
+        # Checks before touching the file
+        for c in self.cells:
+            key_ = c.type[:7] if c.type[:7] == "polygon" else c.type
+            if key_ not in meshio_to_vtk_type:
+                raise WriteError("Cell type not supported", c.type)
+        fields = [('points', points)]
+        fields += list(point_data.items())
+        fields += [(name, v) for name, data in cell_data.items() for v in data]
+        for name, v in fields:
+            if " " in name:
+                raise WriteError("VTK doesn't support spaces in field names", name)
+            if v.dtype.name not in numpy_to_vtk_dtype:
+                raise WriteError("VTK doesn't support the data type", name, v.dtype.name)
+
         with open(self.filename, "wb") as f:
             f.write(b"# vtk DataFile Version 4.2\n")
             f.write("written \n".encode("utf-8"))
-- 
2.43.0


From 85cf928933cccb3881ca3448f9fe31ee876a06d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:59 +0000
Subject: [PATCH 120/171] fix: Tecplot: names of variables with any separation,
 and with commas, equal signs or underscores

---
 weio/tecplot_file.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index de203f9..5caf950 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -8,6 +8,7 @@ Part of weio library: https://github.com/ebranlard/weio
 import pandas as pd
 import numpy as np
 import os
+import re
 import struct
 
 try:
@@ -47,19 +48,11 @@ def _process_merged_line(line, section, dict_out):
     if section=='title':
         dict_out[section]=line.lstrip('=').strip()
     elif section=='variables':
-        line = line.replace('=','').strip()
-        line = line.replace(',',' ').strip()
-        line = line.replace('  ',' ').strip()
-        line = line.replace('[','_[').strip()
-        line = line.replace('(','_(').strip()
-        line = line.replace('__','_').strip()
-        if line.find('"')==0:
-            line = line.replace('" "',',')
-            line = line.replace('"','')
-            sp=line.split(',')
-        else:
-            sp=line.split()
-        dict_out[section]=sp
+        line = line.strip().lstrip('=').strip()
+        # Variables are quoted or not, separated by spaces or commas
+        sp = [q.strip() if len(q)>0 else w for q,w in re.findall(r'"([^"]*)"|([^\s,"]+)', line)]
+        # Units are preceded by an underscore
+        dict_out[section]=[re.sub(r'(?<!^)(?<!_)([\[(])', r'_\1', v) for v in sp]
     elif section=='datasetauxdata':
         if section not in dict_out.keys():
             dict_out[section]={} # initialixe an empty directory
-- 
2.43.0


From 84752f4598bd8a6b314b7ffac322d8a631cd725c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:59 +0000
Subject: [PATCH 121/171] fix: Tecplot: all the parameters of a zone are read,
 and auxiliary values may contain equal signs

---
 weio/tecplot_file.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index 5caf950..8f757dc 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -56,9 +56,9 @@ def _process_merged_line(line, section, dict_out):
     elif section=='datasetauxdata':
         if section not in dict_out.keys():
             dict_out[section]={} # initialixe an empty directory
-        sp    = line.split('=')
-        key   = sp[0]
-        value = sp[1].replace('"','').strip()
+        key, value = line.split('=', 1)
+        key   = key.strip()
+        value = value.replace('"','').strip()
         if is_number(value):
             value=float(value)
         dict_out[section][key]=value
@@ -66,12 +66,12 @@ def _process_merged_line(line, section, dict_out):
     elif section=='zone':
         if section not in dict_out.keys():
             dict_out[section]={} # initialixe an empty directory
-        sp    = line.split('=')
-        key   = sp[0]
-        value = sp[1].replace('"','').strip()
-        if is_number(value):
-            value=float(value)
-        dict_out[section][key]=value
+        # List of key=value, where value may be "a text" or (a list)
+        for key, value in re.findall(r'([^\s=,]+)\s*=\s*("[^"]*"|\([^)]*\)|[^\s,]+)', line):
+            value = value.replace('"','').strip()
+            if is_number(value):
+                value=float(value)
+            dict_out[section][key]=value
         
     else:
         print('!!! Reading of section not implemented:')
@@ -195,6 +195,13 @@ class TecplotFile(File):
             for k in Keywords[2:]:
                 if k in self.keys():
                     if isinstance(self[k], dict):
+                        if k=='zone':
+                            def fmt(v):
+                                if isinstance(v, float):
+                                    return str(int(v)) if v.is_integer() else repr(v)
+                                return v if str(v).startswith('(') else '"{}"'.format(v)
+                            f.write('ZONE '+', '.join(['{}={}'.format(kk,fmt(v)) for kk,v in self[k].items()]) + '\n')
+                            continue
                         for kk,v in self[k].items():
                             f.write('{} {}="{}"\n'.format(k,kk.strip(),v))
                     else:
-- 
2.43.0


From 37b407afbffb472958a23210547225a7a27a9dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:59 +0000
Subject: [PATCH 122/171] fix: Tecplot: data given variable by variable are
 refused instead of being read as rows

---
 weio/tecplot_file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index 8f757dc..aa89383 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -130,6 +130,9 @@ def read_tecplot(filename, dict_out=None):
                 if is_number(sp[0]):
                     if len(merged_line)>0: 
                         _process_merged_line(merged_line, current_section, dict_out)
+                    zone = {str(k).upper():str(v).upper() for k,v in dict_out.get('zone',{}).items()}
+                    if 'BLOCK' in zone.get('DATAPACKING','') or 'BLOCK' in zone.get('F',''):
+                        raise BrokenFormatError('Only zones with point data packing are supported')
                     # --- Special case of numerical values outside of zone
                     f.close()
                     M = np.loadtxt(filename, skiprows = iline-1, ndmin=2)
-- 
2.43.0


From 775d316d65ce3dd360733e8f35a35cea0ff3806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:59 +0000
Subject: [PATCH 123/171] fix: Tecplot: files without data keep their header,
 files without variables are not Tecplot files

---
 weio/tecplot_file.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index aa89383..a8e0554 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -92,6 +92,7 @@ def read_tecplot(filename, dict_out=None):
     merged_line=''
     current_section=''
     variables=[]
+    hasData=False
     with open(filename, "r") as f:
         dfs = []  # list of dataframes
         iline=0
@@ -139,10 +140,18 @@ def read_tecplot(filename, dict_out=None):
                     if M.shape[1]!=len(dict_out['variables']):
                         raise BrokenFormatError('Number of columns of data does not match number of variables')
                     dict_out['data']=M
+                    hasData=True
                     break
                 else:
                     # --- Continuation of previous section
                     merged_line +=' '+line
+    if not hasData:
+        # Last section of the file
+        if len(merged_line)>0: 
+            _process_merged_line(merged_line, current_section, dict_out)
+        if 'variables' not in dict_out.keys():
+            raise WrongFormatError('The `variables` section should be present')
+        dict_out['data']=np.zeros((0,len(dict_out['variables'])))
     return dict_out
 
 
-- 
2.43.0


From fc794c06acebe655c8c8b9afbad17d59d511ac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:25 +0000
Subject: [PATCH 124/171] fix: Tecplot: the target is not emptied when the
 table cannot be written

---
 weio/tecplot_file.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index a8e0554..2ae6c60 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -10,6 +10,7 @@ import numpy as np
 import os
 import re
 import struct
+from io import StringIO
 
 try:
     from .file import File, EmptyFileError, WrongFormatError, BrokenFormatError
@@ -200,7 +201,7 @@ class TecplotFile(File):
         if not self.filename:
             raise Exception('No filename provided')
 
-        with open(self.filename, mode='w') as f:            
+        with StringIO() as f:
             if 'title' in self.keys():
                 f.write('TITLE = {}\n'.format(self['title']))
             f.write('VARIABLES = ' + ','.join(['"{}"'.format(col) for col in self['variables'] ]) + '\n')
@@ -224,6 +225,10 @@ class TecplotFile(File):
                     srow = np.array2string(row, edgeitems=0, separator=' ', precision=precision, floatmode='unique' if precision is None else 'maxprec',
                                            max_line_width=np.inf, threshold=len(row)+1)
                     f.write(srow[1:-1]+'\n')
+            content = f.getvalue()
+
+        with open(self.filename, mode='w') as f:            
+            f.write(content)
 
 
     def __repr__(self):
-- 
2.43.0


From e42b17531a76678659256da67f59ef4ca1f10dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:27 +0000
Subject: [PATCH 125/171] fix: graph: connectivity queries follow the nodes and
 elements added

---
 weio/tools/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weio/tools/graph.py b/weio/tools/graph.py
index e924ef1..775d5ad 100644
--- a/weio/tools/graph.py
+++ b/weio/tools/graph.py
@@ -168,13 +168,14 @@ class GraphModel(object):
         self.Modes   = []
         self.Motions = []
         # Optimization variables
-        self._nodeIDs2Elements   = {} # dictionary with key NodeID and value list of ElementID
+        self._nodeIDs2ElementIDs = {} # dictionary with key NodeID and value list of ElementID
         self._nodeIDs2Elements   = {} # dictionary with key NodeID and value list of elements
         self._elementIDs2NodeIDs = {} # dictionary with key ElemID and value list of nodes IDs
         self._connectivity =[]# 
 
     def addNode(self,node):
         self.Nodes.append(node)
+        self.connecticityHasChanged()
 
     def addElement(self,elem):
         # Giving nodes to element if these were not provided
@@ -183,6 +184,7 @@ class GraphModel(object):
         if elem.propIDs is not None:
             elem.nodeProps=[self.getNodeProperty(elem.propset, i) for i in elem.propIDs]
         self.Elements.append(elem)
+        self.connecticityHasChanged()
 
     # --- Getters
     def getNode(self, nodeID):
-- 
2.43.0


From 27ac94784d9b8c465c40d65d8be371ce6b52a1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:27 +0000
Subject: [PATCH 126/171] fix: graph: update of the connectivity of elements
 without properties

---
 weio/tools/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weio/tools/graph.py b/weio/tools/graph.py
index 775d5ad..c3636d4 100644
--- a/weio/tools/graph.py
+++ b/weio/tools/graph.py
@@ -396,7 +396,9 @@ class GraphModel(object):
             e.nodes=[self.getNode(i) for i in e.nodeIDs]
 
         for e in self.Elements:
-            e.nodeProps = [self.getNodeProperty(e.propset, ID) for ID in e.propIDs]
+            if e.propIDs is not None:
+                e.nodeProps = [self.getNodeProperty(e.propset, ID) for ID in e.propIDs]
+        self.connecticityHasChanged()
 
         # Potentially call nodeIDs2ElementIDs etc
 
-- 
2.43.0


From d016aabafb93d08e4a0d9e41fb722dba4eea2d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:27 +0000
Subject: [PATCH 127/171] fix: graph: representation of motions and conversion
 to json of arrays and None

---
 weio/tools/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weio/tools/graph.py b/weio/tools/graph.py
index c3636d4..dc7836d 100644
--- a/weio/tools/graph.py
+++ b/weio/tools/graph.py
@@ -332,7 +332,7 @@ class GraphModel(object):
         s+='\n'.join(str(m) for m in self.Modes)
         s+='\n- Motions ({}):'.format(len(self.Motions))
         for m in self.Motions:
-            s+='\n> {}\n'.format({k:v for k,v in m.items() if not isintance(v,np.ndarray)})
+            s+='\n> {}\n'.format({k:v for k,v in m.items() if not isinstance(v,np.ndarray)})
         return s
 
     # --------------------------------------------------------------------------------}
@@ -665,9 +665,9 @@ def to_json(o, level=0):
     ret += str(o)
   elif isinstance(o, float):
     ret += '%.7g' % o
-  elif isinstance(o, numpy.ndarray) and numpy.issubdtype(o.dtype, numpy.integer):
+  elif isinstance(o, np.ndarray) and np.issubdtype(o.dtype, np.integer):
     ret += "[" + ','.join(map(str, o.flatten().tolist())) + "]"
-  elif isinstance(o, numpy.ndarray) and numpy.issubdtype(o.dtype, numpy.inexact):
+  elif isinstance(o, np.ndarray) and np.issubdtype(o.dtype, np.inexact):
     ret += "[" + ','.join(map(lambda x: '%.7g' % x, o.flatten().tolist())) + "]"
   elif o is None:
     ret += 'null'
-- 
2.43.0


From 8a14fa17fe10c23258831ae72f003cd97728d184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:27 +0000
Subject: [PATCH 128/171] fix: graph: nodes can be sorted by their data

---
 weio/tools/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/tools/graph.py b/weio/tools/graph.py
index dc7836d..c67b254 100644
--- a/weio/tools/graph.py
+++ b/weio/tools/graph.py
@@ -475,7 +475,7 @@ class GraphModel(object):
         elif key=='ID':
             values=[n.ID for n in self.Nodes]
         else:
-            values=[n[key] for n in self.Nodes]
+            values=[n.data[key] for n in self.Nodes]
         I= np.argsort(values)
         self.Nodes=[self.Nodes[i] for i in I]
 
-- 
2.43.0


From a43f8e90d6b1ee3517ddf98ea197ed6ac8416513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:27 +0000
Subject: [PATCH 129/171] fix: graph: any property can be added to the
 miscellaneous properties

---
 weio/tools/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/tools/graph.py b/weio/tools/graph.py
index c67b254..4ce9a18 100644
--- a/weio/tools/graph.py
+++ b/weio/tools/graph.py
@@ -288,7 +288,7 @@ class GraphModel(object):
         self.ElemPropertySets[setname].append(prop)
 
     def addMiscProperty(self, setname, prop):
-        if not isinstance(prop, ElemProperty):
+        if not isinstance(prop, Property):
             print(type(prop))
             raise Exception('Property needs to inherit from Property')
         self.MiscPropertySets[setname].append(prop)
-- 
2.43.0


From e2cb8250eb57b042ae21605fa05d4874053fa50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:27 +0000
Subject: [PATCH 130/171] fix: graph: division of elements without properties
 or with lists of properties, nothing changed when it is refused

---
 weio/tools/graph.py | 44 +++++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/weio/tools/graph.py b/weio/tools/graph.py
index 4ce9a18..7b6055b 100644
--- a/weio/tools/graph.py
+++ b/weio/tools/graph.py
@@ -405,12 +405,6 @@ class GraphModel(object):
 
     def _divideElement(self, elemID, nPerElement, maxElemId, keysNotToCopy=[]):
         """ divide a given element by nPerElement (add nodes and elements to graph) """ 
-        if len(self.Modes)>0:
-            raise Exception('Cannot divide graph when mode data is present')
-        if len(self.Motions)>0:
-            raise Exception('Cannot divide graph when motion data is present')
-
-
         maxNodeId=np.max([n.ID for n in self.Nodes])
         e = self.getElement(elemID)
         newElems = []
@@ -442,16 +436,8 @@ class GraphModel(object):
             e.nodeIDs=[e.ID for e in e.nodes]
             for i in range(1,nPerElement):
                 maxElemId+=1
-                elem_dict = e.data.copy()
-                # Creating extra properties if necessary
-                if e.propIDs is not None:
-                    if all(e.propIDs==e.propIDs[0]):
-                        # No need to create a new property
-                        propIDs=e.propIDs
-                        propset=e.propset
-                    else:
-                        raise NotImplementedError('Division of element with different properties on both ends. TODO add new property.')
-                elem= Element(maxElemId, [subNodes[i].ID, subNodes[i+1].ID], propset=propset, propIDs=propIDs, **elem_dict )
+                elem_dict = {k:v for k,v in e.data.items() if k not in keysNotToCopy}
+                elem= Element(maxElemId, [subNodes[i].ID, subNodes[i+1].ID], propset=e.propset, propIDs=e.propIDs, **elem_dict )
                 newElems.append(elem)
         return newElems
 
@@ -500,30 +486,38 @@ class GraphModel(object):
              self.divideElements(3, excludeDataKey='Type', excludeDataList=['Cable','Rigid'] )
 
         """ 
-        maxNodeId=np.max([n.ID for n in self.Nodes])
-        maxElemId=np.max([e.ID for e in self.Elements])
-
         if nPerElement<=0:
             raise Exception('nPerElement should be more than 0')
+        if method not in ['append','insert']:
+            raise NotImplementedError('Element Insertions')
+
+        # Elements to be divided, nothing is changed if one of them cannot be divided
+        toDivide = [len(excludeDataKey)==0 or e.data.get(excludeDataKey) not in excludeDataList for e in self.Elements]
+        if any(toDivide):
+            if len(self.Modes)>0:
+                raise Exception('Cannot divide graph when mode data is present')
+            if len(self.Motions)>0:
+                raise Exception('Cannot divide graph when motion data is present')
+        for e, divide in zip(self.Elements, toDivide):
+            if divide and nPerElement>1 and e.propIDs is not None and any(ID!=e.propIDs[0] for ID in e.propIDs):
+                raise NotImplementedError('Division of element with different properties on both ends. TODO add new property.')
+
+        maxElemId=max([e.ID for e in self.Elements], default=0)
 
         newElements=[]
         for ie in np.arange(len(self.Elements)): # cannot enumerate since length increases
             elemID = self.Elements[ie].ID
             if method=='insert':
                 newElements+=[self.getElement(elemID)] # newElements contains
-            if (len(excludeDataKey)>0 and self.Elements[ie].data[excludeDataKey] not in excludeDataList) or len(excludeDataKey)==0:
+            if toDivide[ie]:
                 elems = self._divideElement(elemID, nPerElement, maxElemId, keysNotToCopy)
                 maxElemId+=len(elems)
                 newElements+=elems
             else:
                 print('Not dividing element with ID {}, based on key `{}` with value `{}`'.format(elemID, excludeDataKey,self.Elements[ie].data[excludeDataKey]))
         # Adding elements at the end
-        if method=='append':
-            pass
-        elif method=='insert':
+        if method=='insert':
             self.Elements=[] # We clear all elements
-        else:
-            raise NotImplementedError('Element Insertions')
 
         for e in newElements:
             self.addElement(e)
-- 
2.43.0


From e9f38b9f7c6cf0361e731132309c518ee851bc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:27 +0000
Subject: [PATCH 131/171] fix: graph: the target is not emptied when the graph
 cannot be exported

---
 weio/tools/graph.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/weio/tools/graph.py b/weio/tools/graph.py
index 7b6055b..4e93dfd 100644
--- a/weio/tools/graph.py
+++ b/weio/tools/graph.py
@@ -602,15 +602,9 @@ class GraphModel(object):
             import json
             from io import open
             jsonFile=outfile
+            content = json.dumps(d, ensure_ascii=False)
             with open(jsonFile, 'w', encoding='utf-8') as f:
-                #f.write(to_json(d))
-                try:
-                    #f.write(unicode(json.dumps(d, ensure_ascii=False))) #, indent=2)
-                    #f.write(json.dumps(d, ensure_ascii=False)) #, indent=2)
-                    f.write(json.dumps(d, ensure_ascii=False))
-                except:
-                    print('>>> FAILED')
-                    json.dump(d, f, indent=0) 
+                f.write(content)
         return d
 
 # 
-- 
2.43.0


From 3ea6c523c9b8ebc2ca6d2b3849483151a8fb8566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:27 +0000
Subject: [PATCH 132/171] fix: graph of HydroDyn files: depth and member
 coefficients, marine growth and colours

---
 weio/fast_input_file_graph.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/weio/fast_input_file_graph.py b/weio/fast_input_file_graph.py
index eccc069..8c70a06 100644
--- a/weio/fast_input_file_graph.py
+++ b/weio/fast_input_file_graph.py
@@ -133,9 +133,9 @@ def hydrodynToGraph(hd):
     """
     def type2Color(Pot):
         if Pot:
-            return (0.753,0.05,0.204),  # Pot flow
+            return (0.753,0.05,0.204)  # Pot flow
         else:
-            return (0.753,0.561,0.05),  # Morison
+            return (0.753,0.561,0.05)  # Morison
 
 
     Graph = GraphModel()
@@ -170,14 +170,24 @@ def hydrodynToGraph(hd):
         Graph.addMiscPropertySet('DepthCoefs')
         for ip,P in enumerate(hd['DpthProp']):
             # Dpth      DpthCd   DpthCdMG   DpthCa   DpthCaMG       DpthCp   DpthCpMG   DpthAxCd   DpthAxCdMG   DpthAxCa   DpthAxCaMG   DpthAxCp   DpthAxCpMG
-            prop= Property(ID=ip+1, Dpth=P[0], Cd=P[1], CdMG=P[2], Ca=P[3], CaMG=P[4], Cp=P[5], CpMG=P[6], AxCd=P[7], AxCdMG=P[8], AxCa=P[9], AxCaMG=P[10], AxCp=P[11], AxCpMG=P[12])
+            if len(P)==13:
+                prop= Property(ID=ip+1, Dpth=P[0], Cd=P[1], CdMG=P[2], Ca=P[3], CaMG=P[4], Cp=P[5], CpMG=P[6], AxCd=P[7], AxCdMG=P[8], AxCa=P[9], AxCaMG=P[10], AxCp=P[11], AxCpMG=P[12])
+            elif len(P)==11:
+                prop= Property(ID=ip+1, Dpth=P[0], Cd=P[1], CdMG=P[2], Ca=P[3], CaMG=P[4], Cp=P[5], CpMG=P[6], AxCa=P[7], AxCaMG=P[8], AxCp=P[9], AxCpMG=P[10])
+            else:
+                raise NotImplementedError()
             Graph.addMiscProperty('DepthCoefs',prop)
     if 'MemberProp' in hd.keys():
         # Member-based hydro coefficinet
         Graph.addMiscPropertySet('MemberCoefs')
         for ip,P in enumerate(hd['MemberProp']):
             # MemberID    MemberCd1     MemberCd2    MemberCdMG1   MemberCdMG2    MemberCa1     MemberCa2    MemberCaMG1   MemberCaMG2    MemberCp1     MemberCp2    MemberCpMG1   MemberCpMG2   MemberAxCd1   MemberAxCd2  MemberAxCdMG1 MemberAxCdMG2  MemberAxCa1   MemberAxCa2  MemberAxCaMG1 MemberAxCaMG2  MemberAxCp1  MemberAxCp2   MemberAxCpMG1   MemberAxCpMG2
-            prop = Property(ID=ip+1, MemberID=P[0], Cd1=P[1], Cd2=P[2], CdMG1=P[3], CdMG2=P[4], Ca1=P[5], Ca2=P[6], CaMG1=P[7], CaMG2=P[8], Cp1=P[9], Cp2=P[10], CpMG1=P[11], CpMG2=P[12], AxCd1=P[14], AxCd2=P[15], axCdMG1=P[16], axCdMG2=P[17], AxCa1=P[18], AxCa2=P[19], AxCaMG1=P[20], AxCaMG2=P[21], AxCp1=P[22], AxCp2=P[23])
+            if len(P)==25:
+                prop = Property(ID=ip+1, MemberID=P[0], Cd1=P[1], Cd2=P[2], CdMG1=P[3], CdMG2=P[4], Ca1=P[5], Ca2=P[6], CaMG1=P[7], CaMG2=P[8], Cp1=P[9], Cp2=P[10], CpMG1=P[11], CpMG2=P[12], AxCd1=P[13], AxCd2=P[14], axCdMG1=P[15], axCdMG2=P[16], AxCa1=P[17], AxCa2=P[18], AxCaMG1=P[19], AxCaMG2=P[20], AxCp1=P[21], AxCp2=P[22], AxCpMG1=P[23], AxCpMG2=P[24])
+            elif len(P)==21:
+                prop = Property(ID=ip+1, MemberID=P[0], Cd1=P[1], Cd2=P[2], CdMG1=P[3], CdMG2=P[4], Ca1=P[5], Ca2=P[6], CaMG1=P[7], CaMG2=P[8], Cp1=P[9], Cp2=P[10], CpMG1=P[11], CpMG2=P[12], AxCa1=P[13], AxCa2=P[14], AxCaMG1=P[15], AxCaMG2=P[16], AxCp1=P[17], AxCp2=P[18], AxCpMG1=P[19], AxCpMG2=P[20])
+            else:
+                raise NotImplementedError()
             Graph.addMiscProperty('MemberCoefs',prop)
     # ---
     if 'FillGroups' in hd.keys():
@@ -196,7 +206,7 @@ def hydrodynToGraph(hd):
             # MGDpth     MGThck       MGDens
             # (m)        (m)         (kg/m^3)
             prop = Property(ID=ip+1, MGDpth=P[0], MGThck=P[1],  MGDens=P[2])
-            Graph.addMiscProperty('FillGroups',prop)
+            Graph.addMiscProperty('MG',prop)
 
     # --- Nodes
     Nodes     = hd['Joints']
-- 
2.43.0


From ab1b0817b1dfbb5ad02bd5b46468b4ca7358cad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:27 +0000
Subject: [PATCH 133/171] fix: graph of SubDyn summary files: stiffness of the
 elements, full precision of the positions

---
 weio/fast_input_file_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file_graph.py b/weio/fast_input_file_graph.py
index 8c70a06..bbd2d92 100644
--- a/weio/fast_input_file_graph.py
+++ b/weio/fast_input_file_graph.py
@@ -264,7 +264,7 @@ def subdynSumToGraph(data):
     for iNode,N in enumerate(Nodes):
         if len(N)==9: # Temporary fix
             #N[4]=np.float(N[4].split()[0])
-            N=N.astype(np.float32)
+            N=N.astype(float)
         ID = int(N[0])
         nodeDOFs=DOF2Nodes[(DOF2Nodes[:,1]==ID),0] # NOTE: these were reindex to start at 0
         node = Node(ID=ID, x=N[1], y=N[2], z=N[3], Type=int(N[4]), DOFs=nodeDOFs)
@@ -276,7 +276,7 @@ def subdynSumToGraph(data):
         nodeIDs=[int(E[1]),int(E[2])]
         #  shear_[-]       Ixx_[m^4]       Iyy_[m^4]       Jzz_[m^4]          T0_[N]
         D = np.sqrt(E[7]/np.pi)*4 # <<< Approximation basedon area TODO use I as well
-        elem= Element(int(E[0]), nodeIDs, Type=int(E[5]), Area=E[7], rho=E[8], E=E[7], G=E[8], D=D)
+        elem= Element(int(E[0]), nodeIDs, Type=int(E[5]), Area=E[7], rho=E[8], E=E[9], G=E[10], D=D)
         elem.data['object']='cylinder'
         elem.data['color'] = type2Color[int(E[5])]
         Graph.addElement(elem)
-- 
2.43.0


From d5bb74a78a4bf6e2464057b5a64082ffa4426f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:27 +0000
Subject: [PATCH 134/171] fix: TurbSim: a file that ends within its description
 is refused

---
 weio/turbsim_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 013ffee..f063c00 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -79,7 +79,10 @@ class TurbSimFile(File):
             dz, dy, dt, uHub, zHub, zBottom           = struct.unpack('<6f' , f.read(6*4)  )
             scl[0],off[0],scl[1],off[1],scl[2],off[2] = struct.unpack('<6f' , f.read(6*4))
             nChar, = struct.unpack('<l',  f.read(4))
-            info = (f.read(nChar)).decode()
+            info = f.read(nChar)
+            if len(info)!=nChar:
+                raise Exception('File {} ends within its header'.format(self.filename))
+            info = info.decode()
             # Reading turbulence field
             if not header_only: 
                 u    = np.zeros((3,nt,ny,nz))
-- 
2.43.0


From d74df74925f485c314d0f435e59beb0acd767a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:27 +0000
Subject: [PATCH 135/171] fix: HAWC2: a result file with missing scans is
 refused instead of repeating a value

---
 weio/wetb/hawc2/Hawc2io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/Hawc2io.py b/weio/wetb/hawc2/Hawc2io.py
index 8b264be..429a47f 100644
--- a/weio/wetb/hawc2/Hawc2io.py
+++ b/weio/wetb/hawc2/Hawc2io.py
@@ -246,7 +246,10 @@ class ReadHawc2(object):
             j = 0
             for i in ChVec:
                 fid.seek(i * self.NrSc * 2, 0)
-                data[:, j] = np.fromfile(fid, 'int16', self.NrSc) * self.ScaleFactor[i]
+                values = np.fromfile(fid, 'int16', self.NrSc)
+                if len(values) != self.NrSc:
+                    raise Exception('Only {} of {} scans found for channel {} in file {}'.format(len(values), self.NrSc, i + 1, self.FileName + '.dat'))
+                data[:, j] = values * self.ScaleFactor[i]
                 j += 1
         return data
 ################################################################################
-- 
2.43.0


From fab45af383dc55025439f5cd4fdc9495c72318ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:27 +0000
Subject: [PATCH 136/171] fix: FLEX output: a file that ends within a value is
 refused

---
 weio/flex_out_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weio/flex_out_file.py b/weio/flex_out_file.py
index cdb9980..83a0027 100644
--- a/weio/flex_out_file.py
+++ b/weio/flex_out_file.py
@@ -115,7 +115,10 @@ def read_flex_res(filename, dtype=np.float32):
             raise WrongFormatError('Unknown version of FLEX out file: {}'.format(Version))
         # --- Reading Time series
         # FILE POSITION <<< fid.seek(8*nSensors + 48*2)
-        data = np.fromfile(fid, 'int16').astype(dtype) #data = np.fromstring(fid.read(), 'int16').astype(dtype)
+        data = fid.read()
+        if len(data) % 2 != 0:
+            raise WrongFormatError('FLEX out file ends within a value')
+        data = np.frombuffer(data, 'int16').astype(dtype)
         nt   = int(len(data) / nSensors)
         try:
             if Version ==3:
-- 
2.43.0


From ba45349dcd79e6846c7f7d2a237fb8e1558d5c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:27 +0000
Subject: [PATCH 137/171] fix: VTK: a structured grid without its points is
 refused

---
 weio/vtk_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index 1be81af..385078b 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -880,6 +880,8 @@ def _check_mesh(info):
         info.c, info.ct = _generate_cells(dim=info.dataset["DIMENSIONS"])
 
     elif info.dataset["type"] == "STRUCTURED_GRID":
+        if info.points is None or len(info.points) != numpy.prod(info.dataset["DIMENSIONS"]):
+            raise ReadError("Required section POINTS not found, or of another size than the grid.")
         info.c, info.ct = _generate_cells(dim=info.dataset["DIMENSIONS"])
         # TODO x_grid, y_grid, z_grid points
 
-- 
2.43.0


From ee197b358973efa128c8ec5900ef6ba0a826e404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:18 +0000
Subject: [PATCH 138/171] fix: NetCDF: data are read when the file is read

---
 weio/netcdf_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/netcdf_file.py b/weio/netcdf_file.py
index e54e412..1592d16 100644
--- a/weio/netcdf_file.py
+++ b/weio/netcdf_file.py
@@ -31,7 +31,7 @@ class NetCDFFile(File):
         except:
             raise Exception('Python module `xarray` not installed')
 
-        self.data=xr.open_dataset(self.filename)
+        self.data=xr.load_dataset(self.filename)
 
     def _write(self):
         self.data.to_netcdf(self.filename)
-- 
2.43.0


From 9a5f3d02d3bd3281c71e215c47aedde1fa2bfa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:18 +0000
Subject: [PATCH 139/171] fix: TDMS: channels keep their types

---
 weio/tdms_file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weio/tdms_file.py b/weio/tdms_file.py
index 4b7f7d5..f5bfc0b 100644
--- a/weio/tdms_file.py
+++ b/weio/tdms_file.py
@@ -50,9 +50,10 @@ class TDMSFile(File):
         # --- Gathering into a data frame with time
         time =times[0]
         signals = [time]+signals
-        M = np.column_stack(signals)
         colnames = ['Time_[s]'] + [ck[1] for ck in channel_keys]
-        self['data'] =  pd.DataFrame(data = M, columns=colnames)
+        df = pd.DataFrame(dict(enumerate(signals)))
+        df.columns = colnames
+        self['data'] = df
 
 #     def toString(self):
 #         s=''
-- 
2.43.0


From 695cdadbcd230e14f2af139abce58794d0068149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:14 +0000
Subject: [PATCH 140/171] fix: HAWCStab2 power file: files with a single row,
 errors of other and incomplete files

---
 weio/hawcstab2_pwr_file.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/weio/hawcstab2_pwr_file.py b/weio/hawcstab2_pwr_file.py
index add7a22..353566c 100644
--- a/weio/hawcstab2_pwr_file.py
+++ b/weio/hawcstab2_pwr_file.py
@@ -10,7 +10,7 @@ from builtins import str
 from future import standard_library
 standard_library.install_aliases()
 
-from .file import File, WrongFormatError
+from .file import File, WrongFormatError, BrokenFormatError
 import numpy as np
 import pandas as pd
 
@@ -30,7 +30,7 @@ class HAWCStab2PwrFile(File):
         with open(self.filename,'r',encoding=self.encoding) as f:
             header = f.readline().strip()
         if len(header)<=0 or header[0]!='#':
-            raise WrongFormatError('Pwr File {}: header line does not start with `#`'.format(self.filename)+e.args[0])
+            raise WrongFormatError('Pwr File {}: header line does not start with `#`'.format(self.filename))
         # Extracting column names
         header       = '0 '+header[1:].strip()
         num_and_cols = [s.strip()+']' for s in header.split(']')[:-1]]
@@ -41,12 +41,12 @@ class HAWCStab2PwrFile(File):
         self.colNames=cols
         # Reading numerical data
         try:
-            self.data = np.loadtxt(self.filename, skiprows=1)
+            self.data = np.loadtxt(self.filename, skiprows=1, ndmin=2)
         except Exception as e:    
             raise BrokenFormatError('Pwr File {}: '.format(self.filename)+e.args[0])
 
         if self.data.shape[1]!=len(cols):
-            raise BrokenFormatError('Pwr File {}: inconsistent number of header columns and data columns.'.format(self.filename)+e.args[0])
+            raise BrokenFormatError('Pwr File {}: inconsistent number of header columns and data columns.'.format(self.filename))
 
     #def _write(self):
         #self.data.to_csv(self.filename,sep=self.false,index=False)
-- 
2.43.0


From 97174d9ee3b663ce8bfef698137a4d700ca74f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:14 +0000
Subject: [PATCH 141/171] fix: HAWCStab2 induction file: files with a single
 row, errors of other and incomplete files

---
 weio/hawcstab2_ind_file.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/weio/hawcstab2_ind_file.py b/weio/hawcstab2_ind_file.py
index 3d41940..368eb57 100644
--- a/weio/hawcstab2_ind_file.py
+++ b/weio/hawcstab2_ind_file.py
@@ -12,7 +12,7 @@ standard_library.install_aliases()
 import os
 import re
 
-from .file import File, WrongFormatError
+from .file import File, WrongFormatError, BrokenFormatError
 import numpy as np
 import pandas as pd
 
@@ -32,7 +32,7 @@ class HAWCStab2IndFile(File):
         with open(self.filename,'r',encoding=self.encoding) as f:
             header = f.readline().strip()
         if len(header)<=0 or header[0]!='#':
-            raise WrongFormatError('Ind File {}: header line does not start with `#`.'.format(self.filename)+e.args[0])
+            raise WrongFormatError('Ind File {}: header line does not start with `#`.'.format(self.filename))
         # Extracting column names
         header       = '00'+header[1:].strip()
         num_and_cols = [s.strip()+']' for s in header.split(']')[:-1]]
@@ -48,12 +48,12 @@ class HAWCStab2IndFile(File):
 
         # Reading numerical data
         try:
-            self.data = np.loadtxt(self.filename, skiprows=1)
+            self.data = np.loadtxt(self.filename, skiprows=1, ndmin=2)
         except Exception as e:    
             raise BrokenFormatError('Ind File {}: '.format(self.filename)+e.args[0])
 
         if self.data.shape[1]!=len(cols):
-            raise BrokenFormatError('Ind File {}: inconsistent number of header columns and data columns.'.format(self.filename)+e.args[0])
+            raise BrokenFormatError('Ind File {}: inconsistent number of header columns and data columns.'.format(self.filename))
 
         # Extracting wind speed from filename 
         self.wsp = float(self.filename.lower().split('_')[-1].rstrip('.ind').lstrip('u'))/1000
-- 
2.43.0


From d497f657239c54c5ebcb10dc5fa067e9beaef382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:14 +0000
Subject: [PATCH 142/171] fix: HAWCStab2 induction file: first letter of names
 that touch the column number

---
 weio/hawcstab2_ind_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawcstab2_ind_file.py b/weio/hawcstab2_ind_file.py
index 368eb57..985ba25 100644
--- a/weio/hawcstab2_ind_file.py
+++ b/weio/hawcstab2_ind_file.py
@@ -36,7 +36,7 @@ class HAWCStab2IndFile(File):
         # Extracting column names
         header       = '00'+header[1:].strip()
         num_and_cols = [s.strip()+']' for s in header.split(']')[:-1]]
-        cols         = [col[2:].strip().replace(' ','_')  for col in num_and_cols]
+        cols         = [re.sub(r'^\d{1,2}','',col).strip().replace(' ','_')  for col in num_and_cols]
         cols         = [col.replace('[','_[').replace('__','_')  for col in cols]
         # Determining type based on number of columns (NOTE: could use col names as well maybe)
         NumCol2Type = {38: 'ind', 14: 'fext', 18: 'defl'}
-- 
2.43.0


From 047d653ba2589cca555785494eb3bc4a50340d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:15 +0000
Subject: [PATCH 143/171] fix: HAWCStab2 induction file: wind speed of files
 with other extensions

---
 weio/hawcstab2_ind_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawcstab2_ind_file.py b/weio/hawcstab2_ind_file.py
index 985ba25..fca3668 100644
--- a/weio/hawcstab2_ind_file.py
+++ b/weio/hawcstab2_ind_file.py
@@ -56,7 +56,7 @@ class HAWCStab2IndFile(File):
             raise BrokenFormatError('Ind File {}: inconsistent number of header columns and data columns.'.format(self.filename))
 
         # Extracting wind speed from filename 
-        self.wsp = float(self.filename.lower().split('_')[-1].rstrip('.ind').lstrip('u'))/1000
+        self.wsp = float(os.path.splitext(self.filename.lower().split('_')[-1])[0].lstrip('u'))/1000
 
     def _toDataFrame(self):
         key = '{:s} - ws={:06.3f}'.format(self.type,self.wsp)
-- 
2.43.0


From 1017d30a13d39f28ade20973b98f88625df82146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:34 +0000
Subject: [PATCH 144/171] fix: BModes: names of the columns of blade modes

---
 weio/bmodes_out_file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/weio/bmodes_out_file.py b/weio/bmodes_out_file.py
index ca6f705..cb9420e 100644
--- a/weio/bmodes_out_file.py
+++ b/weio/bmodes_out_file.py
@@ -80,6 +80,7 @@ class BModesOutFile(File):
         with open(self.filename) as f:
             self['frequencies'] = []
             self['mode_shapes'] = []
+            self.colNames = ['span_loc','s-s disp','s-s slope','f-a disp','f-a slope','twist']
             row_string = f.readline()
             if row_string.find('BModes')<0:
                 raise WrongFormatError('This file was not generated by BModes, "BModes" is not found on first line')
@@ -89,7 +90,8 @@ class BModesOutFile(File):
                 if freq_id > 0:
                     self['frequencies'].append(float(row_string[freq_id+7:freq_id+19]))
                     f.readline()
-                    f.readline()
+                    if f.readline().find('flap')>=0:
+                        self.colNames = ['span_loc','flap disp','flap slope','lag disp','lag slope','twist']
                     f.readline()
                     data=[]
                     while True:
@@ -110,9 +112,8 @@ class BModesOutFile(File):
     def toDataFrame(self):
         """ Returns object into one DataFrame, or a dictionary of DataFrames"""
         dfs={}
-        cols =['span_loc','s-s disp','s-s slope','f-a disp','f-a slope','twist']
         for iMode,mode in enumerate(self['mode_shapes']):
-            dfs['Mode_{}'.format(iMode+1)]= pd.DataFrame(data=mode,columns=cols)
+            dfs['Mode_{}'.format(iMode+1)]= pd.DataFrame(data=mode,columns=self.colNames)
         return dfs
 
     # --- Optional functions
-- 
2.43.0


From e29f958ae6830e3289c283741fd7773143ea16bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:34 +0000
Subject: [PATCH 145/171] fix: ROSCO performance: pitch angles, tip speed
 ratios and wind speeds are written with their digits

---
 weio/rosco_performance_file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index 3440d33..db8e347 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -194,14 +194,14 @@ def write_rotor_performance(txt_filename, pitch, TSR, CP, CT, CQ, WS=None, Turbi
     # Pitch angles, TSR, and wind speed
     file.write('# Pitch angle vector, {} entries - x axis (matrix columns) (deg)\n'.format(len(pitch)))
     for i in range(len(pitch)):
-        file.write('{:0.4}   '.format(pitch[i]))
+        file.write('{!r}   '.format(float(pitch[i])))
     file.write('\n# TSR vector, {} entries - y axis (matrix rows) (-)\n'.format(len(TSR)))
     for i in range(len(TSR)):
-        file.write('{:0.4}    '.format(TSR[i]))
+        file.write('{!r}    '.format(float(TSR[i])))
     if WS is not None:
         file.write('\n# Wind speed vector - z axis (m/s)\n')
         for i in range(len(WS)):
-            file.write('{:0.4}    '.format(WS[i]))
+            file.write('{!r}    '.format(float(WS[i])))
         file.write('\n')
     
     # Cp
-- 
2.43.0


From 6e284fb6c47fe8d2d48ed37243d23f5d2d7fb674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:21 +0000
Subject: [PATCH 146/171] fix: tabs do not make a text file binary

---
 weio/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/file.py b/weio/file.py
index 07ee45d..85e97e6 100644
--- a/weio/file.py
+++ b/weio/file.py
@@ -170,7 +170,7 @@ def isBinary(filename):
             # then look for weird characters
             for c in l:
                 code = ord(c)
-                if code<10 or (code>14 and code<31):
+                if code<9 or (code>14 and code<31):
                     return True
             return False
         except UnicodeDecodeError:
-- 
2.43.0


From 6eb354094451290a530a9166c541e933f1333e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:21 +0000
Subject: [PATCH 147/171] fix: TurbSim time series: other text files are
 refused as such

---
 weio/turbsim_ts_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weio/turbsim_ts_file.py b/weio/turbsim_ts_file.py
index b9383bb..9c00ca0 100644
--- a/weio/turbsim_ts_file.py
+++ b/weio/turbsim_ts_file.py
@@ -26,11 +26,13 @@ class TurbSimTSFile(File):
         with open(self.filename, 'r', errors="surrogateescape") as f:
             for i, line in enumerate(f):
                 if i>nHeaderMax:
-                    raise BrokenFormatError('`nComp` not found in file')
+                    break
                 if line.lower().find('ncomp')>=0:
                     iFirstData=i
                     break
                 self['header'].append(line.strip())
+            if iFirstData<0:
+                raise WrongFormatError('`nComp` not found in file')
             self['nComp'] = int(line.split()[0])
             line          = f.readline().strip()
             nPoints       = int(line.split()[0])
-- 
2.43.0


From 682672e68736275b1af2bf3d8274414da0d81adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:21 +0000
Subject: [PATCH 148/171] fix: TurbSim time series: header lines with other
 characters are written

---
 weio/turbsim_ts_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/turbsim_ts_file.py b/weio/turbsim_ts_file.py
index 9c00ca0..aa8023b 100644
--- a/weio/turbsim_ts_file.py
+++ b/weio/turbsim_ts_file.py
@@ -87,7 +87,7 @@ class TurbSimTSFile(File):
         return s
 
     def _write(self):
-        with open(self.filename,'w') as f:
+        with open(self.filename,'w', errors="surrogateescape") as f:
             f.write(self.toString())
 
         
-- 
2.43.0


From 54266836669ae43c3616638e3346d149f9c1345e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:32 +0000
Subject: [PATCH 149/171] fix: TurbSim time series: columns are named as in the
 file

---
 weio/turbsim_ts_file.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/weio/turbsim_ts_file.py b/weio/turbsim_ts_file.py
index aa8023b..d01accf 100644
--- a/weio/turbsim_ts_file.py
+++ b/weio/turbsim_ts_file.py
@@ -6,6 +6,7 @@ from .file import File, isBinary, WrongFormatError, BrokenFormatError
 import pandas as pd
 import numpy as np
 from itertools import takewhile
+import re
 
 
 class TurbSimTSFile(File):
@@ -45,7 +46,8 @@ class TurbSimTSFile(File):
                 line = f.readline().strip()
                 self['Points'][i,:]= np.array(line.split()).astype(float)
             f.readline()
-            f.readline()
+            # order of the columns in the file
+            self._velColumns = ['Point{}{}'.format(int(p),c.lower()) for p,c in re.findall(r'Point(\d+)([uvw])\b', f.readline(), flags=re.IGNORECASE)]
             f.readline()
             lines=[]
             # reading full data
@@ -53,7 +55,11 @@ class TurbSimTSFile(File):
 
     def columns(self):
         Comp=['u','v','w']
-        return ['Time']+['Point{}{}'.format(ip+1,Comp[ic]) for ic in np.arange(self['nComp']) for ip in np.arange(len(self['Points']))]
+        cols = ['Point{}{}'.format(ip+1,Comp[ic]) for ic in np.arange(self['nComp']) for ip in np.arange(len(self['Points']))]
+        velColumns = getattr(self, '_velColumns', [])
+        if sorted(velColumns)==sorted(cols):
+            cols = velColumns
+        return ['Time']+cols
 
     def units(self):
         nPoints = self['Points'].shape[0]
-- 
2.43.0


From aba5fe5ddea02b419898c0dcda2defc52f134d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:34 +0000
Subject: [PATCH 150/171] fix: FAST wind file: files without header are written
 with names as comments

---
 weio/fast_wind_file.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/weio/fast_wind_file.py b/weio/fast_wind_file.py
index b642d89..3f77a08 100644
--- a/weio/fast_wind_file.py
+++ b/weio/fast_wind_file.py
@@ -35,6 +35,7 @@ class FASTWndFile(CSVFile):
         header+=['!Time  Wind     Wind	Vert.       Horiz.      Vert.       LinV        Gust']
         header+=['!      Speed    Dir    Speed       Shear		Shear       Shear       Speed']
 
+        self._defaultHeader=header
         super(FASTWndFile, self).__init__(sep=' ',commentChar='!',colNames=Cols, header=header, *args, **kwargs)
 
     def _read(self, *args, **kwargs):
@@ -43,7 +44,13 @@ class FASTWndFile(CSVFile):
         super(FASTWndFile, self)._read(*args, **kwargs)
 
     def _write(self, *args, **kwargs):
-        super(FASTWndFile, self)._write(*args, **kwargs)
+        header=self.header
+        if len(header)==0:
+            self.header=self._defaultHeader # names can only be in comments
+        try:
+            super(FASTWndFile, self)._write(*args, **kwargs)
+        finally:
+            self.header=header
 
 
     def _toDataFrame(self):
-- 
2.43.0


From c640f7cc78008d6149e0c5a49691e79df1e8e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:02 +0000
Subject: [PATCH 151/171] fix: HAWC2 htc: files of the wakes block are listed
 as inputs, with or without wind block

---
 weio/wetb/hawc2/htc_file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weio/wetb/hawc2/htc_file.py b/weio/wetb/hawc2/htc_file.py
index 05ea97a..7453f50 100644
--- a/weio/wetb/hawc2/htc_file.py
+++ b/weio/wetb/hawc2/htc_file.py
@@ -350,9 +350,9 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
             files.append(self.wind.get('user_defined_shear_turbulence', [None])[0])
             files.append(self.wind.get('met_mast_wind', [None])[0])
         if 'wakes' in self:
-            files.append(self.wind.get('use_specific_deficit_file', [None])[0])
-            files.append(self.wind.get('write_ct_cq_file', [None])[0])
-            files.append(self.wind.get('write_final_deficits', [None])[0])
+            files.append(self.wakes.get('use_specific_deficit_file', [None])[0])
+            files.append(self.wakes.get('write_ct_cq_file', [None])[0])
+            files.append(self.wakes.get('write_final_deficits', [None])[0])
         if 'hydro' in self:
             if 'water_properties' in self.hydro:
                 files.append(self.hydro.water_properties.get('water_kinematics_dll', [None])[0])
-- 
2.43.0


From ef11ec2c99e0a79fa9757a9650a14adfe3b20f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:02 +0000
Subject: [PATCH 152/171] fix: HAWC2 htc: files with an aero block without ae
 or pc file are read

---
 weio/wetb/hawc2/htc_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/wetb/hawc2/htc_file.py b/weio/wetb/hawc2/htc_file.py
index 7453f50..78a1384 100644
--- a/weio/wetb/hawc2/htc_file.py
+++ b/weio/wetb/hawc2/htc_file.py
@@ -333,8 +333,8 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
                     files.append(mb.timoschenko_input.filename[0])
                 files.append(mb.get('external_bladedata_dll', [None, None, None])[2])
         if 'aero' in self:
-            files.append(self.aero.ae_filename[0])
-            files.append(self.aero.pc_filename[0])
+            files.append(self.aero.get('ae_filename', [None])[0])
+            files.append(self.aero.get('pc_filename', [None])[0])
             files.append(self.aero.get('external_bladedata_dll', [None, None, None])[2])
             files.append(self.aero.get('output_profile_coef_filename', [None])[0])
             if 'dynstall_ateflap' in self.aero:
-- 
2.43.0


From 80b6e59c9fb178fe9958384b2a0c0122e117fb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:02 +0000
Subject: [PATCH 153/171] fix: HAWC2 htc: comparison reports additional sensors
 of the other file and sensors of another type

---
 weio/wetb/hawc2/htc_contents.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index b7632d4..c112979 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -424,8 +424,8 @@ class HTCOutputSection(HTCSection):
             s += s1.compare(s2)
         for s1 in self.sensors[len(other.sensors):]:
             s += "\n".join(["- %s" % l for l in str(s1).strip().split("\n")]) + "\n"
-        for s2 in self.sensors[len(self.sensors):]:
-            s += "\n".join(["- %s" % l for l in str(s2).strip().split("\n")]) + "\n"
+        for s2 in other.sensors[len(self.sensors):]:
+            s += "\n".join(["+ %s" % l for l in str(s2).strip().split("\n")]) + "\n"
 
         return s
 
@@ -498,7 +498,7 @@ class HTCSensor(HTCLine):
 
     def compare(self, other):
         s = ""
-        if self.sensor != other.sensor or self.values != other.values:
+        if self.type != other.type or self.sensor != other.sensor or self.values != other.values:
             s += "\n".join(["+ %s" % l for l in str(self).strip().split("\n")]) + "\n"
             s += "\n".join(["- %s" % l for l in str(other).strip().split("\n")]) + "\n"
             s += "\n"
-- 
2.43.0


From a6ca6dbbe924974b899070ad3b061dc38017c916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:02 +0000
Subject: [PATCH 154/171] fix: HAWC2 htc: structural files are looked up
 relative to the model directory

---
 weio/hawc2_htc_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weio/hawc2_htc_file.py b/weio/hawc2_htc_file.py
index 52a8b79..2aa651a 100644
--- a/weio/hawc2_htc_file.py
+++ b/weio/hawc2_htc_file.py
@@ -112,7 +112,9 @@ class HAWC2HTCFile(File):
             # potentially open st files..
             if "timoschenko_input" in bdy:
                 tim = bdy.timoschenko_input
-                H2_stfile = os.path.join(simdir, tim.filename[0])
+                H2_stfile = os.path.join(self.data.modelpath, tim.filename[0])
+                if not os.path.exists(H2_stfile):
+                    H2_stfile = os.path.join(simdir, tim.filename[0])
                 if not os.path.exists(H2_stfile):
                     print('[WARN] st file referenced in htc file was not found. St file: {}, htc file {}'.format(H2_stfile, self.filename))
                 else:
-- 
2.43.0


From af9b6414c5ffbd0d4c23210d235b69a853ad8242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:44 +0000
Subject: [PATCH 155/171] fix: HAWC2 htc: comparison reports another type or
 time of output_at_time blocks

---
 weio/wetb/hawc2/htc_contents.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index c112979..f674066 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -447,6 +447,13 @@ class HTCOutputAtTimeSection(HTCOutputSection):
         self._copy_contents(copy)
         return copy
 
+    def compare(self, other):
+        s = ""
+        if (self.type, self.time) != (other.type, other.time):
+            s += "+ begin %s %s %s\n" % (self.name_, self.type, self.time)
+            s += "- begin %s %s %s\n\n" % (other.name_, other.type, other.time)
+        return s + HTCOutputSection.compare(self, other)
+
     def __str__(self, level=0):
         s = "%sbegin %s %s %s;%s\n" % ("  " * level, self.name_, self.type, self.time,
                                        ("", "\t" + self.begin_comments)[len(self.begin_comments.strip()) > 0])
-- 
2.43.0


From f81091598ec0a1264b7c0f12eba535db7fb1e7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:36 +0000
Subject: [PATCH 156/171] fix: HAWC2 htc: files of all flap, soil_element and
 turb_export entries are listed, not only of the first

---
 weio/wetb/hawc2/htc_file.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/weio/wetb/hawc2/htc_file.py b/weio/wetb/hawc2/htc_file.py
index 78a1384..7722619 100644
--- a/weio/wetb/hawc2/htc_file.py
+++ b/weio/wetb/hawc2/htc_file.py
@@ -338,7 +338,8 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
             files.append(self.aero.get('external_bladedata_dll', [None, None, None])[2])
             files.append(self.aero.get('output_profile_coef_filename', [None])[0])
             if 'dynstall_ateflap' in self.aero:
-                files.append(self.aero.dynstall_ateflap.get('flap', [None] * 3)[2])
+                flaps = self.aero.dynstall_ateflap
+                files.extend([flaps[k][2] for k in flaps.keys() if flaps[k].name_ == 'flap'])
             if 'bemwake_method' in self.aero:
                 files.append(self.aero.bemwake_method.get('a-ct-filename', [None] * 3)[0])
         for dll in [self.dll[dll] for dll in self.get('dll', {}).keys() if 'filename' in self.dll[dll]]:
@@ -358,8 +359,8 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
                 files.append(self.hydro.water_properties.get('water_kinematics_dll', [None])[0])
                 files.append(self.hydro.water_properties.get('water_kinematics_dll', [None, None])[1])
         if 'soil' in self:
-            if 'soil_element' in self.soil:
-                files.append(self.soil.soil_element.get('datafile', [None])[0])
+            for soil_element in [self.soil[k] for k in self.soil.keys() if self.soil[k].name_ == 'soil_element']:
+                files.append(soil_element.get('datafile', [None])[0])
         try:
             dtu_we_controller = self.dll.get_subsection_by_name('dtu_we_controller')
             theta_min = dtu_we_controller.init.constant__5[1]
@@ -397,13 +398,13 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
                          ('new_htc_structure/body_output_file_name', 0),
                          ('new_htc_structure/struct_inertia_output_file_name', 0),
                          ('new_htc_structure/body_eigenanalysis_file_name', 0),
-                         ('new_htc_structure/constraint_output_file_name', 0),
-                         ('wind/turb_export/filename_u', 0),
-                         ('wind/turb_export/filename_v', 0),
-                         ('wind/turb_export/filename_w', 0)]:
+                         ('new_htc_structure/constraint_output_file_name', 0)]:
             line = self.get(k)
             if line:
                 files.append(line[index])
+        if 'wind' in self:
+            for exp in [self.wind[k] for k in self.wind.keys() if self.wind[k].name_ == 'turb_export']:
+                files.extend([exp.get('filename_%s' % uvw, [None])[0] for uvw in 'uvw'])
         if 'new_htc_structure' in self:
             if 'system_eigenanalysis' in self.new_htc_structure:
                 f = self.new_htc_structure.system_eigenanalysis[0]
-- 
2.43.0


From 343f4c82f92fafa240e336d2323cd6dcdf777424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:43 +0000
Subject: [PATCH 157/171] fix: HAWC2 htc: a file without new_htc_structure can
 be printed and has no bodies

---
 weio/hawc2_htc_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawc2_htc_file.py b/weio/hawc2_htc_file.py
index 2aa651a..5e3ce84 100644
--- a/weio/hawc2_htc_file.py
+++ b/weio/hawc2_htc_file.py
@@ -43,7 +43,7 @@ class HAWC2HTCFile(File):
 
     @property
     def bodyDict(self):
-        struct = self.data.new_htc_structure
+        struct = self.data.get('new_htc_structure', {})
         bodyKeys = [k for k in struct.keys() if k.startswith('main_body')]
         #print('>>> keys', struct.keys())
         bdDict={}
-- 
2.43.0


From 864a9a8c8c3d4b3564dd0f3091bc26de6b736a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 158/171] fix: CSV: comment lines after the hundredth are
 comments as well

---
 weio/csv_file.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 351ef8e..ede84b8 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -153,13 +153,11 @@ class CSVFile(File):
         elif self.commentChar is not None:
             # we detect the comments lines that start with comment char
             with open(self.filename,'r',encoding=self.encoding) as f:
-                n=0
-                while n<100:
+                while True:
                     l = f.readline().strip()
                     if (not l) or (l+'_dummy')[0] != self.commentChar[0]:
                         break
                     self.header.append(l.strip())
-                    n+=1
             self.commentLines=list(range(len(self.header)))
         else:
             # We still believe that some characters are comments
@@ -169,13 +167,11 @@ class CSVFile(File):
                 self.commentChar=line[0]
                 # Nasty copy paste from above
                 with open(self.filename,'r',encoding=self.encoding) as f:
-                    n=0
-                    while n<100:
+                    while True:
                         l = f.readline().strip()
                         if (not l) or (l+'_dummy')[0] != self.commentChar[0]:
                             break
                         self.header.append(l.strip())
-                        n+=1
 
         iStartLine = len(self.header)
 
-- 
2.43.0


From 63d65a6c324d64d051f3ecf1c0c806661818d9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:57 +0000
Subject: [PATCH 159/171] fix: AeroDyn airfoil files without unsteady data, or
 with DEFAULT for these parameters, can be converted to tables

---
 weio/fast_input_file.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index d8017d9..7bb242a 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1625,17 +1625,24 @@ class ADPolarFile(FASTInputFileBase):
             alpha = df['Alpha_[deg]'].values*np.pi/180.
             Cl    = df['Cl_[-]'].values
             Cd    = df['Cd_[-]'].values
-            Cd0   = self['Cd0'+labOffset]
             # Cn (with or without Cd0)
-            Cn1 = Cl*np.cos(alpha)+ (Cd-Cd0)*np.sin(alpha) 
             Cn  = Cl*np.cos(alpha)+ Cd*np.sin(alpha) 
             df['Cn_[-]'] = Cn
-            df['Cn_Cd0off_[-]'] = Cn1
-
-            CnLin = self['C_nalpha'+labOffset]*(alpha-self['alpha0'+labOffset]*np.pi/180.)
-            CnLin[alpha<-20*np.pi/180]=np.nan
-            CnLin[alpha> 30*np.pi/180]=np.nan
-            df['Cn_pot_[-]'] = CnLin
+            # The unsteady parameters are absent when InclUAdata is False, and may be set to DEFAULT
+            UA = dict()
+            for lab in ['Cd0','C_nalpha','alpha0']:
+                i = self.getIDSafe(lab+labOffset)
+                UA[lab] = self.data[i]['value'] if i>=0 else None
+            hasNum = lambda *labs: all(UA[lab] is not None and not isStr(UA[lab]) for lab in labs)
+            if hasNum('Cd0'):
+                Cn1 = Cl*np.cos(alpha)+ (Cd-UA['Cd0'])*np.sin(alpha) 
+                df['Cn_Cd0off_[-]'] = Cn1
+
+            if hasNum('C_nalpha','alpha0'):
+                CnLin = UA['C_nalpha']*(alpha-UA['alpha0']*np.pi/180.)
+                CnLin[alpha<-20*np.pi/180]=np.nan
+                CnLin[alpha> 30*np.pi/180]=np.nan
+                df['Cn_pot_[-]'] = CnLin
 
             # Highlighting points surrounding 0 1 2 Cn points
             CnPoints = Cn*np.nan
-- 
2.43.0


From 88c22b416aef151e3778d06db249fddde9749698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:04 +0000
Subject: [PATCH 160/171] fix: ExtPtfm: the last time step is not lost when the
 time step is not a binary fraction (e.g. 0.3 s in steps of 0.1 s)

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 7bb242a..2e48245 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1731,7 +1731,7 @@ def detectAndReadExtPtfmSE(self, lines):
                 i=i+1+nDOF
             elif l.find('!loading')==0:
                 try: 
-                    nt=int(self['T']/self['dt'])+1
+                    nt=int(self['T']/self['dt']+1e-6)+1
                 except:
                     raise BrokenFormatError('Cannot read loading since time step and simulation time not properly set.')
                 self.addKeyVal('Loading',readmat(nt,nDOFCommon+1,lines,i+2))
-- 
2.43.0


From 5f08dbad7333ac08ffff5f74670b59f3b9b67304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:41 +0000
Subject: [PATCH 161/171] fix: HAWC2 result pairs with upper-case extensions
 (.SEL/.DAT) can be read on case-sensitive file systems

---
 weio/wetb/hawc2/Hawc2io.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/weio/wetb/hawc2/Hawc2io.py b/weio/wetb/hawc2/Hawc2io.py
index 429a47f..6121ff1 100644
--- a/weio/wetb/hawc2/Hawc2io.py
+++ b/weio/wetb/hawc2/Hawc2io.py
@@ -55,6 +55,13 @@ import os
 class ReadHawc2(object):
     """
     """
+    @staticmethod
+    def _path(base, ext):
+        """ Path of the file `base`+`ext`, the extension being in lower or upper case """
+        if not os.path.isfile(base + ext) and os.path.isfile(base + ext.upper()):
+            return base + ext.upper()
+        return base + ext
+
 ################################################################################
 # read *.sel file
     def _ReadSelFile(self):
@@ -80,7 +87,7 @@ class ReadHawc2(object):
         # read *.sel hawc2 output file for result info
         if self.FileName.lower().endswith('.sel'):
             self.FileName = self.FileName[:-4]
-        fid = opent(self.FileName + '.sel', 'r')
+        fid = opent(self._path(self.FileName, '.sel'), 'r')
         Lines = fid.readlines()
         fid.close()
         if Lines[0].lower().find('bhawc')>=0:
@@ -214,9 +221,9 @@ class ReadHawc2(object):
         self.ReadOnly = ReadOnly
         self.Iknown = []  # to keep track of what has been read all ready
         self.Data = np.zeros(0)
-        if FileName.lower().endswith('.sel') or os.path.isfile(FileName + ".sel"):
+        if FileName.lower().endswith('.sel') or os.path.isfile(self._path(FileName, ".sel")):
              self._ReadSelFile()
-        elif FileName.lower().endswith('.dat') and os.path.isfile(os.path.splitext(FileName)[0] + ".sel"):
+        elif FileName.lower().endswith('.dat') and os.path.isfile(self._path(os.path.splitext(FileName)[0], ".sel")):
              self.FileName = os.path.splitext(FileName)[0]
              self._ReadSelFile()
         elif FileName.lower().endswith('.int') or FileName.lower().endswith('.res'):
@@ -241,7 +248,7 @@ class ReadHawc2(object):
         ChVec = [] if ChVec is None else ChVec
         if not ChVec:
             ChVec = range(0, self.NrCh)
-        with open(self.FileName + '.dat', 'rb') as fid:
+        with open(self._path(self.FileName, '.dat'), 'rb') as fid:
             data = np.zeros((self.NrSc, len(ChVec)))
             j = 0
             for i in ChVec:
@@ -258,7 +265,7 @@ class ReadHawc2(object):
         ChVec = [] if ChVec is None else ChVec
         if not ChVec:
             ChVec = range(0, self.NrCh)
-        temp = np.loadtxt(self.FileName + '.dat', usecols=ChVec)
+        temp = np.loadtxt(self._path(self.FileName, '.dat'), usecols=ChVec)
         return temp.reshape((self.NrSc, len(ChVec)))
 ################################################################################
 # Read results in FLEX format
-- 
2.43.0


From fa6494b1f096714b803afa9b1b2b59faab4a48ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:45 +0000
Subject: [PATCH 162/171] fix: FASTInputFile: a loop over the entries is not
 cut short by another loop over the same file

---
 weio/fast_input_file.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 2e48245..6e28ea9 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -223,16 +223,7 @@ class FASTInputFileBase(File):
 
     # Making object an iterator
     def __iter__(self):
-        self.iCurrent=-1
-        self.iMax=len(self.data)-1
-        return self
-
-    def __next__(self): # Python 2: def next(self)
-        if self.iCurrent >= self.iMax:
-            raise StopIteration
-        else:
-            self.iCurrent += 1
-            return self.data[self.iCurrent]
+        return iter(self.data)
 
     # Making it behave like a dictionary
     def __setitem__(self,key,item):
-- 
2.43.0


From 9d4bb278f33c46431b9ac769ee490d458235d0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:57 +0000
Subject: [PATCH 163/171] fix: FASTInputFile: next() on the file object itself
 goes on working beside the independent loops

---
 weio/fast_input_file.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 6e28ea9..461371b 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -223,8 +223,17 @@ class FASTInputFileBase(File):
 
     # Making object an iterator
     def __iter__(self):
+        self.iCurrent=-1
+        self.iMax=len(self.data)-1
         return iter(self.data)
 
+    def __next__(self): # Python 2: def next(self)
+        if self.iCurrent >= self.iMax:
+            raise StopIteration
+        else:
+            self.iCurrent += 1
+            return self.data[self.iCurrent]
+
     # Making it behave like a dictionary
     def __setitem__(self,key,item):
         I = self.getIDs(key)
-- 
2.43.0


From 0a7bd895ba91fdcc23cea3f8e113862744f2b0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:26 +0000
Subject: [PATCH 164/171] fix: FAST binary outputs read without buffer:
 uncompressed files can be read and constant channels are scaled as with
 buffer

---
 weio/fast_output_file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 465bc23..5e3827c 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -280,8 +280,8 @@ def load_binary_output(filename, use_buffer=True):
             TimeIncr = fread(fid, 1, 'float64')  #;           % The time increment, REAL(8)
 
         if FileID == FileFmtID_NoCompressWithoutTime:
-            ColScl = np.ones ((NumOutChans, 1)) # The channel slopes for scaling, REAL(4)
-            ColOff = np.zeros((NumOutChans, 1)) # The channel offsets for scaling, REAL(4)
+            ColScl = np.ones (NumOutChans) # The channel slopes for scaling, REAL(4)
+            ColOff = np.zeros(NumOutChans) # The channel offsets for scaling, REAL(4)
         else:
             ColScl = fread(fid, NumOutChans, 'float32')  # The channel slopes for scaling, REAL(4)
             ColOff = fread(fid, NumOutChans, 'float32')  # The channel offsets for scaling, REAL(4)
@@ -350,7 +350,9 @@ def load_binary_output(filename, use_buffer=True):
         data[:,0] = time
     else:
         # NOTE: memory expensive due to time conversion, and concatenation
+        bNaN = np.logical_and(np.isnan(ColScl), np.isnan(ColOff))
         data = (data - ColOff) / ColScl
+        data[:,bNaN] = 0 # probably due to a division by zero in Fortran
         data = np.concatenate([time.reshape(NT, 1), data], 1)
 
     info = {'name': os.path.splitext(os.path.basename(filename))[0],
-- 
2.43.0


From 21200793b25f9e0f98dc915ccb4006a3da7555e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:29 +0000
Subject: [PATCH 165/171] fix: HAWC2 st: the element stiffness matrix uses the
 shear flexibility of the x direction for bending along x

---
 weio/wetb/hawc2/st_file.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/weio/wetb/hawc2/st_file.py b/weio/wetb/hawc2/st_file.py
index ff0ca1f..394e9dc 100644
--- a/weio/wetb/hawc2/st_file.py
+++ b/weio/wetb/hawc2/st_file.py
@@ -185,7 +185,6 @@ class StFile(object):
         ETAY = EMOD * IY / (KX * GMOD * A * ELLGTH**2)
         ROX = 1 / (1 + 12 * ETAX)
         ROY = 1 / (1 + 12 * ETAY)
-        ROY = 1 / (1 + 12 * ETAX)
         K[1, 1] = 12 * EMOD * IY * ROY / ELLGTH**3
         K[1, 5] = 6 * EMOD * IY * ROY / ELLGTH**2
         K[1, 6] = -K[1, 1] * ES2
-- 
2.43.0


From d97142bf6c3b1f128f0fd64729084e645980c762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:35 +0000
Subject: [PATCH 166/171] fix: FAST outputs of any extension: binary files are
 recognised by their identifier, and known as binary

---
 weio/fast_output_file.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 5e3827c..daaee3c 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -92,6 +92,7 @@ class FASTOutputFile(File):
                 self.info['attribute_names']=self.data.columns.values
             else:
                 self.data, self.info = load_output(self.filename)
+                self['binary'] = 'fileID' in self.info
         except MemoryError as e:    
             raise BrokenReaderError('FAST Out File {}: Memory error encountered\n{}'.format(self.filename,e))
         except Exception as e:    
@@ -161,11 +162,10 @@ def load_output(filename):
     """
 
     assert os.path.isfile(filename), "File, %s, does not exists" % filename
-    with open(filename, 'r') as f:
-        try:
-            f.readline()
-        except UnicodeDecodeError:
-            return load_binary_output(filename)
+    with open(filename, 'rb') as f:
+        binary = f.read(2) in [struct.pack('h', i) for i in (1,2,3,4)] # identifiers of the FAST binary formats
+    if binary:
+        return load_binary_output(filename)
     return load_ascii_output(filename)
 
 def load_ascii_output(filename):
-- 
2.43.0


From 4ab6d01afdcc8a766be3bcf651df725b71fae72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:15 +0000
Subject: [PATCH 167/171] fix: HAWC2 dat: a pair of files with extensions in
 upper case is written under the name that was given

---
 weio/hawc2_dat_file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index 93fed4f..8a5796d 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -106,10 +106,12 @@ class HAWC2DatFile(File):
         if ext=='.dat':
             datfilename=filename
         elif ext=='.sel':
-            datfilename=os.path.splitext(filename)[0]+'.dat'
+            selfilename=filename
+            datfilename=filename[:-4]+('.DAT' if filename.endswith('.SEL') else '.dat')
         else:
             datfilename=filename+'.dat'
-        selfilename=datfilename[:-4]+'.sel'
+        if ext!='.sel':
+            selfilename=datfilename[:-4]+('.SEL' if datfilename.endswith('.DAT') else '.sel')
         nScans    = self.data.shape[0]
         nChannels = self.data.shape[1]
         SimTime   = self.data[-1,0] #-self.data[0,0]
-- 
2.43.0


From 9108f415dc39950dc8baca123d7d2b1bd0a48314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:15 +0000
Subject: [PATCH 168/171] fix: HAWC2 dat: files with a capitalised extension
 (.Sel, .Dat) can be read

---
 weio/wetb/hawc2/Hawc2io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/weio/wetb/hawc2/Hawc2io.py b/weio/wetb/hawc2/Hawc2io.py
index 6121ff1..719a31c 100644
--- a/weio/wetb/hawc2/Hawc2io.py
+++ b/weio/wetb/hawc2/Hawc2io.py
@@ -57,9 +57,10 @@ class ReadHawc2(object):
     """
     @staticmethod
     def _path(base, ext):
-        """ Path of the file `base`+`ext`, the extension being in lower or upper case """
-        if not os.path.isfile(base + ext) and os.path.isfile(base + ext.upper()):
-            return base + ext.upper()
+        """ Path of the file `base`+`ext`, the extension being in lower, upper or title case """
+        for e in [ext, ext.upper(), ext.title()]:
+            if os.path.isfile(base + e):
+                return base + e
         return base + ext
 
 ################################################################################
-- 
2.43.0


From 69c3743a73ad4b098c14af3aa6bbeeedd2eed0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:52 +0000
Subject: [PATCH 169/171] fix: Excel: workbooks with an extension in upper case
 can be written

---
 weio/excel_file.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/weio/excel_file.py b/weio/excel_file.py
index a48e2e2..a47bc97 100644
--- a/weio/excel_file.py
+++ b/weio/excel_file.py
@@ -49,7 +49,10 @@ class ExcelFile(File):
 
     def _write(self):
         # Create a Pandas Excel writer (with the default engine of pandas).
-        writer = pd.ExcelWriter(self.filename)
+        # (pandas only knows extensions in lower case, but takes open files)
+        bXLSX  = self.filename.lower().endswith('.xlsx') and not self.filename.endswith('.xlsx')
+        target = open(self.filename, 'wb') if bXLSX else self.filename
+        writer = pd.ExcelWriter(target)
         # Convert the dataframes to Excel sheets.
         for k,_ in self.data.items():
             df = self.data[k]
@@ -74,6 +77,8 @@ class ExcelFile(File):
         #                                           'format': format1})
         # Close the Pandas Excel writer and output the Excel file.
         writer.close()
+        if bXLSX:
+            target.close()
 
     def __repr__(self):
         s ='Class XXXX (attributes: data)\n'
-- 
2.43.0


From 6167753709e84ee01b99f623fd4935c04d585692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:30 +0000
Subject: [PATCH 170/171] fix: HAWC2 HTC: command files can be copied (copy,
 deepcopy, pickle)

---
 weio/wetb/hawc2/htc_contents.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index f674066..ffb6a24 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -74,6 +74,9 @@ class HTCContents(object):
             return object.__getattribute__(self, *args, **kwargs)
         except Exception:
             k = args[0]
+            if k.startswith('__') and k.endswith('__'):
+                # protocols of python (e.g. copy, pickle), not the name of a line
+                raise
             if k.endswith("__1"):
                 k = k[:-3]
             return self.contents[k]
-- 
2.43.0


From dbf5cc4d95ea090c14817f47b785ddc7afdc3c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:30 +0000
Subject: [PATCH 171/171] fix: HAWC2 St: the methods of a copied structural
 file use the data of the copy

---
 weio/wetb/hawc2/st_file.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/weio/wetb/hawc2/st_file.py b/weio/wetb/hawc2/st_file.py
index 394e9dc..6f944b4 100644
--- a/weio/wetb/hawc2/st_file.py
+++ b/weio/wetb/hawc2/st_file.py
@@ -5,6 +5,7 @@ Created on 24/04/2014
 '''
 import types
 import os
+import functools
 import numpy as np
 
 
@@ -103,8 +104,11 @@ class StFile(object):
             raise TypeError('wrong number of columns in st file')
 
         for i, name in enumerate(self.cols):
-            setattr(self, name, lambda radius=None, mset=1, set=1,
-                    column=i: self._value(radius, column, mset, set))
+            # (a partial of a bound method is bound to the copy when self is copied or pickled)
+            setattr(self, name, functools.partial(self._column_value, i))
+
+    def _column_value(self, column, radius=None, mset=1, set=1):
+        return self._value(radius, column, mset, set)
 
     def _value(self, radius, column, mset_nr=1, set_nr=1):
         st_data = self.main_data_sets[mset_nr][set_nr]
-- 
2.43.0

