From 0c78c46ed44e69971d66ab894727d1dd5c1016c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 01/60] fix: decide the type of an FVC input file from its
 name, not its directory

---
 py/desimeter/processfvc.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index 595250b..a961378 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -45,10 +45,12 @@ def process_fvc(filename, overwrite=False, use_subprocess=True):
     astropy.table.Table
         A table of the found spot coordinates.
     """
-    if filename.find(".csv")>0 :
+    # only the file name tells the type, the directories can have any name
+    basename = os.path.basename(filename)
+    if basename.find(".csv")>0 :
         # already a coordinates table
         return Table.read(filename)
-    if filename.find(".fits")<0 :
+    if basename.find(".fits")<0 :
         print("don't know what to do with",filename)
         sys.exit(12)
     outfilename = get_outfilename(filename)
@@ -122,8 +124,9 @@ def get_spots_list(args, log):
 
     spots_list=[]
     filename = args.infile
+    basename = os.path.basename(filename) # the directories can have any name
     extnames = None
-    if filename.find(".fits")>0 :
+    if basename.find(".fits")>0 :
         log.info("read FITS FVC image")
         with fitsio.FITS(args.infile) as fx:
             print(fx) # shockingly needed to get the attribute hdu_map
@@ -153,7 +156,7 @@ def get_spots_list(args, log):
                     image -= args.bias
                 spots_list.append( detectspots(image,min_counts_per_pixel=args.min_counts_per_pixel,min_counts_per_spot=args.min_counts,nsig=7,psf_sigma=args.fvc_psf_sigma) )
 
-    elif filename.find(".csv")>0 :
+    elif basename.find(".csv")>0 :
         log.info("read CSV spots table")
         spots_list.append( Table.read(filename,format="csv") )
     else :
-- 
2.43.0


From 53331468d7af80110319f088a405d5e508a46ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 02/60] fix: pass FVC image paths with spaces to desi_fvc_proc
 unsplit

---
 py/desimeter/processfvc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index a961378..b6a373c 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -59,9 +59,9 @@ def process_fvc(filename, overwrite=False, use_subprocess=True):
         return Table.read(outfilename)
     if use_subprocess:
         # Use a subprocess to invoke bin/desi_fvc_proc in a login environment.
-        cmd="desi_fvc_proc -i {} -o {}".format(filename,outfilename)
-        print("running '{}'".format(cmd))
-        errcode=subprocess.call(cmd.split())
+        cmd=["desi_fvc_proc","-i",filename,"-o",outfilename]
+        print("running '{}'".format(" ".join(cmd)))
+        errcode=subprocess.call(cmd)
     else:
         # Use the current environment.
         parser = get_parser()
-- 
2.43.0


From 08c39c22753f9fde683df20d0dfddad45733ddcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 03/60] fix: never reuse a partially written table of FVC spots

---
 py/desimeter/processfvc.py | 39 ++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index b6a373c..5c15eea 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -4,6 +4,7 @@ import os
 import sys
 import subprocess
 import argparse
+import tempfile
 from astropy.table import Table
 import numpy as np
 import fitsio
@@ -57,22 +58,28 @@ def process_fvc(filename, overwrite=False, use_subprocess=True):
     if os.path.isfile(outfilename) and not overwrite:
         print("using previously processed {}".format(outfilename))
         return Table.read(outfilename)
-    if use_subprocess:
-        # Use a subprocess to invoke bin/desi_fvc_proc in a login environment.
-        cmd=["desi_fvc_proc","-i",filename,"-o",outfilename]
-        print("running '{}'".format(" ".join(cmd)))
-        errcode=subprocess.call(cmd)
-    else:
-        # Use the current environment.
-        parser = get_parser()
-        args = parser.parse_args(['-i', filename, '-o', outfilename])
-        log   = get_logger()
-        errcode = fvc_proc(args, log)
-
-    if errcode != 0 :
-        print("we got an error code = {}".format(errcode))
-        return None
-    return Table.read(outfilename)
+    # Write in a private directory and rename the table once complete, such that an
+    # interrupted or concurrent call cannot leave a partial table to be reused later.
+    with tempfile.TemporaryDirectory(dir=os.path.dirname(outfilename)) as tmpdir :
+        tmpfilename = os.path.join(tmpdir,os.path.basename(outfilename))
+        if use_subprocess:
+            # Use a subprocess to invoke bin/desi_fvc_proc in a login environment.
+            cmd=["desi_fvc_proc","-i",filename,"-o",tmpfilename]
+            print("running '{}'".format(" ".join(cmd)))
+            errcode=subprocess.call(cmd)
+        else:
+            # Use the current environment.
+            parser = get_parser()
+            args = parser.parse_args(['-i', filename, '-o', tmpfilename])
+            log   = get_logger()
+            errcode = fvc_proc(args, log)
+
+        if errcode != 0 :
+            print("we got an error code = {}".format(errcode))
+            return None
+        table = Table.read(tmpfilename)
+        os.replace(tmpfilename,outfilename)
+    return table
 
 def get_outfilename(path_to_fits):
     out_dir = '/tmp'
-- 
2.43.0


From 875099c08fd1aa6b37339df72968c44796405a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 04/60] fix: do not return the spots of another FVC image with
 the same name

---
 py/desimeter/processfvc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index 5c15eea..ad68c39 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -4,6 +4,7 @@ import os
 import sys
 import subprocess
 import argparse
+import hashlib
 import tempfile
 from astropy.table import Table
 import numpy as np
@@ -85,6 +86,9 @@ def get_outfilename(path_to_fits):
     out_dir = '/tmp'
     csv_name= path_to_fits.replace(".fits.fz",".csv").replace(".fits",".csv")
     basename = os.path.basename(csv_name)
+    # images in different directories can have the same name
+    path_id = hashlib.md5(os.path.abspath(path_to_fits).encode()).hexdigest()[:8]
+    basename = basename.replace(".csv","-{}.csv".format(path_id))
     out = os.path.join(out_dir, basename)
     return out
 
-- 
2.43.0


From f4b0e07bf28d4a8624fd8fc55e0c3629e4f4a40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 05/60] fix: use the input transform of each call to locate the
 fiducials

---
 py/desimeter/findfiducials.py | 55 ++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/py/desimeter/findfiducials.py b/py/desimeter/findfiducials.py
index 6ddd75b..95cec6e 100644
--- a/py/desimeter/findfiducials.py
+++ b/py/desimeter/findfiducials.py
@@ -12,13 +12,11 @@ from desimeter.match import match_same_system,match_arbitrary_translation_dilata
 from desimeter.simplecorr import SimpleCorr
 
 metrology_pinholes_table = None
-metrology_fiducials_table = None
 
 
 def findfiducials(spots,input_transform=None,pinhole_max_separation_mm=1.5) :
 
     global metrology_pinholes_table
-    global metrology_fiducials_table
     log = get_logger()
 
     log.debug("load input tranformation we will use to go from FP to FVC pixels")
@@ -41,20 +39,23 @@ def findfiducials(spots,input_transform=None,pinhole_max_separation_mm=1.5) :
         log.debug("keep only the pinholes")
         metrology_pinholes_table = metrology_table[:][(metrology_table["DEVICE_TYPE"]=="FIF")|(metrology_table["DEVICE_TYPE"]=="GIF")]
 
-        # use input transform to convert X_FP,Y_FP to XPIX,YPIX
-        xpix,ypix = input_tx.fp2fvc(metrology_pinholes_table["X_FP"],metrology_pinholes_table["Y_FP"])
-        metrology_pinholes_table["XPIX"]=xpix
-        metrology_pinholes_table["YPIX"]=ypix
-
-        log.debug("define fiducial location as the most central dot")
-        central_pinholes=[]
-        for loc in np.unique(metrology_pinholes_table["LOCATION"]) :
-            ii=np.where(metrology_pinholes_table["LOCATION"]==loc)[0]
-            mx=np.mean(metrology_pinholes_table["XPIX"][ii])
-            my=np.mean(metrology_pinholes_table["YPIX"][ii])
-            k=np.argmin((metrology_pinholes_table["XPIX"][ii]-mx)**2+(metrology_pinholes_table["YPIX"][ii]-my)**2)
-            central_pinholes.append(ii[k])
-        metrology_fiducials_table = metrology_pinholes_table[:][central_pinholes]
+    # the pixel coordinates depend on the input transform of this call
+    metrology_pinholes = metrology_pinholes_table.copy()
+
+    # use input transform to convert X_FP,Y_FP to XPIX,YPIX
+    xpix,ypix = input_tx.fp2fvc(metrology_pinholes["X_FP"],metrology_pinholes["Y_FP"])
+    metrology_pinholes["XPIX"]=xpix
+    metrology_pinholes["YPIX"]=ypix
+
+    log.debug("define fiducial location as the most central dot")
+    central_pinholes=[]
+    for loc in np.unique(metrology_pinholes["LOCATION"]) :
+        ii=np.where(metrology_pinholes["LOCATION"]==loc)[0]
+        mx=np.mean(metrology_pinholes["XPIX"][ii])
+        my=np.mean(metrology_pinholes["YPIX"][ii])
+        k=np.argmin((metrology_pinholes["XPIX"][ii]-mx)**2+(metrology_pinholes["YPIX"][ii]-my)**2)
+        central_pinholes.append(ii[k])
+    metrology_fiducials = metrology_pinholes[:][central_pinholes]
 
     # find fiducials candidates
     log.info("select spots with at least two close neighbors (in pixel units)")
@@ -68,11 +69,11 @@ def findfiducials(spots,input_transform=None,pinhole_max_separation_mm=1.5) :
     log.debug("number of fiducials=",fiducials_candidates_indices.size)
 
     # match candidates to fiducials from metrology
-    log.info("first match {} fiducials candidates to metrology ({}) with iterative fit".format(fiducials_candidates_indices.size,len(metrology_fiducials_table)))
+    log.info("first match {} fiducials candidates to metrology ({}) with iterative fit".format(fiducials_candidates_indices.size,len(metrology_fiducials)))
     x1 = spots["XPIX"][fiducials_candidates_indices]
     y1 = spots["YPIX"][fiducials_candidates_indices]
-    x2 = metrology_fiducials_table["XPIX"]
-    y2 = metrology_fiducials_table["YPIX"]
+    x2 = metrology_fiducials["XPIX"]
+    y2 = metrology_fiducials["YPIX"]
 
     nloop=20
     saved_median_distance=0
@@ -98,7 +99,7 @@ def findfiducials(spots,input_transform=None,pinhole_max_separation_mm=1.5) :
     fiducials_candidates_indices     = fiducials_candidates_indices[indices_1[selection]]
     matching_known_fiducials_indices = selection
 
-    log.debug("mean distance = {:4.2f} pixels for {} matched and {} known fiducials".format(np.mean(distances[distances<maxdistance]),fiducials_candidates_indices.size,metrology_fiducials_table["XPIX"].size))
+    log.debug("mean distance = {:4.2f} pixels for {} matched and {} known fiducials".format(np.mean(distances[distances<maxdistance]),fiducials_candidates_indices.size,metrology_fiducials["XPIX"].size))
 
 
     log.debug("now matching pinholes ...")
@@ -113,22 +114,22 @@ def findfiducials(spots,input_transform=None,pinhole_max_separation_mm=1.5) :
     spots["PINHOLE_ID"][:]=0
 
     for index1,index2 in zip ( fiducials_candidates_indices , matching_known_fiducials_indices ) :
-        location = metrology_fiducials_table["LOCATION"][index2]
+        location = metrology_fiducials["LOCATION"][index2]
 
         # get indices of all pinholes for this matched fiducial
         # note we now use the full pinholes metrology table
         pi1 = measured_spots_indices[index1][measured_spots_distances[index1]<pinhole_max_separation_pixels]
-        pi2 = np.where(metrology_pinholes_table["LOCATION"]==location)[0]
+        pi2 = np.where(metrology_pinholes["LOCATION"]==location)[0]
 
         x1 = spots["XPIX"][pi1]
         y1 = spots["YPIX"][pi1]
 
-        x2 = metrology_pinholes_table["XPIX"][pi2]
-        y2 = metrology_pinholes_table["YPIX"][pi2]
+        x2 = metrology_pinholes["XPIX"][pi2]
+        y2 = metrology_pinholes["YPIX"][pi2]
 
         indices_2 , distances = match_arbitrary_translation_dilatation(x1,y1,x2,y2)
 
-        metrology_pinhole_ids = metrology_pinholes_table["PINHOLE_ID"][pi2]
+        metrology_pinhole_ids = metrology_pinholes["PINHOLE_ID"][pi2]
         pinhole_ids = np.zeros(x1.size,dtype=int)
         matched=(indices_2>=0)
         pinhole_ids[matched] = metrology_pinhole_ids[indices_2[matched]]
@@ -141,8 +142,8 @@ def findfiducials(spots,input_transform=None,pinhole_max_separation_mm=1.5) :
 
         # check duplicates
         if np.unique(pinhole_ids[pinhole_ids>0]).size != np.sum(pinhole_ids>0) :
-            xfp=np.mean(metrology_pinholes_table[pi2]["X_FP"])
-            yfp=np.mean(metrology_pinholes_table[pi2]["Y_FP"])
+            xfp=np.mean(metrology_pinholes[pi2]["X_FP"])
+            yfp=np.mean(metrology_pinholes[pi2]["Y_FP"])
             log.warning("duplicate(s) pinhole ids in {} at LOCATION={} xpix~{} ypix~{} xfp~{} yfp~{}".format(pinhole_ids,location,int(np.mean(x1)),int(np.mean(y1)),int(xfp),int(yfp)))
             bc=np.bincount(pinhole_ids[pinhole_ids>0])
             duplicates = np.where(bc>1)[0]
-- 
2.43.0


From 4b26ebea55ab9759d4d1e38d8fafdb5c70f49437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 06/60] fix: run match_positions in a private temporary
 directory

Concurrent calls overwrote each other's inputs and outputs in the shared
temporary directory, and a stale output was returned when match_positions
exited without writing one.
---
 py/desimeter/spotmatch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/spotmatch.py b/py/desimeter/spotmatch.py
index 2350598..70a8c83 100644
--- a/py/desimeter/spotmatch.py
+++ b/py/desimeter/spotmatch.py
@@ -278,7 +278,9 @@ def spotmatch(xpix,ypix,expected_x_fp=None,expected_y_fp=None,expected_location=
     fid_x_dir=-1
     fid_y_dir=1
 
-    tmp_dir=tempfile.gettempdir()
+    # private directory, removed at the end, because other calls can run at the same time
+    tmp=tempfile.TemporaryDirectory(prefix="desimeter_spotmatch_")
+    tmp_dir=tmp.name
 
     if fvc2fp is None :
         fvc2fp = FVC2FP.read(fvc2fp_filename())
@@ -377,6 +379,7 @@ def spotmatch(xpix,ypix,expected_x_fp=None,expected_y_fp=None,expected_location=
             err.append(float(vals[5]))
             device_type.append(vals[6])
     print("read {} entries in {}".format(len(xpix),match_centers_filename))
+    tmp.cleanup()
 
     res=Table()
     res["LOCATION"]=location
-- 
2.43.0


From cb58509a08e4a78be6f261ddc4bd392175a4f809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 07/60] fix: fit tangent plane and cartesian corrections of any
 rotation

The scales were divided by the sine and cosine of the rotation, and SimpleCorr
kept the rotation of an earlier fit when the new one was null.
---
 py/desimeter/fieldmodel.py |  7 ++++---
 py/desimeter/simplecorr.py | 16 ++++++----------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 6fce584..09ea4a8 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -423,9 +423,10 @@ class TanCorr(object):
 
         self.rot_deg = arctan2d(sa,ca)
 
-        sxy = sa*ax[1]+ca*ay[1] - sxx_p_syy*ca*sa
-        sxx =(ax[1]-sxy*sa)/ca
-        syy = (ay[1]-sxy*ca)/sa
+        # no division by sa or ca because either can be null
+        sxx = ax[1]*ca - ax[2]*sa
+        sxy = ax[1]*sa + ax[2]*ca
+        syy = ay[1]*sa + ay[2]*ca
 
         self.sxx = sxx
         self.syy = syy
diff --git a/py/desimeter/simplecorr.py b/py/desimeter/simplecorr.py
index 64f9c01..f1b0710 100644
--- a/py/desimeter/simplecorr.py
+++ b/py/desimeter/simplecorr.py
@@ -135,16 +135,12 @@ class SimpleCorr(object):
         sa=(ay[1]-ax[2])/sxx_p_syy
         ca=(ax[1]+ay[2])/sxx_p_syy
 
-        if sa != 0 :
-            self.rot_deg = arctan2d(sa,ca)
-
-            sxy = sa*ax[1]+ca*ay[1] - sxx_p_syy*ca*sa
-            sxx =(ax[1]-sxy*sa)/ca
-            syy = (ay[1]-sxy*ca)/sa
-        else :
-            sxx = ax[1]
-            syy = ay[2]
-            sxy = ax[2]
+        self.rot_deg = arctan2d(sa,ca)
+
+        # no division by sa or ca because either can be null
+        sxx = ax[1]*ca - ax[2]*sa
+        sxy = ax[1]*sa + ax[2]*ca
+        syy = ay[1]*sa + ay[2]*ca
         self.sxx = sxx
         self.syy = syy
         self.sxy = sxy
-- 
2.43.0


From d189b5b39f38a534388fa78e82dc406e61b19a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 08/60] fix: read back the json of TanCorr and SimpleCorr

fromjson rejected the name that tojson writes.
---
 py/desimeter/fieldmodel.py | 2 +-
 py/desimeter/simplecorr.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 09ea4a8..c17610c 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -338,7 +338,7 @@ class TanCorr(object):
     def fromjson(cls, jsonstring):
         tx = cls()
         params = json.loads(jsonstring)
-        assert params['name'] == "Tangent Plane Adjustment"
+        assert params['name'] == "Tangent Plane Correction"
         assert params['version'] == '1'
         tx.dha = params['dha']
         tx.ddec = params['ddec']
diff --git a/py/desimeter/simplecorr.py b/py/desimeter/simplecorr.py
index f1b0710..8f6505b 100644
--- a/py/desimeter/simplecorr.py
+++ b/py/desimeter/simplecorr.py
@@ -36,7 +36,7 @@ class SimpleCorr(object):
     def fromjson(cls, jsonstring):
         tx = cls()
         params = json.loads(jsonstring)
-        assert params['name'] == "Tangent Plane Adjustment"
+        assert params['name'] == "Simple Correction"
         assert params['version'] == '1'
         tx.dx = params['dx']
         tx.dy = params['dy']
-- 
2.43.0


From 823dc0fd6af3e3fe0f4d927cba02d4f8f24d6ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 09/60] fix: save the astrometry options of a field model in
 its json

A model fit without precession, aberration or polar misalignment correction
gave other coordinates once read back.
---
 py/desimeter/fieldmodel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index c17610c..0007d2b 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -59,6 +59,9 @@ class FieldModel(object):
         params['expid']=self.expid
         params['nstars'] = self.nstars
         params['rms_arcsec'] = self.rms_arcsec
+        params['precession'] = self.precession
+        params['aberration'] = self.aberration
+        params['polar_misalignment'] = self.polar_misalignment
         return json.dumps(params)
 
     @classmethod
@@ -83,6 +86,10 @@ class FieldModel(object):
         tx.expid = params['expid']
         tx.nstars = params['nstars']
         tx.rms_arcsec = params['rms_arcsec']
+        # not in older files
+        tx.precession = params.get('precession',True)
+        tx.aberration = params.get('aberration',True)
+        tx.polar_misalignment = params.get('polar_misalignment',True)
         return tx
 
     def read_guide_stars_catalog(self,filename,max_sep_arcsec = 2.) :
-- 
2.43.0


From 7dca8626640ed74e451f1c0be7d8a8da0441090d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 10/60] fix: format the debug message of findfiducials

---
 py/desimeter/findfiducials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/findfiducials.py b/py/desimeter/findfiducials.py
index 95cec6e..4b00600 100644
--- a/py/desimeter/findfiducials.py
+++ b/py/desimeter/findfiducials.py
@@ -66,7 +66,7 @@ def findfiducials(spots,input_transform=None,pinhole_max_separation_mm=1.5) :
     measured_spots_distances,measured_spots_indices = tree.query(xy,k=4,distance_upper_bound=pinhole_max_separation_pixels)
     number_of_neighbors = np.sum( measured_spots_distances<pinhole_max_separation_pixels,axis=1)
     fiducials_candidates_indices = np.where(number_of_neighbors>=4)[0]  # including self, so at least 3 pinholes
-    log.debug("number of fiducials=",fiducials_candidates_indices.size)
+    log.debug("number of fiducials={}".format(fiducials_candidates_indices.size))
 
     # match candidates to fiducials from metrology
     log.info("first match {} fiducials candidates to metrology ({}) with iterative fit".format(fiducials_candidates_indices.size,len(metrology_fiducials)))
-- 
2.43.0


From 33f92a32d8bfa1fcf09493c79d92f68c1f6baf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 11/60] fix: locate the table of nominal positioner locations

load_nominal_positioner_locations called an undefined function.
---
 py/desimeter/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/io.py b/py/desimeter/io.py
index a19013c..f3e0d4e 100644
--- a/py/desimeter/io.py
+++ b/py/desimeter/io.py
@@ -68,7 +68,7 @@ def fvc_bias_filename():
     return os.path.join(desimeter_data_dir(),'bias.fits')
 
 def load_nominal_positioner_locations():
-    directory = resource_filename('desimeter', 'data')
+    directory = desimeter_data_dir()
     filename = 'positioner_locations_0530v18.csv'
     path = os.path.join(directory, filename)
     table = Table.read(path)
-- 
2.43.0


From 0bccf90dc866dbd08e0e6af7b366673a49581cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 12/60] fix: ignore the light at the very edge of FVC images

A peak within 3 pixels of the edge made the centroid fit fail, and with it the
detection of all spots of the image, or gave it a wrong position.
---
 py/desimeter/detectspots.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/detectspots.py b/py/desimeter/detectspots.py
index b121d18..f73c644 100644
--- a/py/desimeter/detectspots.py
+++ b/py/desimeter/detectspots.py
@@ -175,6 +175,12 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
                         (convolved_image[1:-1,1:-1]  > convolved_image[1:-1,:-2]) *
                         (convolved_image[1:-1,1:-1]  > convolved_image[1:-1,2:]) *
                         (convolved_image[1:-1,1:-1]>threshold))
+    # the centroid fit needs a stamp of half width hw inside of the image
+    hw=3
+    peaks[:hw]=0
+    peaks[-hw:]=0
+    peaks[:,:hw]=0
+    peaks[:,-hw:]=0
     # loop on peaks
     peakindices=np.where(peaks.ravel()>0)[0]
     npeak=len(peakindices)
@@ -191,7 +197,6 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
     xerr=np.zeros(npeak)
     yerr=np.zeros(npeak)
     counts=np.zeros(npeak)
-    hw=3
 
     xoffset=0. # would need offsets of 1 to match with POS file. not sure what is the best choice here.
     yoffset=0.
-- 
2.43.0


From 7e4dca224f561bd9529c9892c2f913c8a401ed99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 13/60] fix: undo_refraction does not change the array of the
 caller

---
 py/desimeter/transform/radec2tan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/transform/radec2tan.py b/py/desimeter/transform/radec2tan.py
index e1db337..06324ee 100644
--- a/py/desimeter/transform/radec2tan.py
+++ b/py/desimeter/transform/radec2tan.py
@@ -311,7 +311,7 @@ def undo_refraction(alt) :
     for _ in range(2) :
         da   = apply_refraction(alt) - alt
         dda  = da-daprev
-        alt -= dda
+        alt = alt - dda # do not change the array of the caller
         daprev = da
     return alt
 
-- 
2.43.0


From 2a5b45b157bcb636215f5c2fc9b9e61060399f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 14/60] fix: convert Z to R and S on the nominal focal surface

---
 py/desimeter/transform/rszn_lookups.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/transform/rszn_lookups.py b/py/desimeter/transform/rszn_lookups.py
index 9edd713..ec7bbf7 100644
--- a/py/desimeter/transform/rszn_lookups.py
+++ b/py/desimeter/transform/rszn_lookups.py
@@ -47,7 +47,8 @@ def r2z(r):
 
 def z2r(z):
     '''Convert z (mm) to r (mm) on a nominal Echo22 focal surface.'''
-    return np.interp(z, Z, R, left=oob, right=oob)
+    # Z decreases with R, and np.interp needs increasing values
+    return np.interp(-np.asarray(z), -Z, R, left=oob, right=oob)
 
 def r2n(r):
     '''Convert r (mm) to n (deg) on a nominal Echo22 focal surface.'''
-- 
2.43.0


From 6393697db19a95f8cda91ed17ce2d76844150174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:38 +0000
Subject: [PATCH 15/60] fix: always write the log file requested from
 get_logger

A logger of the same level already configured (modules do it at import) ignored
the path, and two threads could configure the same logger twice such that each
message was printed twice.
---
 py/desimeter/log.py | 67 +++++++++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 30 deletions(-)

diff --git a/py/desimeter/log.py b/py/desimeter/log.py
index 332bca7..0cb214f 100644
--- a/py/desimeter/log.py
+++ b/py/desimeter/log.py
@@ -1,9 +1,12 @@
 import os
 import logging
+import threading
 
 #- subset of desiutil.log.get_logger, to avoid desiutil dependency
 
 _loggers = dict()
+_lock = threading.Lock()
+
 def get_logger(level=None, path=None, timestamps=False):
     '''Returns a logger, which can be used like logger.info('some message') etc.
 
@@ -33,41 +36,45 @@ def get_logger(level=None, path=None, timestamps=False):
     else:
         raise ValueError('Unknown log level {}; should be DEBUG/INFO/WARNING/ERROR/CRITICAL'.format(level))
 
-    if level not in _loggers:
-        logger = logging.getLogger('desimeter.'+level)
-        logger.setLevel(loglevel)
+    with _lock: # calls of other threads do not see a logger half configured
 
-        #- handler and formatter code adapted from
-        #- https://docs.python.org/3/howto/logging.html#configuring-logging
+        if level not in _loggers:
+            logger = logging.getLogger('desimeter.'+level)
+            logger.setLevel(loglevel)
 
-        # create console handler and set level to debug
-        ch = logging.StreamHandler()
-        ch.setLevel(loglevel)
+            #- handler and formatter code adapted from
+            #- https://docs.python.org/3/howto/logging.html#configuring-logging
 
-        # optionally create file handler, similarly
-        if path:
-            fh = logging.FileHandler(filename=path, mode='a', encoding='utf-8')
-            fh.setLevel(loglevel)
-        else:
-            fh = None
+            # create console handler and set level to debug
+            ch = logging.StreamHandler()
+            ch.setLevel(loglevel)
+            ch.setFormatter(_formatter(timestamps))
 
-        # create formatter
-        kwargs = {'fmt': '%(levelname)s:%(filename)s:%(lineno)s:%(funcName)s:%(message)s'}
-        if timestamps:
-            kwargs['fmt'] = '%(asctime)s:' + kwargs['fmt']
-            kwargs['datefmt'] = '%Y%m%dT%H%M%S%z'
-        formatter = logging.Formatter(**kwargs)
+            # add handler to logger
+            logger.addHandler(ch)
+
+            _loggers[level] = logger
 
-        # add formatter to ch
-        ch.setFormatter(formatter)
-        if fh:
-            fh.setFormatter(formatter)
+        logger = _loggers[level]
 
-        # add handlers to logger
-        logger.addHandler(ch)
-        if fh:
-            logger.addHandler(fh)
+        # optionally create file handler, similarly (also if the logger already exists)
+        if path:
+            path = os.path.abspath(path)
+            if path not in [h.baseFilename for h in logger.handlers if isinstance(h, logging.FileHandler)]:
+                fh = logging.FileHandler(filename=path, mode='a', encoding='utf-8')
+                fh.setLevel(loglevel)
+                fh.setFormatter(_formatter(timestamps))
+                logger.addHandler(fh)
+
+        if timestamps:
+            for h in logger.handlers:
+                h.setFormatter(_formatter(timestamps))
 
-        _loggers[level] = logger
+    return logger
 
-    return _loggers[level]
+def _formatter(timestamps):
+    kwargs = {'fmt': '%(levelname)s:%(filename)s:%(lineno)s:%(funcName)s:%(message)s'}
+    if timestamps:
+        kwargs['fmt'] = '%(asctime)s:' + kwargs['fmt']
+        kwargs['datefmt'] = '%Y%m%dT%H%M%S%z'
+    return logging.Formatter(**kwargs)
-- 
2.43.0


From df9cc15811e216f8259b811b7e27abb3bc6e9b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:34 +0000
Subject: [PATCH 16/60] fix: fit_params and fithandler keep no EPSILON keys
 from one positioner to the next

output_keys, default_bounds and the nominals given by the caller were modified by each
fit; the EPSILON_T_1 key was matched as a substring of EPSILON_T_10, so that a positioner
with more than ten sequences of moves (or following one in the same process) failed.
---
 py/desimeter/posparams/fithandler.py | 20 +++++++++++---------
 py/desimeter/posparams/fitter.py     |  3 +++
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/py/desimeter/posparams/fithandler.py b/py/desimeter/posparams/fithandler.py
index 5cb6e72..47fab00 100644
--- a/py/desimeter/posparams/fithandler.py
+++ b/py/desimeter/posparams/fithandler.py
@@ -357,7 +357,8 @@ def _process_cases(table, cases, mode, param_nominals, printf=print,outlier_reje
     '''
     table.sort('DATE_SEC') # to ensure consistent ordering as in _define_cases
     posid = _get_posid(table)
-    output = {col:[] for col in output_keys}
+    variable_keys = dict(output_keys) # local copy, the EPSILON keys of this positioner are added to it
+    output = {col:[] for col in variable_keys}
     # add covariances
     fitted_keys=list(fitter.static_keys)+list(fitter.dynamic_keys)
     for i1,col1 in enumerate(list(fitted_keys)) :
@@ -404,8 +405,9 @@ def _process_cases(table, cases, mode, param_nominals, printf=print,outlier_reje
                 #print("warning adding key={} which was not in fitted_keys={}".format(key,fitted_keys))
                 fitted_keys.append(key)
                 if key not in output.keys() :
-                    output[key] = list()
-                    output_keys[key]=True
+                    # earlier analysis cases did not need this key
+                    output[key] = [0.]*(len(output['POS_ID'])-1)
+                    variable_keys[key]=True
 
         for i1,key1 in enumerate(fitted_keys):
             if key1 in params.keys() :
@@ -466,12 +468,12 @@ def _process_cases(table, cases, mode, param_nominals, printf=print,outlier_reje
                 table[ekey]=np.sqrt(table[ekey])
 
     if True :  # adding _STATIC or _DYNAMIC to the parameters and covariance
-        for key in output_keys :
-            if output_keys[key] :
-                for key2 in table.dtype.names :
-                    if key2.find(key)>=0 :
-                        key2_xxx=key2.replace(key,key + _mode_suffix(mode))
-                        table.rename_column(key2,key2_xxx)
+        # names are like KEY, ERR.KEY, or COV.KEY1.KEY2
+        for name in table.dtype.names :
+            new_name = '.'.join([key + _mode_suffix(mode) if variable_keys.get(key) else key
+                                 for key in name.split('.')])
+            if new_name != name :
+                table.rename_column(name,new_name)
 
     return table
 
diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index b1bead3..0358624 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -120,6 +120,9 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
         nominals = default_values
     if bounds is None:
         bounds = default_bounds
+    # work on copies, entries are added or changed below
+    nominals = dict(nominals)
+    bounds = dict(bounds)
     if keep_fixed is None:
         keep_fixed = []
     # arg checking
-- 
2.43.0


From 649974a470e136efa1bfa2de80ca4a816221d381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:34 +0000
Subject: [PATCH 17/60] fix: fit_params with outlier rejection flags failed
 fits and counts the remaining points

movemask has no FIT_FAILED bit (KeyError), and the rms of residuals was divided by the number
of points before rejection.
---
 py/desimeter/posparams/fitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index 0358624..f4fd9c4 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -382,11 +382,12 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
             measured_p_int_0 = np.delete(measured_p_int_0,worst)
 
         npts=x_flat.size
+        n_pts=npts # used to compute the rms of residuals
         npar=len(initial_params)
         if npts<npar :
             message="ERROR: not enough remaining points ({} points) to fit calibration ({} params)".format(npts,npar)
             print(message)
-            flags |= movemask['FIT_FAILED']
+            flags |= movemask['FAILED_FIT']
             best_params = {"FLAGS": flags}
             covariance_dict = dict()
             rms_of_residuals = 0.
-- 
2.43.0


From 4ca6854fd59cf05df9808670158763861a5943c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:34 +0000
Subject: [PATCH 18/60] fix: windows of a single period of data start at their
 own first point

All windows started at the first point of the data, and were one point too wide when padded backwards.
---
 py/desimeter/posparams/fithandler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/posparams/fithandler.py b/py/desimeter/posparams/fithandler.py
index 47fab00..4a033c5 100644
--- a/py/desimeter/posparams/fithandler.py
+++ b/py/desimeter/posparams/fithandler.py
@@ -303,15 +303,15 @@ def _define_cases(table, datum_dates, data_window, printf=print):
         for istart in range(0, num_moves, data_window):
             ifinal = min(len(table)-1, istart+data_window-1)
             #- check if window is smaller than requested
-            if (ifinal-istart < data_window):
+            if (ifinal-istart+1 < data_window):
                 if istart == 0:
                     #- even one window is smaller than requested
                     print(f'WARNING: total num_moves {num_moves} < data_window {data_window}')
                 else:
                     #- pad backwards, overlapping with previous window
-                    istart = ifinal - data_window
+                    istart = ifinal - data_window + 1
 
-            cases.append(dict(start_idx=0, final_idx=ifinal))
+            cases.append(dict(start_idx=istart, final_idx=ifinal))
 
         printf(f'{posid}: {len(cases):5d} analysis cases defined')
         return cases
-- 
2.43.0


From b084a9d35fcb818bf79536cf5a218eaeec59fd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:28 +0000
Subject: [PATCH 19/60] fix: fit_posparams reports the positioners which could
 not be fit

Exceptions raised in the worker processes were silently dropped; with -np 1 the first one
stopped the fits of all other positioners. Exit with an error code if any positioner failed.
---
 bin/fit_posparams | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/bin/fit_posparams b/bin/fit_posparams
index 7330780..5c6401b 100755
--- a/bin/fit_posparams
+++ b/bin/fit_posparams
@@ -61,6 +61,7 @@ parser.add_argument('--outlier-rejection', action='store_true',
 args = parser.parse_args()
 
 # proceed with the rest
+import functools
 import os
 import sys
 import multiprocessing
@@ -102,6 +103,10 @@ else:
         pass
 
 if __name__ == '__main__':
+    failed = []
+    def report_failure(posid, error):
+        print(f'ERROR: {posid}: {type(error).__name__}: {error}')
+        failed.append(posid)
     print(f'Now processing {len(csv_files)} csv data files...')
     with multiprocessing.Pool(processes=args.n_processes_max) as pool:
         for posid, path in csv_files.items():
@@ -117,12 +122,20 @@ if __name__ == '__main__':
                       'outlier_rejection':args.outlier_rejection
                       }
             if args.n_processes_max == 1:
-                logstr = fithandler.run_best_fits(**kwargs)
+                try:
+                    logstr = fithandler.run_best_fits(**kwargs)
+                except Exception as error:
+                    report_failure(posid, error)
+                    continue
                 print(logstr)
             else:
                 pool.apply_async(fithandler.run_best_fits,
                                  kwds=kwargs,
-                                 callback=print)
+                                 callback=print,
+                                 error_callback=functools.partial(report_failure, posid))
         pool.close()
         pool.join()
+    if failed:
+        print(f'ERROR: no result for {len(failed)} positioners: {sorted(failed)}')
+        sys.exit(1)
     print('Complete.')
-- 
2.43.0


From 56bfda0df1e4d39e0dd0524a0b723af20cc7fd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 20/60] fix: merge_posparams gives failed positioners their
 location and reports mismatches

Positioners with a failed fit have no DEVICE_LOC in their table and got a random LOCATION.
The result of the check of the indices against metrology was not used.
---
 bin/merge_posparams | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/bin/merge_posparams b/bin/merge_posparams
index e96a59d..aae3ed1 100755
--- a/bin/merge_posparams
+++ b/bin/merge_posparams
@@ -71,7 +71,8 @@ for table in tables :
 posparams = vstack(tables)
 if "LOCATION" not in posparams.dtype.names :
     if "PETAL_LOC" in posparams.dtype.names and "DEVICE_LOC" in posparams.dtype.names :
-        posparams["LOCATION"]=1000*np.array(list(posparams["PETAL_LOC"])).astype(int)+np.array(list(posparams["DEVICE_LOC"])).astype(int)
+        # masked for the positioners without PETAL_LOC and DEVICE_LOC in their table (failed fits)
+        posparams["LOCATION"]=1000*posparams["PETAL_LOC"].astype(int)+posparams["DEVICE_LOC"].astype(int)
 
 device_id_key="DEVICE_ID"
 if not device_id_key in posparams.dtype.names : # add device id because that's how it's called elsewhere in the code
@@ -81,7 +82,8 @@ if not device_id_key in posparams.dtype.names : # add device id because that's h
     sys.exit(12)
 
 
-if "DEVICE_LOC" not in posparams.dtype.names and (not args.no_metrology) :
+has_device_loc = "DEVICE_LOC" in posparams.dtype.names
+if (not args.no_metrology) and (not has_device_loc or np.any(np.ma.getmaskarray(posparams["DEVICE_LOC"]))) :
     # merge metrology info
 
     metrology = desimeter.io.load_metrology()
@@ -89,12 +91,14 @@ if "DEVICE_LOC" not in posparams.dtype.names and (not args.no_metrology) :
     npos=len(posparams)
     keys = ["LOCATION","DEVICE_LOC","PETAL_LOC","PETAL_ID"]
     for k in keys :
-        posparams[k]=-1*np.ones(npos,dtype=int)
-    for j,pid in enumerate(posparams[device_id_key]) :
-        if pid in pid2ind :
-            i=pid2ind[pid]
-            for k in keys :
-                posparams[k][j]=metrology[k][i]
+        if not has_device_loc or k not in posparams.dtype.names :
+            posparams[k]=-1*np.ones(npos,dtype=int)
+            missing=np.ones(npos,dtype=bool)
+        else :
+            missing=np.ma.getmaskarray(posparams[k]).copy()
+        for j in np.where(missing)[0] :
+            pid=posparams[device_id_key][j]
+            posparams[k][j]=metrology[k][pid2ind[pid]] if pid in pid2ind else -1
 
 if not args.no_check and not args.no_metrology :
 
@@ -110,7 +114,7 @@ if not args.no_check and not args.no_metrology :
         for k in ["DEVICE_LOC","LOCATION","PETAL_LOC","PETAL_ID"] :
             if posparams[k][j] != metrology[k][i] :
                 log.error("for {}={} {}={} != {} from metrology".format(device_id_key,pid,k,posparams[k][j],metrology[k][i]))
-                has_errors = True
+                has_error = True
     if has_error :
         sys.exit(12)
 
-- 
2.43.0


From 8bc9e49e7897f1e61ba49199299cfec4ac81adbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 21/60] fix: pointing correction of TanCorr.fit for stars off
 axis in a rotated field

---
 py/desimeter/fieldmodel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 0007d2b..f72fcb4 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -410,8 +410,10 @@ class TanCorr(object):
         # increasing gaia stars x means telescope is more to the left so tel_ha should be decreased
         # increasing gaia stars y means telescope is more to the bottom so tel_dec should be decreased
         # tangent plane coordinates are in rad
-        ddha  = -np.rad2deg(ax[0])
-        dddec = -np.rad2deg(ay[0])
+        # the pointing offset is applied before the rotation and dilatation
+        offset = np.linalg.solve(np.array([ax[1:],ay[1:]]),np.array([ax[0],ay[0]]))
+        ddha  = -np.rad2deg(offset[0])
+        dddec = -np.rad2deg(offset[1])
 
         self.dha  += ddha
         self.ddec += dddec
-- 
2.43.0


From 933ec38fe14393d68cc2a70eb08c744767ab4f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 22/60] fix: keep guide stars of unknown proper motion read
 from FITS catalogs

---
 py/desimeter/fieldmodel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index f72fcb4..489e041 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -117,9 +117,9 @@ class FieldModel(object):
                 raise RuntimeError("Cannot compute proper motion correction because mjd=None")
 
             # if proper motions and reference epochs are there
-            pmra = catalog['pmra']
-            pmdec = catalog['pmdec']
-            # if unknown, zero out the pms
+            # if unknown (not finite or masked), zero out the pms
+            pmra = np.array(np.ma.filled(catalog['pmra'],0),dtype=float)
+            pmdec = np.array(np.ma.filled(catalog['pmdec'],0),dtype=float)
             pmra[~np.isfinite(pmra)] = 0
             pmdec[~np.isfinite(pmdec)] = 0
 
-- 
2.43.0


From 754c19c691e9e4ee8395f982d2d49f041eb684c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 23/60] fix: no field model from less than three guide stars

---
 py/desimeter/fieldmodel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 489e041..bccc55f 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -205,6 +205,11 @@ class FieldModel(object):
         ra_gaia  = ra_gaia[selection]
         dec_gaia = dec_gaia[selection]
 
+        if x_fp.size < 3 :
+            message = "cannot fit a field model with only {} guide star(s)".format(x_fp.size)
+            log.error(message)
+            raise RuntimeError(message)
+
         # transform focal plane to tangent plane
         x_tan_meas,y_tan_meas = fp2tan(x_fp,y_fp,self.adc1,self.adc2)
 
-- 
2.43.0


From b412a73c9c1f5d2ec0b53d427dd0f280796d581d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 24/60] fix: average_coordinates does not modify the table of
 the caller

---
 py/desimeter/averagecoord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/averagecoord.py b/py/desimeter/averagecoord.py
index 225791f..93e1dd3 100644
--- a/py/desimeter/averagecoord.py
+++ b/py/desimeter/averagecoord.py
@@ -22,7 +22,7 @@ def average_coordinates(tables,xkey,ykey) :
         x2=np.array(table[xkey])
         y2=np.array(table[ykey])
         if x1 is None :
-            table1=table
+            table1=table.copy()
             x1=x2
             y1=y2
             indices=np.arange(len(x1),dtype=int)
-- 
2.43.0


From 95233acf5107fa788070219397990c833f3cfda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:01 +0000
Subject: [PATCH 25/60] fix: continue the fit of positioner parameters when the
 optimizer stops early

---
 py/desimeter/posparams/fitter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index f4fd9c4..d58040b 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -350,6 +350,15 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
                                                    x0=initial_params,
                                                    bounds=bounds_vector)
 
+        # the optimizer can stop early in a narrow valley, continue as long as it helps
+        for _ in range(5) :
+            continued_result = scipy.optimize.minimize(fun=compute_chi2,
+                                                       x0=optimizer_result.x,
+                                                       bounds=bounds_vector)
+            if not continued_result.fun < 0.9*optimizer_result.fun :
+                break
+            optimizer_result = continued_result
+
         x_exp, y_exp = expected_xy(optimizer_result.x)
         dist = np.sqrt( (x_exp - x_flat)**2 + (y_exp - y_flat)**2 )
         meddist = np.median(dist)
-- 
2.43.0


From 33c7c0fb604adb6283f997c5f1322c1f054e6e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:01 +0000
Subject: [PATCH 26/60] fix: fit after outlier rejection does not fall back to
 a worse minimum

---
 py/desimeter/posparams/fitter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index d58040b..674bbcd 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -345,11 +345,18 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
     initial_params = [nominals[key] for key in params_to_fit]
     bounds_vector = [bounds[key] for key in params_to_fit]
     # with fun = chi2 , then covariance = inverse of hessian * 2
+    previous_params = None
     for _ in range(20) :
         optimizer_result = scipy.optimize.minimize(fun=compute_chi2,
                                                    x0=initial_params,
                                                    bounds=bounds_vector)
 
+        # the fit after an outlier rejection is not worse than the one before it
+        if previous_params is not None and compute_chi2(previous_params) < optimizer_result.fun :
+            optimizer_result = scipy.optimize.minimize(fun=compute_chi2,
+                                                       x0=previous_params,
+                                                       bounds=bounds_vector)
+
         # the optimizer can stop early in a narrow valley, continue as long as it helps
         for _ in range(5) :
             continued_result = scipy.optimize.minimize(fun=compute_chi2,
@@ -358,6 +365,7 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
             if not continued_result.fun < 0.9*optimizer_result.fun :
                 break
             optimizer_result = continued_result
+        previous_params = optimizer_result.x
 
         x_exp, y_exp = expected_xy(optimizer_result.x)
         dist = np.sqrt( (x_exp - x_flat)**2 + (y_exp - y_flat)**2 )
-- 
2.43.0


From 63d1ad2f90e873208e55fcd44220ce2c2667625c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 27/60] fix: get_posmoves --pos-ids movers exports the
 positioners which moved

---
 bin/get_posmoves | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/get_posmoves b/bin/get_posmoves
index f9c8036..d6b4776 100755
--- a/bin/get_posmoves
+++ b/bin/get_posmoves
@@ -75,7 +75,7 @@ if args.enabled_history:
 else:
     desired_fields = {'moves': '*', 'calib': '*'}
 
-if args.pos_ids is not None :
+if args.pos_ids is not None and args.pos_ids != 'movers' :
     only_posids = args.pos_ids.split(",")
 else :
     only_posids = None
-- 
2.43.0


From f89ce022d5b28a308790ed8743d1df7b6adeb954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 28/60] fix: get_posmoves --enabled-history without
 --tp-updates

---
 bin/get_posmoves | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/get_posmoves b/bin/get_posmoves
index d6b4776..cfa5a11 100755
--- a/bin/get_posmoves
+++ b/bin/get_posmoves
@@ -212,7 +212,7 @@ for petalid in petalids :
             otable = otable[selection]
 
         # remove non measured entries
-        if not args.tp_updates:
+        if not args.tp_updates and "X_FP" in otable.colnames:
             ok=(otable["X_FP"] != None)
             otable=otable[ok]
 
-- 
2.43.0


From 44c1833b64372ef086ac55fda4fa483c4d349f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 29/60] fix: get_posparams ends with status zero on success

---
 bin/get_posparams | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/bin/get_posparams b/bin/get_posparams
index c2a19f9..6a5881b 100755
--- a/bin/get_posparams
+++ b/bin/get_posparams
@@ -95,6 +95,3 @@ for name in results.keys() :
     table[name]=results[name]
 table.write(args.outfile,overwrite=True)
 print("wrote",args.outfile)
-
-
-sys.exit(12)
-- 
2.43.0


From 501561a9fc8853539a5142796ce60ac182fbedbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 30/60] fix: get_poscoords uses the calibration at the time of
 each row

---
 bin/get_poscoords | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bin/get_poscoords b/bin/get_poscoords
index 3d2c70d..281f0c8 100755
--- a/bin/get_poscoords
+++ b/bin/get_poscoords
@@ -91,11 +91,10 @@ for petalid in petalids :
             if k not in posmoves :
                 posmoves[k]=np.zeros(npos)
 
-        for t in tstamp_posmovedb :
-            j=np.where(tstamp_calib<t)[0][-1]
-            for k in calib.keys() :
-                if k == 'time_recorded' : continue
-                posmoves[k][postableindex] = calib[k][j]
+        j=np.where(tstamp_calib<tstamp_posmovedb[postableindex])[0][-1]
+        for k in calib.keys() :
+            if k == 'time_recorded' : continue
+            posmoves[k][postableindex] = calib[k][j]
 
     # by default convert keys to upper case,
     # but with special cases (of course),
-- 
2.43.0


From 7ae375fc9642120890bc39245149a23d735534f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 31/60] fix: get_poscoords merges petals with missing values in
 some of them

---
 bin/get_poscoords | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bin/get_poscoords b/bin/get_poscoords
index 281f0c8..3084da1 100755
--- a/bin/get_poscoords
+++ b/bin/get_poscoords
@@ -3,7 +3,7 @@
 import os
 import psycopg2
 import numpy as np
-from astropy.table import Table,vstack
+from astropy.table import Table,vstack,Column
 import argparse
 import time
 start_time = time.time()
@@ -118,6 +118,11 @@ for petalid in petalids :
     if otable is None :
         otable = table
     else :
+        # a column may have missing values (None) for only some of the petals
+        for k in table.colnames :
+            if k in otable.colnames and (table[k].dtype==object) != (otable[k].dtype==object) :
+                for t in (otable,table) :
+                    t[k] = Column(t[k].tolist(), dtype=object)
         otable = vstack([otable,table])
 
 # now compute expected positions
-- 
2.43.0


From e208688cec351e12d7391b416faf2b2cb1d09248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 32/60] fix: get_posmoves_with_fvc_data_using_dates keeps the
 FVC times for the next petals

---
 bin/get_posmoves_with_fvc_data_using_dates | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bin/get_posmoves_with_fvc_data_using_dates b/bin/get_posmoves_with_fvc_data_using_dates
index 45164da..c55c5b1 100755
--- a/bin/get_posmoves_with_fvc_data_using_dates
+++ b/bin/get_posmoves_with_fvc_data_using_dates
@@ -111,8 +111,8 @@ for petalid in petalids :
             #dmt_deltat[i]=tstamp_fvc[j[0]]-tstamp[i]
         else :
             dmt_index[i]=len(dmt)-1
-    tstamp_fvc=tstamp_fvc[dmt_index]
-    dmt_deltat=tstamp_fvc+args.clock_offset-tstamp_posmovedb
+    matched_tstamp_fvc=tstamp_fvc[dmt_index]
+    dmt_deltat=matched_tstamp_fvc+args.clock_offset-tstamp_posmovedb
     selection = np.where((dmt_deltat>=0)&(dmt_deltat<=args.deltat_max))[0] # FVC image less than n seconds after move
     print("number of matched FVC images= {}".format(len(selection)))
     #selected_date=date[selection]
@@ -144,7 +144,7 @@ for petalid in petalids :
                 kk=np.where(dmt_xytable["LOCATION"]==loc)[0]
                 if kk.size>0 :
                     posid_tstamp_posmovedb[posid].append(tstamp_posmovedb[i])
-                    posid_tstamp_fvc[posid].append(tstamp_fvc[i])
+                    posid_tstamp_fvc[posid].append(matched_tstamp_fvc[i])
                     posid_deltat[posid].append(dmt_deltat[i])
                     posid_x_dmt[posid].append(dmt_xytable["X_FP"][kk[0]])
                     posid_y_dmt[posid].append(dmt_xytable["Y_FP"][kk[0]])
@@ -197,7 +197,7 @@ for petalid in petalids :
         x_dmt = posid_x_dmt[posid][jj]
         y_dmt = posid_y_dmt[posid][jj]
         deltat = posid_deltat[posid][jj]
-        tstamp_fvc = posid_tstamp_fvc[posid][jj]
+        pos_tstamp_fvc = posid_tstamp_fvc[posid][jj]
 
         if not args.nocalib :
 
@@ -243,7 +243,7 @@ for petalid in petalids :
         ot["Y_FP"]  = y_dmt[jj]
         ot["DELTAT"]  = deltat[jj]
         ot["TSTAMP_POSMOVE"]  = tstamp_posmovedb[jj]
-        ot["TSTAMP_FVC"]  = tstamp_fvc[jj]
+        ot["TSTAMP_FVC"]  = pos_tstamp_fvc[jj]
 
         if not os.path.isdir(args.outdir) :
             os.makedirs(args.outdir)
-- 
2.43.0


From 4923fced36f1f38e9c479814a37d2af36bdfc709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 33/60] fix: get_posmoves_with_fvc_data does not reuse an
 incomplete table of FVC spots

---
 bin/get_posmoves_with_fvc_data | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bin/get_posmoves_with_fvc_data b/bin/get_posmoves_with_fvc_data
index 3f086ac..c538f37 100755
--- a/bin/get_posmoves_with_fvc_data
+++ b/bin/get_posmoves_with_fvc_data
@@ -99,7 +99,9 @@ for num,fits_filename in enumerate(fvc_images_table["FITS_FILE"]):
         fvc_data_filenames.append(data_filename)
         continue
     #print("need to process ",data_filename)
-    cmd="desi_fvc_proc -i {} -o {}".format(fits_filename,data_filename)
+    # give the file its name only when it is complete
+    tmp_filename = os.path.join(args.fvc_data_dir,"tmp-"+os.path.basename(data_filename))
+    cmd="desi_fvc_proc -i {} -o {}".format(fits_filename,tmp_filename)
     if args.fvc_proc_options is not None :
        cmd+=" "+args.fvc_proc_options
     print(cmd)
@@ -109,6 +111,7 @@ for num,fits_filename in enumerate(fvc_images_table["FITS_FILE"]):
         fvc_data_filenames.append("none")
         continue
     else :
+        os.rename(tmp_filename,data_filename)
         fvc_data_filenames.append(data_filename)
 fvc_images_table["DATA_FILE"]=fvc_data_filenames
 selection=(fvc_images_table["DATA_FILE"]!="none")
-- 
2.43.0


From ab3a3025cc0564ebe7c373868ca446f86b7a1b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 34/60] fix: get_posmoves_with_fvc_data --pos-ids does not
 empty the files of other petals

---
 bin/get_posmoves_with_fvc_data | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bin/get_posmoves_with_fvc_data b/bin/get_posmoves_with_fvc_data
index c538f37..08634bb 100755
--- a/bin/get_posmoves_with_fvc_data
+++ b/bin/get_posmoves_with_fvc_data
@@ -150,10 +150,10 @@ print("now look at the posmoves in the DB")
 
 for petalid in petalids :
 
+    posids = get_pos_ids(comm, petalid)
     if args.pos_ids is not None :
-        posids = args.pos_ids.split(",")
-    else :
-        posids = get_pos_ids(comm, petalid)
+        # only those of this petal, to keep the files of the positioners of other petals
+        posids = np.intersect1d(posids,args.pos_ids.split(","))
 
     petal_loc = get_petal_loc(petalid)
 
-- 
2.43.0


From d60f79f43bc853030e4278f036bca7e430ea98d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 35/60] fix: correct_using_stationary with non-finite positions

---
 py/desimeter/turbulence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/turbulence.py b/py/desimeter/turbulence.py
index a1554b9..b1e3da4 100644
--- a/py/desimeter/turbulence.py
+++ b/py/desimeter/turbulence.py
@@ -398,14 +398,14 @@ def correct_using_stationary(xs, ys, x0s, y0s, xc, yc,
             np.isfinite(data['dx']) & np.isfinite(data['dy']))
     data = data[mask]
     if clip_resid > 0:
-        tmask = mask.copy()
+        tmask = np.ones(len(data), dtype=bool)
         for c in (data['dx'], data['dy']):
             med = np.median(c)
             sd = mad_std(c)
             tmask &= (c > med - 5*sd) & (c < med + 5*sd)
         if np.any(tmask):
             data = data[tmask]
-            mask = mask & tmask
+            mask[mask] = tmask
         # here using only stationary positioners
         xturb, yturb, _ = solve_independent(
             data, nuse=500, excludeself=False,
-- 
2.43.0


From f8f104b0de2fb93d4c72afb25167a61932400d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 36/60] fix: correct_using_stationary uses its argument
 clip_resid

---
 py/desimeter/turbulence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/turbulence.py b/py/desimeter/turbulence.py
index b1e3da4..7bde852 100644
--- a/py/desimeter/turbulence.py
+++ b/py/desimeter/turbulence.py
@@ -412,7 +412,7 @@ def correct_using_stationary(xs, ys, x0s, y0s, xc, yc,
             method='powell', fix_covar=True,
             scale_covar=scale_covar)
         offset = np.hypot(data['dx'] - xturb, data['dy'] - yturb)
-        tmask = offset < 0.01  # 10 microns
+        tmask = offset < clip_resid
         data = data[tmask]
         mask[mask] &= tmask
         if np.sum(~mask) > 0:
-- 
2.43.0


From f1a200a4b37816f3fc84bed8d48bac55812556b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:45 +0000
Subject: [PATCH 37/60] fix: covariance of solve_gradwavefront in double
 precision for its fit

---
 py/desimeter/turbulence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/turbulence.py b/py/desimeter/turbulence.py
index 7bde852..1dc9d67 100644
--- a/py/desimeter/turbulence.py
+++ b/py/desimeter/turbulence.py
@@ -151,7 +151,7 @@ def make_covar_gradwavefront_nonoise(x1, y1, x2, y2, param, rq=False, **kw):
     gauss = aa**2*np.exp(-(xdist**2+ydist**2)/2)
     n1 = len(x1)
     n2 = len(x2)
-    covar = np.empty((n2*2, n1*2), dtype='f4')
+    covar = np.empty((n2*2, n1*2), dtype='f8')
     covar[:n2, :n1] = (1-xdist*xdist)*gauss
     covar[n2:, :n1] = -xdist*ydist*gauss
     covar[:n2, n1:] = -xdist*ydist*gauss
-- 
2.43.0


From 21bbac4a3a72ab805a2ebb544a13772fdd40fe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:45 +0000
Subject: [PATCH 38/60] fix: start the fit of the turbulence covariance at a
 length scale where it converges

---
 py/desimeter/turbulence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/turbulence.py b/py/desimeter/turbulence.py
index 1dc9d67..910cc12 100644
--- a/py/desimeter/turbulence.py
+++ b/py/desimeter/turbulence.py
@@ -313,7 +313,7 @@ def solve_covar(data, lossfun, covarfun, rq=False, nuse=500, **kw):
         return lossfun(datause, param, rq=rq)
 
     # sigma, A, l
-    guess = [0.01, 0.01, 10]
+    guess = [0.01, 0.01, 50]
     if rq:
         guess = guess + [2]
     res = optimize.minimize(loss, guess, **kw)
-- 
2.43.0


From 85a8572f1dba4182c56408b35aebb488758bd295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:33 +0000
Subject: [PATCH 39/60] fix: SimpleCorr.fit with solid=True records nmatch and
 rms

---
 py/desimeter/simplecorr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/desimeter/simplecorr.py b/py/desimeter/simplecorr.py
index 8f6505b..c373cfa 100644
--- a/py/desimeter/simplecorr.py
+++ b/py/desimeter/simplecorr.py
@@ -83,6 +83,10 @@ class SimpleCorr(object):
         self.syy = 1.
         self.sxy = 0.
 
+        self.nmatch = n
+        x2p,y2p = self.apply(x1,y1)
+        self.rms = np.sqrt( np.mean( (x2-x2p)**2 + (y2-y2p)**2 ) )
+
     def fit(self, x1, y1, x2, y2, solid=False) :
         """
         Adjust tranformation from x1,y1 to x2,y2
-- 
2.43.0


From 837589a16d70a4eb882fb9678040a31b29bc054a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:33 +0000
Subject: [PATCH 40/60] fix: default ray trace table of fit_raytrace_tan2fp

---
 bin/fit_raytrace_tan2fp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/fit_raytrace_tan2fp b/bin/fit_raytrace_tan2fp
index 52dc89d..4cf2b42 100755
--- a/bin/fit_raytrace_tan2fp
+++ b/bin/fit_raytrace_tan2fp
@@ -20,7 +20,7 @@ from desimeter.transform.tan2fp.raytracefit import TAN2FP_RayTraceFit
 parser = argparse.ArgumentParser(formatter_class=argparse.ArgumentDefaultsHelpFormatter,
                                      description="""Fit ray tracing data to model the tan2fp transform with corrector distortions.""")
 
-parser.add_argument('-i','--infile', type = str, default = None, required = False, help = 'trace tracing data, default is data/raytrace-tan2fp-4957-v17.csv')
+parser.add_argument('-i','--infile', type = str, default = None, required = False, help = 'trace tracing data, default is data/raytrace-tan2fp-4957-v18.csv')
 parser.add_argument('-o','--outfile', type = str, default = None, required = True, help = 'output json file with fitted transfo.')
 parser.add_argument('--plot',action="store_true",help="test and plot the transfo results.")
 parser.add_argument('--test',action="store_true",help="test (but dont plot).")
@@ -30,7 +30,7 @@ args = parser.parse_args()
 if args.infile :
     ifilename = args.infile
 else :
-    ifilename = resource_filename("desimeter","data/raytrace-tan2fp-4957-v17.csv")
+    ifilename = resource_filename("desimeter","data/raytrace-tan2fp-4957-v18.csv")
 
 print("reading {}".format(ifilename))
 table = Table.read(ifilename,format="csv")		
-- 
2.43.0


From ec01f7d7ed2b0410aa42126641b6060f84892b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 41/60] fix: detectspots gave NaN centroid errors for images
 without measurable noise

---
 py/desimeter/detectspots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/detectspots.py b/py/desimeter/detectspots.py
index f73c644..3e26ffa 100644
--- a/py/desimeter/detectspots.py
+++ b/py/desimeter/detectspots.py
@@ -152,7 +152,7 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
     #- normalized median absolute deviation as robust version of RMS
     #- see https://en.wikipedia.org/wiki/Median_absolute_deviation
     convolved_image_rms=1.4826*np.median(np.abs(vals-mval))
-    ok=np.abs(vals-mval)<4*convolved_image_rms
+    ok=np.abs(vals-mval)<=4*convolved_image_rms
     mval=np.mean(vals[ok])
     convolved_image_rms=np.std(vals[ok])
     log.info("convolved image pedestal={:4.2f} rms={:4.2f}".format(mval,convolved_image_rms))
@@ -209,7 +209,7 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
     vals=fvcimage[ii0,ii1].ravel()
     mval=np.median(vals)
     fvcimage_rms=1.4826*np.median(np.abs(vals-mval))
-    ok=np.abs(vals-mval)<4*fvcimage_rms
+    ok=np.abs(vals-mval)<=4*fvcimage_rms
     mval=np.mean(vals[ok])
     fvcimage_rms=np.std(vals[ok])
     log.info("fvc image pedestal={:4.2f} rms={:4.2f}".format(mval,fvcimage_rms))
-- 
2.43.0


From e1a1e553ca5eeb61d869772ce355ac496f717af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 42/60] fix: detectspots missed spots centred between two
 pixels, or left more than 100 of them twice

---
 py/desimeter/detectspots.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/detectspots.py b/py/desimeter/detectspots.py
index 3e26ffa..8f8610b 100644
--- a/py/desimeter/detectspots.py
+++ b/py/desimeter/detectspots.py
@@ -170,10 +170,11 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
         threshold=max(min_counts_per_pixel,nsig*convolved_image_rms)
 
     peaks=np.zeros((n0,n1))
+    # (>= on one side only, such that a maximum shared by neighboring pixels is one peak)
     peaks[1:-1,1:-1] = ((convolved_image[1:-1, 1:-1] > convolved_image[:-2, 1:-1]) *
-                        (convolved_image[1:-1, 1:-1] > convolved_image[2:,  1:-1]) *
+                        (convolved_image[1:-1, 1:-1] >= convolved_image[2:,  1:-1]) *
                         (convolved_image[1:-1,1:-1]  > convolved_image[1:-1,:-2]) *
-                        (convolved_image[1:-1,1:-1]  > convolved_image[1:-1,2:]) *
+                        (convolved_image[1:-1,1:-1]  >= convolved_image[1:-1,2:]) *
                         (convolved_image[1:-1,1:-1]>threshold))
     # the centroid fit needs a stamp of half width hw inside of the image
     hw=3
@@ -239,7 +240,7 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
         yerr=yerr[good]
         counts=counts[good]
 
-    for _ in range(100) :
+    while True :
         # iterate, removing duplicates
         xy=np.array([xpix,ypix]).T
         tree = KDTree(xy)
-- 
2.43.0


From 5ed6cc29eb6b0d2bee3b343f7f391e70978c7c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 43/60] fix: option --fvc-psf-sigma is used for the centroid
 measurement

---
 py/desimeter/detectspots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/detectspots.py b/py/desimeter/detectspots.py
index 8f8610b..9c0cda0 100644
--- a/py/desimeter/detectspots.py
+++ b/py/desimeter/detectspots.py
@@ -111,13 +111,13 @@ def fitcentroid_gaussian(stamp,sigma=1.,noise=10.):
     #sys.exit(12)
 
 
-def fitcentroid(stamp,noise=10.):
+def fitcentroid(stamp,noise=10.,sigma=1.):
     """
     fit the centroid of a 2D image square stamp of size (2*hw+1,2*hw+1)
     in a coordinate system centered on the stamp, i.e. the central pixel has coordinates = (0,0)
     """
 
-    return fitcentroid_gaussian(stamp,sigma=1,noise=noise)
+    return fitcentroid_gaussian(stamp,sigma=sigma,noise=noise)
     #return fitcentroid_barycenter(stamp)
 
 
@@ -221,7 +221,7 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
         i0=index//n1
         i1=index%n1
         if 1: #try :
-            x,y,ex,ey,c=fitcentroid(fvcimage[i0-hw:i0+hw+1,i1-hw:i1+hw+1],noise=fvcimage_rms)
+            x,y,ex,ey,c=fitcentroid(fvcimage[i0-hw:i0+hw+1,i1-hw:i1+hw+1],noise=fvcimage_rms,sigma=psf_sigma)
             xpix[j] = x + i1 + xoffset #  x is along axis=1 in python , also adding offset (definition of pixel coordinates)
             ypix[j] = y + i0 + yoffset #  y is along axis=0 in python , also adding offset (definition of pixel coordinates)
             xerr[j] = ex
-- 
2.43.0


From cee176d2511fc237c1e3197f190648d0bc35609b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 44/60] fix: desi_fvc_proc --make-directory makes the directory
 of the output transform

---
 py/desimeter/processfvc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index ad68c39..71291af 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -123,7 +123,7 @@ def preproc(args):
             if not os.path.exists(directory):
                 os.makedirs(directory)
         if args.output_transform is not None:
-            directory, _ = os.path.split(args.outfile)
+            directory, _ = os.path.split(args.output_transform)
             if directory != '':
                 if not os.path.exists(directory):
                     os.makedirs(directory)
-- 
2.43.0


From 368277da27aa4fae4fc388451fa4f47dc0a3e0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 45/60] fix: desi_fvc_proc --extname last missed the last
 extension when the numbers do not start at zero

---
 py/desimeter/processfvc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index 71291af..9420866 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -154,9 +154,8 @@ def get_spots_list(args, log):
                 tmp_extnames = [k for k in fx.hdu_map.keys() if isinstance(k, str)]
                 tmp_extnames = [e.lower() for e in tmp_extnames]
                 extname = None
-                for i in range(len(tmp_extnames)):
-                    extname0 = f'f{i:04d}'
-                    if extname0 in tmp_extnames:
+                for extname0 in tmp_extnames: # in the order of the HDUs
+                    if extname0[0:1] == 'f' and extname0[1:].isdigit():
                         extname = extname0
                 extnames.append(extname)
 
-- 
2.43.0


From 0cc3ce96574638db9fd7458af5613872e4c83b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 46/60] fix: desi_fvc_proc --sequence of a file without FXXXX
 extension is an error

---
 py/desimeter/processfvc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index 9420866..f36e7d4 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -146,6 +146,9 @@ def get_spots_list(args, log):
                 for extname in fx.hdu_map.keys() :
                     if isinstance(extname, str) and extname.lower().find("f0")==0 :
                         extnames.append(extname)
+                if len(extnames) == 0 :
+                    log.error("no FXXXX extension in {}".format(args.infile))
+                    return None, None
             elif len(fx) == 1:
                 extnames.append(0)
             elif args.extname.strip() != 'last':
-- 
2.43.0


From 44d82b5d2f2e46eced9080cd0f1b078a568689e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 47/60] fix: fvc_proc changed the bias argument of the caller,
 a second call with it failed

---
 py/desimeter/processfvc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index f36e7d4..25e3810 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -2,6 +2,7 @@
 """
 import os
 import sys
+import copy
 import subprocess
 import argparse
 import hashlib
@@ -221,6 +222,7 @@ def get_expected_pos(args, log):
 def fvc_proc(args, log):
     """Process an FVC image with options specified by args and output to log.
     """
+    args = copy.copy(args) # preproc replaces some of the arguments of the caller
     errcode = preproc(args)
     if errcode:
         return errcode
-- 
2.43.0


From c41fe9043b858e6e7e83ffe86657bc3a6b0de0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 48/60] fix: desi_fvc_proc returns an error when a frame is not
 processed because of --min-spots or --max-spots

---
 py/desimeter/processfvc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index 25e3810..963d479 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -236,10 +236,12 @@ def fvc_proc(args, log):
         if args.min_spots is not None :
             if len(spots) < args.min_spots :
                 log.error("not enough spots, exiting")
+                errcode = 13
                 continue
         if args.max_spots is not None :
             if len(spots) > args.max_spots :
                 log.error("too many spots, exiting")
+                errcode = 13
                 continue
 
         outfile = args.outfile
@@ -405,7 +407,7 @@ def fvc_proc(args, log):
         spots.write(outfile,format="csv",overwrite=True)
         print("wrote {}".format(outfile))
 
-    return 0
+    return errcode
 
 
 def get_parser():
-- 
2.43.0


From 640daca36cdc61c182e8eb8d86e95c509fef2952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:16 +0000
Subject: [PATCH 49/60] fix: desi_fit_circles dropped the positioner with
 LOCATION 0

---
 bin/desi_fit_circles | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/desi_fit_circles b/bin/desi_fit_circles
index 09b84e1..44c6a19 100755
--- a/bin/desi_fit_circles
+++ b/bin/desi_fit_circles
@@ -31,7 +31,7 @@ for filename in args.infile :
     print(filename)
     t=Table.read(filename)
     #print(t.dtype.names)
-    selection=(t["LOCATION"]>0)
+    selection=(t["LOCATION"]>=0)
     location_and_pinhole=(np.array(t["LOCATION"])*10+np.array(t["PINHOLE_ID"])).astype(int)
     if first :
         for loc in location_and_pinhole[selection] :
-- 
2.43.0


From b25e4b1516206fc74e990dc07d95e09c1172ac94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:16 +0000
Subject: [PATCH 50/60] fix: desi_fit_circles mixed up devices when a
 PINHOLE_ID is larger than 9

---
 bin/desi_fit_circles | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bin/desi_fit_circles b/bin/desi_fit_circles
index 44c6a19..2b1394b 100755
--- a/bin/desi_fit_circles
+++ b/bin/desi_fit_circles
@@ -32,7 +32,7 @@ for filename in args.infile :
     t=Table.read(filename)
     #print(t.dtype.names)
     selection=(t["LOCATION"]>=0)
-    location_and_pinhole=(np.array(t["LOCATION"])*10+np.array(t["PINHOLE_ID"])).astype(int)
+    location_and_pinhole=(np.array(t["LOCATION"])*100+np.array(t["PINHOLE_ID"])).astype(int)
     if first :
         for loc in location_and_pinhole[selection] :
             x[loc] = []
@@ -58,8 +58,8 @@ for filename in args.infile :
         y[loc].append(float(t["Y_FP"][i]))
 
 location_and_pinhole=np.array(list(x.keys()),dtype=int)
-location=location_and_pinhole//10
-pinhole=location_and_pinhole%10
+location=location_and_pinhole//100
+pinhole=location_and_pinhole%100
 print("number of positioners:",np.sum(pinhole==0))
 print("number of fiducials:",np.sum(pinhole==1))
 print("number of pinholes:",np.sum(pinhole>=1))
-- 
2.43.0


From 5261264d1a64871fecf4ad2f476c5fcaac84666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:16 +0000
Subject: [PATCH 51/60] fix: desi_fit_circles failed for all positioners when
 one has less than 6 valid coordinates

---
 bin/desi_fit_circles | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/desi_fit_circles b/bin/desi_fit_circles
index 2b1394b..2ae3087 100755
--- a/bin/desi_fit_circles
+++ b/bin/desi_fit_circles
@@ -77,10 +77,10 @@ yfp_meas=np.zeros(ndots)
 
 count=0
 for iloc,loc in enumerate(x.keys()) :
-    if len(x[loc])<6 : continue
     x[loc]=np.array(x[loc])
     y[loc]=np.array(y[loc])
     ii=np.where(x[loc]!=0)[0]
+    if ii.size<6 : continue
     x[loc]=x[loc][ii]
     y[loc]=y[loc][ii]
 
-- 
2.43.0


From 4bc58d99ba4ab75558d6de88ea2f80591d2be6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:16 +0000
Subject: [PATCH 52/60] fix: desi_fit_circles dropped a positioner which moves
 along y

---
 bin/desi_fit_circles | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/desi_fit_circles b/bin/desi_fit_circles
index 2ae3087..615237a 100755
--- a/bin/desi_fit_circles
+++ b/bin/desi_fit_circles
@@ -86,7 +86,7 @@ for iloc,loc in enumerate(x.keys()) :
 
     #print("{} nmeas={} rms(x)={} rms(y)={}".format(loc,ii.size,np.std(x[loc]),np.std(y[loc])))
 
-    if pinhole[iloc] == 0 and np.std(x[loc])<1. :
+    if pinhole[iloc] == 0 and np.hypot(np.std(x[loc]),np.std(y[loc]))<1. :
         # this is a non-moving positioner, I don't use this
         if False and args.plot and count<nmaxplot :
             plt.figure("circles")
-- 
2.43.0


From bad82a513b517a50df994e9a48de7155deb5fd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:16 +0000
Subject: [PATCH 53/60] fix: fit_circle failed for good points depending on
 their order

---
 py/desimeter/circles.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/circles.py b/py/desimeter/circles.py
index 6306858..0fabad8 100644
--- a/py/desimeter/circles.py
+++ b/py/desimeter/circles.py
@@ -19,7 +19,13 @@ def fit_circle(x, y):
         yc : float, coordinates along second axis of center of circle
         r  : float, radius of circle
     """
-    x_m, y_m, r = _fast_fit_circle(x, y)
+    #- initial estimate: linear least squares fit of x**2+y**2 = a*x + b*y + c
+    #- (whatever the order of the points)
+    x0, y0 = np.mean(x), np.mean(y)
+    dx, dy = x-x0, y-y0
+    a, b, c = np.linalg.lstsq(np.array([dx, dy, np.ones(len(dx))]).T, dx**2+dy**2, rcond=None)[0]
+    x_m, y_m = x0+a/2., y0+b/2.
+    r = np.sqrt(c+a**2/4.+b**2/4.)
 
     #- If r is too small or too big then either this positioner wasn't moving
     #- or the points are mismatched for a bad fit.
-- 
2.43.0


From 7c65564018b24bad128984f26873fc029f7cd625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:16 +0000
Subject: [PATCH 54/60] fix: desi_fit_fvc2fp_using_theta_centers mixed up
 devices when a PINHOLE_ID is larger than 9

---
 bin/desi_fit_fvc2fp_using_theta_centers | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/desi_fit_fvc2fp_using_theta_centers b/bin/desi_fit_fvc2fp_using_theta_centers
index 7e8c757..4933729 100755
--- a/bin/desi_fit_fvc2fp_using_theta_centers
+++ b/bin/desi_fit_fvc2fp_using_theta_centers
@@ -52,8 +52,8 @@ for filename in args.infile :
         if not "LOCATION" in t.dtype.names or not "PINHOLE_ID" in t.dtype.names :
             print("I cannot match with other metrology because no LOCATION or no PINHOLE_ID in the circles table")
             sys.exit(12)
-        eloc=(np.array(t["LOCATION"])*10+np.array(t["PINHOLE_ID"])).astype(int)
-        meloc=(np.array(other_metrology["LOCATION"])*10+np.array(other_metrology["PINHOLE_ID"])).astype(int)
+        eloc=(np.array(t["LOCATION"])*100+np.array(t["PINHOLE_ID"])).astype(int)
+        meloc=(np.array(other_metrology["LOCATION"])*100+np.array(other_metrology["PINHOLE_ID"])).astype(int)
         l2i={l:i for i,l in enumerate(meloc)}
         for j in range(t["X_FP"].size):
             if eloc[j] in l2i :
-- 
2.43.0


From 9bed26ae84b254d1769b6afe7caa14aacbb33856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:28 +0000
Subject: [PATCH 55/60] fix: match_positioners assigned unreachable spots to
 the positioners left over

---
 py/desimeter/match_positioners.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/desimeter/match_positioners.py b/py/desimeter/match_positioners.py
index ff68367..2407abe 100644
--- a/py/desimeter/match_positioners.py
+++ b/py/desimeter/match_positioners.py
@@ -199,6 +199,9 @@ def match_positioners(fvc, metr, calib, countthresh=80000,
 def solve_assignment(score_matrix):
     from scipy.optimize import linear_sum_assignment
     assignment = linear_sum_assignment(-score_matrix)
+    # drop the pairs which cannot be, the solver pairs all rows or all columns
+    possible = score_matrix[assignment] > 0
+    assignment = tuple(ind[possible] for ind in assignment)
     score = np.sum([score_matrix[i, j] for (i, j) in zip(*assignment)])
     return assignment + (score,)
 
-- 
2.43.0


From 063489478cb54d0a74b461d0f455cc1919dffbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:47 +0000
Subject: [PATCH 56/60] fix: prepare_posparams_for_instr failed when no value
 of the table is masked

---
 bin/prepare_posparams_for_instr | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bin/prepare_posparams_for_instr b/bin/prepare_posparams_for_instr
index b7d78e2..cfd3b7d 100755
--- a/bin/prepare_posparams_for_instr
+++ b/bin/prepare_posparams_for_instr
@@ -247,10 +247,9 @@ required_keys = {'POS_ID', 'FLAGS', 'DEVICE_LOC', 'NUM_POINTS', 'DATA_END_DATE',
 required_keys |= set(fitter.static_keys)
 if uargs.allow_scale:
     required_keys |= {'FIT_ERROR_DYNAMIC', 'NUM_POINTS_IN_FIT_DYNAMIC'}
-mask_table = new_table.mask
-masked_list = mask_table['POS_ID']
+masked_list = np.zeros(len(new_table), dtype=bool)
 for key in required_keys:
-    masked_list |= mask_table[key]
+    masked_list |= np.ma.getmaskarray(new_table[key])
 new_table = _eliminate_rows(new_table, masked_list, 'paramfits file missing required value(s)', 'paramfits data complete')
 
 # check functions
-- 
2.43.0


From 7dd8b962ab6231e4998f17b4c40d72c300acafbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:47 +0000
Subject: [PATCH 57/60] fix: prepare_posparams_for_instr let NaN pass all its
 checks

---
 bin/prepare_posparams_for_instr | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bin/prepare_posparams_for_instr b/bin/prepare_posparams_for_instr
index cfd3b7d..17a3b76 100755
--- a/bin/prepare_posparams_for_instr
+++ b/bin/prepare_posparams_for_instr
@@ -250,6 +250,8 @@ if uargs.allow_scale:
 masked_list = np.zeros(len(new_table), dtype=bool)
 for key in required_keys:
     masked_list |= np.ma.getmaskarray(new_table[key])
+    if new_table[key].dtype.kind == 'f':
+        masked_list |= np.isnan(np.ma.filled(new_table[key], np.nan))
 new_table = _eliminate_rows(new_table, masked_list, 'paramfits file missing required value(s)', 'paramfits data complete')
 
 # check functions
-- 
2.43.0


From 9b75e931bf04baed4f708fca00fd113110a0d9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:47 +0000
Subject: [PATCH 58/60] fix: prepare_posparams_for_instr kept another of the
 rows of a positioner than the one selected

---
 bin/prepare_posparams_for_instr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/prepare_posparams_for_instr b/bin/prepare_posparams_for_instr
index 17a3b76..74d79fc 100755
--- a/bin/prepare_posparams_for_instr
+++ b/bin/prepare_posparams_for_instr
@@ -416,7 +416,7 @@ def check_uniqueness(table):
                 logger.info(f'All {len(row_idxs)} rows for {posid} skipped (removed from table)')
                 retry = False
             elif user_input in {str(i) for i in options.keys()}:
-                delete_idxs = row_idxs[row_idxs != int(user_input)]
+                delete_idxs = np.delete(row_idxs, int(user_input))
                 new.remove_rows(delete_idxs)
                 logger.info(f'{len(delete_idxs)} rows for {posid} removed')
                 n_remaining = len(get_row_idxs(new, posid))
-- 
2.43.0


From 5b182035eced81f40f3adb96e568142602356308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:47 +0000
Subject: [PATCH 59/60] fix: prepare_posparams_for_instr went on when
 --set-enabling was not confirmed

---
 bin/prepare_posparams_for_instr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/prepare_posparams_for_instr b/bin/prepare_posparams_for_instr
index 74d79fc..803b3fa 100755
--- a/bin/prepare_posparams_for_instr
+++ b/bin/prepare_posparams_for_instr
@@ -163,7 +163,7 @@ def yesnohelp(message, yes=True, no=True, help_=True, exit_=True):
     if exit_ and answer.lower() in {'exit'}:
         logger.info('Exiting at user request.')
         sys.exit(0)
-    return yesnohelp(message)
+    return yesnohelp(message, yes=yes, no=no, help_=help_, exit_=exit_)
 
 def str2float(s):
     '''Returns float, or None if string s can not be converted to float.'''
-- 
2.43.0


From 75322c3a296201c4d655290c0f4034a106106cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:52 +0000
Subject: [PATCH 60/60] fix: analyze_bright_image replaced the angles of
 --phi-arm-angle-table

---
 bin/analyze_bright_image | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/analyze_bright_image b/bin/analyze_bright_image
index 18486ad..e9db69d 100755
--- a/bin/analyze_bright_image
+++ b/bin/analyze_bright_image
@@ -64,7 +64,8 @@ if args.plot and args.nproc> 1 :
     print("limit to 1 process when plotting")
     args.nproc=1
 
-detect_phi_arms(spots,args.front_illuminated,args.template,args.ang_step,args.nproc,plot=args.plot)
+if args.phi_arm_angle_table is None :
+    detect_phi_arms(spots,args.front_illuminated,args.template,args.ang_step,args.nproc,plot=args.plot)
 
 # refit transfo using fiber tips
 transfo = FVC2FP.read_jsonfile(fvc2fp_filename())
-- 
2.43.0

