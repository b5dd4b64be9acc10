From 786ed88bb596c1a1e893f48aee30e08589002395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:16 +0000
Subject: [PATCH 01/26] fix: never leave an interrupted download under its
 final name

---
 src/solarspatialtools/dataio/iotools.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/solarspatialtools/dataio/iotools.py b/src/solarspatialtools/dataio/iotools.py
index 8f54b8e..0d712f8 100644
--- a/src/solarspatialtools/dataio/iotools.py
+++ b/src/solarspatialtools/dataio/iotools.py
@@ -20,7 +20,16 @@ def download(url, filename):
     void
     """
 
-    urllib.request.urlretrieve(url, filename)
+    # Retrieve under a temporary name, so that a download that breaks off never
+    # leaves an incomplete file that looks like a finished one.
+    partname = os.fspath(filename) + ".part"
+    try:
+        urllib.request.urlretrieve(url, partname)
+        os.replace(partname, filename)
+    except BaseException:
+        if os.path.exists(partname):
+            os.remove(partname)
+        raise
 
 
 def wget_fromurl(wgeturl, targetdir, verbose=True):
-- 
2.43.0


From 5d2f81643a0bfcda193d4c1ba1c3505d40e6f5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:16 +0000
Subject: [PATCH 02/26] fix: detect an incomplete file list when downloading a
 data set

---
 src/solarspatialtools/dataio/iotools.py | 31 ++++++++++++++-----------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/solarspatialtools/dataio/iotools.py b/src/solarspatialtools/dataio/iotools.py
index 0d712f8..c5022a5 100644
--- a/src/solarspatialtools/dataio/iotools.py
+++ b/src/solarspatialtools/dataio/iotools.py
@@ -54,20 +54,23 @@ def wget_fromurl(wgeturl, targetdir, verbose=True):
 
     # to use locally replace: "with open(wgeturl)"
     with urllib.request.urlopen(wgeturl) as fl:
-        for rowb in fl:  # rows come in as binary
-            row = rowb.decode('utf-8')  # comes back as a bytestream
-            # just get the URL to the file
-            u = row.split()[-1].strip()
-            # just get the filename portion
-            fn = os.path.split(u)[-1]
-            # Download the file
-            if not os.path.isfile(os.path.join(targetdir, fn)):
-                if verbose:
-                    print(fn)
-                download(u, os.path.join(targetdir, fn))
-            else:
-                if verbose:
-                    print(fn + " exists, skipping...")
+        # read everything at once: unlike iterating over the rows, this raises
+        # an error if the list arrives incomplete
+        rows = fl.read().splitlines()
+    for rowb in rows:  # rows come in as binary
+        row = rowb.decode('utf-8')  # comes back as a bytestream
+        # just get the URL to the file
+        u = row.split()[-1].strip()
+        # just get the filename portion
+        fn = os.path.split(u)[-1]
+        # Download the file
+        if not os.path.isfile(os.path.join(targetdir, fn)):
+            if verbose:
+                print(fn)
+            download(u, os.path.join(targetdir, fn))
+        else:
+            if verbose:
+                print(fn + " exists, skipping...")
 
 
 def ensurepath(path):
-- 
2.43.0


From 48e61af323bc2ad91695b88c660196202f8bcc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:17 +0000
Subject: [PATCH 03/26] fix: a failed merge leaves the target file as it was

---
 src/solarspatialtools/dataio/hope_campaign.py | 45 ++++++++++++-------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/solarspatialtools/dataio/hope_campaign.py b/src/solarspatialtools/dataio/hope_campaign.py
index db902bb..0b5ca53 100644
--- a/src/solarspatialtools/dataio/hope_campaign.py
+++ b/src/solarspatialtools/dataio/hope_campaign.py
@@ -304,23 +304,34 @@ def dataset_to_h5(directory, filename, overwrite=False, verbose=True):
 
     files = getfiles(directory, ext=".nc", sort=True)
 
-    if os.path.isfile(filename):
-        if overwrite:
-            os.remove(filename)
-        else:
-            raise ValueError("Target file exists. Please specify a new file.")
-
-    for i, fn in enumerate(files):
-        if verbose:
-            print(fn)
-
-        data, flag, latlon = parse_file(os.path.join(directory, fn))
-
-        if i == 0:
-            latlon.to_hdf(filename, key='latlon', mode="a")
-
-        data.to_hdf(filename, key='data', mode='a', append=True)
-        flag.to_hdf(filename, key='flag', mode='a', append=True)
+    if os.path.isfile(filename) and not overwrite:
+        raise ValueError("Target file exists. Please specify a new file.")
+
+    # Build the file under a temporary name and move it into place when it is
+    # complete, so that a conversion that fails leaves the target as it was.
+    tempname = os.fspath(filename) + ".part"
+    if os.path.isfile(tempname):
+        os.remove(tempname)
+
+    try:
+        for i, fn in enumerate(files):
+            if verbose:
+                print(fn)
+
+            data, flag, latlon = parse_file(os.path.join(directory, fn))
+
+            if i == 0:
+                latlon.to_hdf(tempname, key='latlon', mode="a")
+
+            data.to_hdf(tempname, key='data', mode='a', append=True)
+            flag.to_hdf(tempname, key='flag', mode='a', append=True)
+
+        if os.path.isfile(tempname):
+            os.replace(tempname, filename)
+    except BaseException:
+        if os.path.isfile(tempname):
+            os.remove(tempname)
+        raise
 
 
 def _parse_args():
-- 
2.43.0


From de1e4a1df5db5fb16156492c4ca90defdfdffacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:45 +0000
Subject: [PATCH 04/26] fix: never leave an incomplete quality controlled file

---
 src/solarspatialtools/dataio/hope_campaign.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/solarspatialtools/dataio/hope_campaign.py b/src/solarspatialtools/dataio/hope_campaign.py
index 0b5ca53..2027bf4 100644
--- a/src/solarspatialtools/dataio/hope_campaign.py
+++ b/src/solarspatialtools/dataio/hope_campaign.py
@@ -403,13 +403,19 @@ def _main():
             raise ValueError('QC must be one of None, null, interp, flag.')
         if os.path.isfile(fn_tgt):
             userinput = input("File exists. Overwrite (Y/N)?")
-            if userinput.lower() == "y":
-                os.remove(fn_tgt)
-            else:
+            if userinput.lower() != "y":
                 return
-        data.to_hdf(fn_tgt, key='data', mode='a', append=False)
-        flag.to_hdf(fn_tgt, key='flag', mode='a', append=False)
-        latlon.to_hdf(fn_tgt, key='latlon', mode='a', append=False)
+        # Move the file into place only when it is complete
+        fn_tmp = fn_tgt + ".part"
+        try:
+            data.to_hdf(fn_tmp, key='data', mode='w', append=False)
+            flag.to_hdf(fn_tmp, key='flag', mode='a', append=False)
+            latlon.to_hdf(fn_tmp, key='latlon', mode='a', append=False)
+            os.replace(fn_tmp, fn_tgt)
+        except BaseException:
+            if os.path.isfile(fn_tmp):
+                os.remove(fn_tmp)
+            raise
 
 
 if __name__ == "__main__":
-- 
2.43.0


From db3e991a0b595ff7b84a10959156123a96d21552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:46 +0000
Subject: [PATCH 05/26] fix: fill gaps up to the limit completely and leave
 longer gaps alone

---
 src/solarspatialtools/dataio/hope_campaign.py | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/solarspatialtools/dataio/hope_campaign.py b/src/solarspatialtools/dataio/hope_campaign.py
index 2027bf4..7b8b4b4 100644
--- a/src/solarspatialtools/dataio/hope_campaign.py
+++ b/src/solarspatialtools/dataio/hope_campaign.py
@@ -180,18 +180,14 @@ def interp_nan(data, limit=5):
 
     for col in datanew.columns:
         datanew_i = datanew[col]
-        # interpolate limiting things to 5s or shorter nan windows
-        datanew_i = datanew_i.interpolate(limit=limit, limit_area='inside')
-
-        # Find the cases where things were nan for more than limit, and add
-        # some padding to ensure we don't interp there
-        blanks = np.isnan(datanew_i).rolling(f'{limit}s').mean() > \
-                 (limit-1)/limit
-        blanks_front = blanks.iloc[:-2*limit]
-        blanks_back = blanks.iloc[2*limit:]
-        blanks_union = blanks_front.values | blanks_back.values
-        blanks = pd.Series(np.pad(blanks_union, limit), index=blanks.index)
-        datanew_i[blanks] = np.nan
+        # Find how many consecutive values are missing around each missing one
+        blanks = datanew_i.isna()
+        blank_count = blanks.groupby((~blanks).cumsum()).transform('sum')
+
+        # interpolate between good values, then blank out again those windows
+        # that are longer than limit
+        datanew_i = datanew_i.interpolate(limit_area='inside')
+        datanew_i[blanks & (blank_count > limit)] = np.nan
 
         datanew[col] = datanew_i
 
-- 
2.43.0


From b6b270f3bc27fd5cd9366fd2f69005075651d963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 06/26] fix: an interrupted sensor-file conversion leaves the
 target as it was

---
 src/solarspatialtools/dataio/nrcan_data.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/solarspatialtools/dataio/nrcan_data.py b/src/solarspatialtools/dataio/nrcan_data.py
index 05e1d7c..2570c1d 100644
--- a/src/solarspatialtools/dataio/nrcan_data.py
+++ b/src/solarspatialtools/dataio/nrcan_data.py
@@ -1,5 +1,6 @@
 import pandas as pd
 import os
+import shutil
 
 from solarspatialtools.dataio import iotools
 
@@ -180,9 +181,23 @@ def process_files(source_dir, latlon_file, target_file):
                                                            {'tmp': col})
 
     # All the dataframes are built, save them to the h5 file
-    latlon.to_hdf(target_file, key='latlon', mode='a')
-    data_ghi.to_hdf(target_file, key='data', mode='a', append=True)
-    data_gti.to_hdf(target_file, key='data_tilt', mode='a', append=True)
+    # Work on a temporary copy and move it into place when it is complete, so
+    # that a conversion that fails leaves the target as it was.
+    tempname = os.fspath(target_file) + ".part"
+    try:
+        if os.path.isfile(target_file):
+            shutil.copyfile(target_file, tempname)
+        elif os.path.isfile(tempname):
+            os.remove(tempname)
+
+        latlon.to_hdf(tempname, key='latlon', mode='a')
+        data_ghi.to_hdf(tempname, key='data', mode='a', append=True)
+        data_gti.to_hdf(tempname, key='data_tilt', mode='a', append=True)
+        os.replace(tempname, target_file)
+    except BaseException:
+        if os.path.isfile(tempname):
+            os.remove(tempname)
+        raise
 
 
 if __name__ == "__main__":
-- 
2.43.0


From b1675dd6877ec855587c27d514fd858027f98f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:27 +0000
Subject: [PATCH 07/26] fix: report eastward cloud motion as direction zero,
 not a full turn

---
 src/solarspatialtools/cmv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solarspatialtools/cmv.py b/src/solarspatialtools/cmv.py
index 69e06c4..085fd93 100644
--- a/src/solarspatialtools/cmv.py
+++ b/src/solarspatialtools/cmv.py
@@ -375,6 +375,8 @@ def compute_cmv(timeseries, positions, reference_id=None, method="jamaly",
         cmv_vel *= -1
         cmv_theta += np.pi
     cmv_theta %= (2*np.pi)
+    if cmv_theta == 2*np.pi:  # tiny negative angles round up to a full turn
+        cmv_theta = 0.0
     cmv_dir_dist = project_vectors(vectors_cart,
                                    np.array(pol2rect(1, cmv_theta)))
 
-- 
2.43.0


From f7f86290c5dbab22180feee8de5de96381cdad5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:05 +0000
Subject: [PATCH 08/26] fix: one zero-lag correlation per pair in fft mode

---
 src/solarspatialtools/signalproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index 942ece5..48f0a58 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -700,7 +700,7 @@ def compute_delays(ts_in, ts_out, mode='loop', scaling='coeff'):
         extras['peak_corr'] = (corrxy[range(ts_inm.shape[0]), peak_lag_indices]
                                * corr_scale)
         extras['mean_corr'] = np.mean(corrxy, axis=1) * corr_scale
-        extras['zero_corr'] = corrxy[:, zero_lag_ind] * corr_scale
+        extras['zero_corr'] = corrxy[:, zero_lag_ind[0].item()] * corr_scale
     else:
         raise ValueError(f'Invalid mode: {mode}')
 
-- 
2.43.0


From cb66f3488b5ebf65cdc6d12e14d9a4200f28b4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:05 +0000
Subject: [PATCH 09/26] fix: fit delays of pairs whose column names repeat

---
 src/solarspatialtools/signalproc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index 48f0a58..a7c592c 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -797,8 +797,9 @@ def compute_delays_tf(ts_in, ts_out, navgs=5, coh_limit=0.6, freq_limit=0.02,
     if method == 'fit':
         delay = np.zeros(len(tf.columns))
         ix_all = np.zeros_like(tfcoh.values, dtype=bool)
-        for i, col in enumerate(tf.columns):
-            delay[i], ix = tf_delay(tf[col], tfcoh[col],
+        for i in range(len(tf.columns)):
+            # by position, as the names of the pairs need not be unique
+            delay[i], ix = tf_delay(tf.iloc[:, i], tfcoh.iloc[:, i],
                                     coh_limit=coh_limit,
                                     freq_limit=freq_limit,
                                     method='fit')
-- 
2.43.0


From 53d3d40aa71d346eb88152a685e572945bd478b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:27 +0000
Subject: [PATCH 10/26] fix: leave the caller's options dictionary as it was

---
 src/solarspatialtools/cmv.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/solarspatialtools/cmv.py b/src/solarspatialtools/cmv.py
index 085fd93..164374b 100644
--- a/src/solarspatialtools/cmv.py
+++ b/src/solarspatialtools/cmv.py
@@ -613,8 +613,7 @@ def _validate_method_options(method, options):
         intermediate data for debugging purposes.
     """
     # Validate options
-    if options is None:
-        options = {}
+    options = {} if options is None else dict(options)
     # Specify default options by method
     if method == 'jamaly':
         defaults = {'minvelocity': 0,  # m/s
-- 
2.43.0


From cb96df8df2d52339a23942584e5ba6e86674f3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:27 +0000
Subject: [PATCH 11/26] fix: restore numpy error handling after computing a
 cloud motion vector

---
 src/solarspatialtools/cmv.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/solarspatialtools/cmv.py b/src/solarspatialtools/cmv.py
index 164374b..645a875 100644
--- a/src/solarspatialtools/cmv.py
+++ b/src/solarspatialtools/cmv.py
@@ -130,6 +130,8 @@ def _get_pairs(all_points, must_contain=None, replacement=True):
         return np.array(pairs_all)
 
 
+# Ignore some numpy printouts, we'll deal with them manually
+@np.errstate(divide='ignore', invalid='ignore')
 def compute_cmv(timeseries, positions, reference_id=None, method="jamaly",
                 options=None, delay_backend='xcorr'):
     """
@@ -221,10 +223,6 @@ def compute_cmv(timeseries, positions, reference_id=None, method="jamaly",
     if delay_backend not in ['xcorr', 'tf']:
         raise ValueError("delay_backend must be one of: ['xcorr', 'tf'].")
 
-    # Ignore some numpy printouts, we'll deal with them manually
-    np.seterr(divide='ignore')
-    np.seterr(invalid='ignore')
-
     # Find all the needed info
     nsamples, _ = timeseries.shape
     point_ids = positions.index.to_list()
-- 
2.43.0


From 27e017235ded2990296d062717e16de37380f601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:01 +0000
Subject: [PATCH 12/26] fix: accept per-hour cloud speeds with one cloud
 direction

---
 src/solarspatialtools/synthirrad/copula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solarspatialtools/synthirrad/copula.py b/src/solarspatialtools/synthirrad/copula.py
index ffff08d..8e98f78 100644
--- a/src/solarspatialtools/synthirrad/copula.py
+++ b/src/solarspatialtools/synthirrad/copula.py
@@ -568,7 +568,7 @@ def downscale_multihour(times, e_pos, n_pos, cloud_spd, cloud_dir, mean_csi,
                                  ' list matching the length of mean_csi.')
             multi_cloud_dir_mode = True
 
-    if not isinstance(cloud_dir, (int, float)):
+    if not isinstance(cloud_spd, (int, float)):
         if len(cloud_spd) != 1:
             if len(cloud_spd) != n_hours:
                 raise ValueError('cloud_spd must be either a single value or a'
-- 
2.43.0


From f0bda03d9da1428322c1675210695fe6a6a64b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:47 +0000
Subject: [PATCH 13/26] fix: give every HOPE day the same time resolution so
 that days can be merged

---
 src/solarspatialtools/dataio/hope_campaign.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solarspatialtools/dataio/hope_campaign.py b/src/solarspatialtools/dataio/hope_campaign.py
index 7b8b4b4..6622307 100644
--- a/src/solarspatialtools/dataio/hope_campaign.py
+++ b/src/solarspatialtools/dataio/hope_campaign.py
@@ -248,6 +248,8 @@ def parse_file(filename):
     time = data['time']
     timeindex = pd.to_datetime(time[:], unit="s")
     timeindex = timeindex.tz_localize('UTC')
+    # Same time resolution for every file, so that all of them can be merged
+    timeindex = timeindex.astype('datetime64[ns, UTC]')
 
     # Get Irradiance
     irrad = data['rsds'][:]
-- 
2.43.0


From a66775957cc81023b12f5d419cc72842ebcedce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:47 +0000
Subject: [PATCH 14/26] fix: give every NRCAN day the same time resolution so
 that days can be appended

---
 src/solarspatialtools/dataio/nrcan_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solarspatialtools/dataio/nrcan_data.py b/src/solarspatialtools/dataio/nrcan_data.py
index 2570c1d..84822ae 100644
--- a/src/solarspatialtools/dataio/nrcan_data.py
+++ b/src/solarspatialtools/dataio/nrcan_data.py
@@ -146,6 +146,8 @@ def process_files(source_dir, latlon_file, target_file):
                         + pd.to_timedelta(data.iloc[:, 1])
             #  Uses GMT+5, rather than Eastern time with DST shift.
             file_time = pd.DatetimeIndex(file_time).tz_localize('Etc/GMT+5')
+            # Same time resolution for every day, so that they can be appended
+            file_time = file_time.astype('datetime64[ns, Etc/GMT+5]')
 
             # We are currently converting this sensor's data into a column
             col = os.path.splitext(file)[0].split('_')[1]
-- 
2.43.0


From 9257fac3c223f6b6e4cef64ae48827801ff6976b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:04 +0000
Subject: [PATCH 15/26] fix: sign of the phase of a cloud advection filter on
 an asymmetric axis

---
 src/solarspatialtools/signalproc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index a7c592c..144450f 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -997,10 +997,10 @@ def plant1d_to_camfilter(plant, x_plant, cloud_speed):
     t_delay = np.min(x_plant) / cloud_speed
     if cloud_speed > 0:
         camfilt = camfilt * np.exp(
-            1j * camfreq * (2 * np.pi) * t_delay)
+            -1j * camfreq * (2 * np.pi) * t_delay)
     else:
         camfilt = np.conj(
-            camfilt * np.exp(1j * camfreq * (2 * np.pi) * -t_delay))
+            camfilt * np.exp(-1j * camfreq * (2 * np.pi) * -t_delay))
     return pd.Series(camfilt, index=camfreq)
 
 
-- 
2.43.0


From 5763f7028cfe4fa4534e0fb7265f0c29b6825167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:04 +0000
Subject: [PATCH 16/26] fix: count sites that share a position along the cloud
 motion separately

---
 src/solarspatialtools/signalproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index 144450f..7ae5fc3 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -944,7 +944,7 @@ def get_1d_plant(centers, ref_center=0,
         for center in centers:
             inds = np.bitwise_and(x_vec >= (center - w / 2),
                                   x_vec < (center + w / 2))
-            plant[inds] = 1
+            plant[inds] += 1
     elif shape.lower() == "triangle":
         for center in centers:
             inds = np.bitwise_and(x_vec >= (center - w / 2),
-- 
2.43.0


From f5d53ce4129486e34368d580c78d085563cc9031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:20 +0000
Subject: [PATCH 17/26] fix: use one UTM zone for all positions of a cloud
 advection filter

---
 src/solarspatialtools/signalproc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index 7ae5fc3..138af0a 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -1086,12 +1086,16 @@ def get_camfilter(positions, cloud_speed, cloud_dir, ref_position, dx=1,
         A pandas Series containing the complex valued filter, along with its
         frequency vector along the index.
     """
+    # One UTM zone for all sites, also when they stand across a zone border
+    zone = None
     try:
-        pos_utm = spatial.latlon2utm(positions['lat'], positions['lon'])
+        zone = spatial._calc_zone(np.asarray(positions['lon'])[0])
+        pos_utm = spatial.latlon2utm(positions['lat'], positions['lon'], zone)
     except KeyError:
         pos_utm = positions
     try:
-        ref_utm = spatial.latlon2utm(ref_position['lat'], ref_position['lon'])
+        ref_utm = spatial.latlon2utm(ref_position['lat'], ref_position['lon'],
+                                     zone)
         ref_utm = pd.Series(ref_utm, index=['E', 'N', 'zone'])
     except KeyError:
         ref_utm = ref_position
-- 
2.43.0


From 25871b3d421dc3fb7ced054af0c57460cb1ff2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:41 +0000
Subject: [PATCH 18/26] fix: daily quantile of records with a time zone

---
 src/solarspatialtools/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solarspatialtools/stats.py b/src/solarspatialtools/stats.py
index 269ccd4..deca654 100644
--- a/src/solarspatialtools/stats.py
+++ b/src/solarspatialtools/stats.py
@@ -361,7 +361,8 @@ def calc_quantile(timeseries, n_days="30d", quantile=0.9):
 
         # Copy the subset of data representing the window
         # and separate the date and time stamps
-        statdata = ts[date_start:date_end]
+        statdata = ts[pd.Timestamp(date_start).tz_localize(ts.index.tz):
+                      pd.Timestamp(date_end).tz_localize(ts.index.tz)]
         dates = statdata.index.date
         times = statdata.index.time
 
-- 
2.43.0


From e4761ac3509112d64d093289383f6b864a277063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:50 +0000
Subject: [PATCH 19/26] fix: daily quantile of records with fractions of a
 second

---
 src/solarspatialtools/stats.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/solarspatialtools/stats.py b/src/solarspatialtools/stats.py
index deca654..a79e527 100644
--- a/src/solarspatialtools/stats.py
+++ b/src/solarspatialtools/stats.py
@@ -379,9 +379,8 @@ def calc_quantile(timeseries, n_days="30d", quantile=0.9):
         p90.name = date_end  # Assign a name based on the end date
 
         # p90's index is only time, so modify it to include the full date
-        p90.index = pd.to_datetime(np.repeat(str(date_end) + " ",
-                                             len(p90.index)) +
-                                   p90.index.astype(str))
+        p90.index = pd.Timestamp(date_end) + \
+            pd.to_timedelta(p90.index.astype(str))
 
         # Concat this day onto the output object
         if len(out_df) == 0:
-- 
2.43.0


From 1e9322a84cc2d28827057740fa0fb9125020cadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:34 +0000
Subject: [PATCH 20/26] fix: clearsky_index of a DataFrame uses the given
 maximum

---
 src/solarspatialtools/irradiance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solarspatialtools/irradiance.py b/src/solarspatialtools/irradiance.py
index 8456680..007c46a 100644
--- a/src/solarspatialtools/irradiance.py
+++ b/src/solarspatialtools/irradiance.py
@@ -31,7 +31,8 @@ def clearsky_index(ghi, clearsky_ghi, max_clearsky_index=2.0):
 
     if isinstance(ghi, pd.DataFrame):  # apply column by column
         return ghi.apply(lambda x:
-                         pvlib.irradiance.clearsky_index(x, clearsky_ghi, 2),
+                         pvlib.irradiance.clearsky_index(x, clearsky_ghi,
+                                                         max_clearsky_index),
                          axis=0)
     else:
         return pvlib.irradiance.clearsky_index(ghi, clearsky_ghi,
-- 
2.43.0


From 7ce505416cb4bf99e312e7ffc61036ce9e10b429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:34 +0000
Subject: [PATCH 21/26] fix: variability metrics average over steps with
 fractions of a second

---
 src/solarspatialtools/stats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solarspatialtools/stats.py b/src/solarspatialtools/stats.py
index a79e527..b280ddd 100644
--- a/src/solarspatialtools/stats.py
+++ b/src/solarspatialtools/stats.py
@@ -189,7 +189,7 @@ def variability_score(series, tau=1, moving_avg=True, pct=False):
     """
     if moving_avg and tau > 1:
         dt = np.nanmedian(series.index.diff().total_seconds())
-        rs = series.resample(str(int(tau * dt)) + 's').mean()
+        rs = series.resample(pd.Timedelta(seconds=tau * dt)).mean()
         return variability_score(rs, tau=1, moving_avg=False, pct=pct)
     if pct:  # Scale to a percentage of STC and multiply by 100 (Lave et al)
         return 100./1000 * variability_score(series, tau=tau,
@@ -239,7 +239,7 @@ def variability_index(ghi, clearsky, moving_avg_tau=1, norm=False):
 
     if moving_avg_tau > 1:
         dti = np.nanmedian(ghi.index.diff().total_seconds())
-        sample_pd = str(int(moving_avg_tau*dti))+'s'
+        sample_pd = pd.Timedelta(seconds=moving_avg_tau*dti)
         rs = ghi.resample(sample_pd).mean()
         cs = clearsky.resample(sample_pd).mean()
         return variability_index(rs, cs, moving_avg_tau=1, norm=norm)
@@ -295,7 +295,7 @@ def darr(series, tau=1, moving_avg=True, pct=False):
 
     if moving_avg and tau > 1:
         dt = np.nanmedian(series.index.diff().total_seconds())
-        rs = series.resample(str(int(tau * dt)) + 's').mean()
+        rs = series.resample(pd.Timedelta(seconds=tau * dt)).mean()
         # Rerun it without MA
         return darr(rs, tau=1, moving_avg=False, pct=pct)
     if pct:
-- 
2.43.0


From 483c7348db6d63806230b9f49af9a468863c442c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:45 +0000
Subject: [PATCH 22/26] fix: averaged_psd of a Series uses the given scaling

---
 src/solarspatialtools/signalproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index 138af0a..6560680 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -200,7 +200,7 @@ def averaged_psd(input_tsig, navgs, overlap=0.5,
 
     if isinstance(input_tsig, pd.Series):
         return averaged_psd(pd.DataFrame(input_tsig), navgs, overlap, window,
-                            detrend)
+                            detrend, scaling)
 
     cols = input_tsig.columns
     input_tsig = input_tsig.values.T
-- 
2.43.0


From bc6210a2def4dcb633f70de8a2b681ed46444f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:38 +0000
Subject: [PATCH 23/26] fix: lcs2latlon converts arrays and Series

---
 src/solarspatialtools/spatial.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/solarspatialtools/spatial.py b/src/solarspatialtools/spatial.py
index f50e111..06c238e 100644
--- a/src/solarspatialtools/spatial.py
+++ b/src/solarspatialtools/spatial.py
@@ -216,9 +216,15 @@ def lcs2latlon(east, north, origin_lat, origin_lon, zone=None):
     e_t = e_o + east
     n_t = n_o + north
 
-    # Calculate
-    lat, lon = utm2latlon(e_t, n_t, zone, south)
-    return lat, lon
+    # Calculate (handle scalar, array, and DataFrame returns)
+    latlon = utm2latlon(e_t, n_t, zone, south)
+    if isinstance(latlon, pd.DataFrame):
+        return latlon['lat'], latlon['lon']
+    if np.ndim(latlon) == 1:
+        lat, lon = latlon
+        return lat, lon
+    latlon = np.array(latlon)
+    return latlon[:, 0], latlon[:, 1]
 
 
 def lla2flat(lat, lon, latref, lonref, method="matlab"):
-- 
2.43.0


From ec82e23a0de2849486c96da5a0e95d12618981c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:38 +0000
Subject: [PATCH 24/26] fix: lcs2latlon takes the origin in the given zone

---
 src/solarspatialtools/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solarspatialtools/spatial.py b/src/solarspatialtools/spatial.py
index 06c238e..8ffbae3 100644
--- a/src/solarspatialtools/spatial.py
+++ b/src/solarspatialtools/spatial.py
@@ -210,7 +210,7 @@ def lcs2latlon(east, north, origin_lat, origin_lon, zone=None):
     south = origin_lat < 0
 
     # Get the origin in UTM
-    e_o, n_o, _ = latlon2utm(origin_lat, origin_lon)
+    e_o, n_o, _ = latlon2utm(origin_lat, origin_lon, zone)
 
     # Shift the target
     e_t = e_o + east
-- 
2.43.0


From 2beea16ce78d66affe807bcbfc1f0448c035c780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:38 +0000
Subject: [PATCH 25/26] fix: latlon2lcs takes the zone of the origin for every
 target

---
 src/solarspatialtools/spatial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solarspatialtools/spatial.py b/src/solarspatialtools/spatial.py
index 8ffbae3..9b3b0ca 100644
--- a/src/solarspatialtools/spatial.py
+++ b/src/solarspatialtools/spatial.py
@@ -150,6 +150,8 @@ def latlon2lcs(lat, lon, origin_lat, origin_lon, zone=None):
     """
     # Convert both coordinates to UTM
     utm_i = latlon2utm(origin_lat, origin_lon, zone=zone)
+    if zone is None and np.ndim(origin_lon) == 0:
+        zone = utm_i[2]  # one zone for the origin and the target
     utm_t = latlon2utm(lat, lon, zone=zone)
 
     # Extract E and N from results (handle scalar, array, and DataFrame returns)
-- 
2.43.0


From 02ed42b5f40c6c6bec18079fc703b9dfc14ee780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:22 +0000
Subject: [PATCH 26/26] fix: a site half way between two grid points of the
 plant axis could count on both or on neither

---
 src/solarspatialtools/signalproc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index 6560680..89c29ca 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -942,8 +942,9 @@ def get_1d_plant(centers, ref_center=0,
         # north = # of sites
         # Lc/north = separation
         for center in centers:
-            inds = np.bitwise_and(x_vec >= (center - w / 2),
-                                  x_vec < (center + w / 2))
+            # Compare offsets, as center +/- w/2 may round onto a grid point
+            offset = x_vec - center
+            inds = np.bitwise_and(offset >= -w / 2, offset < w / 2)
             plant[inds] += 1
     elif shape.lower() == "triangle":
         for center in centers:
-- 
2.43.0

