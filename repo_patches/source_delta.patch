From 84e48eea6fabe17cda9f7bdb180413b8ce258991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:04 +0000
Subject: [PATCH 01/68] fix: parse without -F treated the dive's own processed
 folder as existing output and skipped every dive

check_output_files_exist() tested the processed folder itself instead of camera.yaml in it. The
command line creates that folder for its log before parsing, so a first 'auv_nav parse' never parsed.
---
 src/auv_nav/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index e2549bc..e764f8e 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -790,7 +790,7 @@ def check_output_files_exist(processed_dataset_folder):
     """Check if any of the files exist, which `auv_nav parse` writes to disk"""
     mission_file = processed_dataset_folder / "mission.yaml"
     vehicle_file = processed_dataset_folder / "vehicle.yaml"
-    camera_file = processed_dataset_folder / ""
+    camera_file = processed_dataset_folder / "camera.yaml"
     nav_file = processed_dataset_folder / "nav" / "nav_standard.json"
     data_plot_file = processed_dataset_folder / "nav" / "json_data_info.html"
     history_plot_file = processed_dataset_folder / "nav" / "timestamp_history.html"
-- 
2.43.0


From 3a44c749acb8d86fec6233cae4924a2219a085d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:14 +0000
Subject: [PATCH 02/68] fix: tidal correction skipped the last tide interval
 and depended on file order

The last interval of the tide table was never used (bound len-2), a reading taken exactly at the
first tide sample was not corrected, and readings or tide samples that come from several files in
directory order were interpolated between the wrong samples because the index only moved forward.
---
 src/auv_nav/parse.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index e764f8e..d0e77fd 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -651,6 +651,7 @@ def parse_single(filepath, force_overwrite):
             tide_list = parse_tide_CTI(mission, vehicle, "tide", ftype, outpath)
         else:
             Console.quit("Mission tide format", mission.tide.format, "not supported.")
+        tide_list.sort(key=lambda tide: tide["epoch_timestamp"])
     else:
         tide_list = None
 
@@ -710,20 +711,22 @@ def parse_single(filepath, force_overwrite):
                 # Offset depth to acknowledge for tides
                 missing_tide_data_before = False
                 missing_tide_data_after = False
-                j = 0
+                j = min(1, len(tide_list) - 1)
                 for k in range(len(results)):
+                    timestamp = results[k]["epoch_timestamp"]
+                    # The readings are not always in chronological order, e.g. if they
+                    # were read from several files, so search in both directions
+                    while j > 1 and tide_list[j - 1]["epoch_timestamp"] > timestamp:
+                        j = j - 1
                     while (
-                        j < len(tide_list)-2
-                        and tide_list[j]["epoch_timestamp"]
-                        < results[k]["epoch_timestamp"]
+                        j < len(tide_list) - 1
+                        and tide_list[j]["epoch_timestamp"] < timestamp
                     ):
                         j = j + 1
 
-                    if j == 0:
+                    if j == 0 or timestamp < tide_list[0]["epoch_timestamp"]:
                         missing_tide_data_before = True
-                    elif (
-                        results[k]["epoch_timestamp"] <= tide_list[j]["epoch_timestamp"]
-                    ):
+                    elif timestamp <= tide_list[j]["epoch_timestamp"]:
                         _result = interpolate(
                             results[k]["epoch_timestamp"],
                             tide_list[j - 1]["epoch_timestamp"],
-- 
2.43.0


From 95812f66aa95b1d7fee0613493801437899a48c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:08 +0000
Subject: [PATCH 03/68] fix: interlacing sorted time stamps as text

'999999999.0' sorts after '1000000000.0' as a string, so data with a differing number of digits
before the decimal point (a dive across 2001-09-09, a sensor with an unset clock) was not in
chronological order.
---
 src/auv_nav/parsers/parse_interlacer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/parse_interlacer.py b/src/auv_nav/parsers/parse_interlacer.py
index b6e6b34..786245d 100644
--- a/src/auv_nav/parsers/parse_interlacer.py
+++ b/src/auv_nav/parsers/parse_interlacer.py
@@ -31,7 +31,7 @@ def parse_interlacer(outpath, filename):
         with filepath.open("r") as json_file:
             data = json.load(json_file)
             for i, data_packet in enumerate(data):
-                value.append(str(float(data_packet["epoch_timestamp"])))
+                value.append(float(data_packet["epoch_timestamp"]))
 
     except ValueError:
         Console.quit("Error: no data in JSON file")
-- 
2.43.0


From dc7806e4a20ce2e4fde6f1b71019332dd9bc71a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:19 +0000
Subject: [PATCH 04/68] fix: one lost PHINS packet shifted the attitude records
 of the rest of the dive

The orientation record kept the half it had received, so a damaged heading or
attitude packet paired every later heading with the attitude of another epoch.
---
 src/auv_nav/parsers/parse_phins.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/auv_nav/parsers/parse_phins.py b/src/auv_nav/parsers/parse_phins.py
index 2965641..14fb045 100644
--- a/src/auv_nav/parsers/parse_phins.py
+++ b/src/auv_nav/parsers/parse_phins.py
@@ -214,6 +214,9 @@ class PhinsParser:
             self.orientation.from_phins(line)
             if self.orientation.valid():
                 data = self.orientation.export(self.output_format)
+            elif header == PhinsHeaders.TIME:
+                # Do not complete a partly lost set of packets with later ones
+                self.orientation.clear()
 
         if self.category == Category.DEPTH and header == PhinsHeaders.DEPTH:
             self.depth.from_phins(line)
-- 
2.43.0


From c579b55049edd2e496c90e6d8bd81d40dbea1f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:49 +0000
Subject: [PATCH 05/68] fix: acfr images of a dive were given the time stamps
 of the dives parsed before it

The time stamp lists were module globals and kept growing when one command
parses several dives.
---
 src/auv_nav/parsers/parse_acfr_images.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/parsers/parse_acfr_images.py b/src/auv_nav/parsers/parse_acfr_images.py
index 560e515..8f2756b 100644
--- a/src/auv_nav/parsers/parse_acfr_images.py
+++ b/src/auv_nav/parsers/parse_acfr_images.py
@@ -16,10 +16,6 @@ import os
 from auv_nav.tools.time_conversions import date_time_to_epoch
 from oplab import Console, get_raw_folder
 
-epoch_timestamp_camera1 = []
-epoch_timestamp_camera2 = []
-values = []
-data_list = []
 tolerance = 0.05  # 0.01 # stereo pair must be within 10ms of each other
 
 
@@ -105,6 +101,8 @@ def parse_acfr_images(mission, vehicle, category, ftype, outpath):
         Console.warn("   --  Will assume that you want to process one camera only.")
         camera2_filename = camera1_filename
 
+    epoch_timestamp_camera1 = []
+    epoch_timestamp_camera2 = []
     data_list = []
     if ftype == "acfr":
         data_list = ""
-- 
2.43.0


From a676b32645554991bce4779895e83a84720b6d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:49 +0000
Subject: [PATCH 06/68] fix: parse --merge failed because it copied the yaml
 files from the processed folder

parse no longer puts mission, vehicle and camera.yaml there; take them from the
raw folder of the first dive.
---
 src/auv_nav/parse.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index d0e77fd..a1c0544 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -155,15 +155,15 @@ def parse(filepath, force_overwrite, merge):
 
         # copy mission.yaml and vehicle.yaml to processed folder for
         # process step
-        mission_processed = get_processed_folder(filepath[0]) / "mission.yaml"
-        vehicle_processed = get_processed_folder(filepath[0]) / "vehicle.yaml"
-        camera_processed = get_processed_folder(filepath[0]) / "camera.yaml"
+        mission_raw = get_raw_folder(filepath[0]) / "mission.yaml"
+        vehicle_raw = get_raw_folder(filepath[0]) / "vehicle.yaml"
+        camera_raw = get_raw_folder(filepath[0]) / "camera.yaml"
         mission_merged = processed_path / foldername / "mission.yaml"
         vehicle_merged = processed_path / foldername / "vehicle.yaml"
         camera_merged = processed_path / foldername / "camera.yaml"
-        mission_processed.copy(mission_merged)
-        vehicle_processed.copy(vehicle_merged)
-        camera_processed.copy(camera_merged)
+        mission_raw.copy(mission_merged)
+        vehicle_raw.copy(vehicle_merged)
+        camera_raw.copy(camera_merged)
 
         # interlace the data based on timestamps
         Console.info("Interlacing merged data...")
-- 
2.43.0


From feebe038391420f55ddcb44b54ff274d59a04aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:40 +0000
Subject: [PATCH 07/68] fix: an interrupted parse left a torn or unordered
 nav_standard.json

The file was written in place, then rewritten in place in time order, and a
later parse without -F took either for a finished one. Write it under a
temporary name and move it into place when it is complete.
---
 src/auv_nav/parse.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index a1c0544..7e42cc1 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -148,8 +148,11 @@ def parse(filepath, force_overwrite, merge):
         # create file (overwrite if exists)
         filename = "nav_standard.json"
         nav_file = nav_folder / filename
+        # written under a temporary name until it is complete
+        temp_filename = filename + ".tmp"
+        temp_file = nav_folder / temp_filename
         Console.info("Writing the ouput to:", str(nav_file))
-        with nav_file.open("w") as fileout:
+        with temp_file.open("w") as fileout:
             json.dump(data_list, fileout, indent=2)
         fileout.close()
 
@@ -167,7 +170,8 @@ def parse(filepath, force_overwrite, merge):
 
         # interlace the data based on timestamps
         Console.info("Interlacing merged data...")
-        parse_interlacer(nav_folder, filename)
+        parse_interlacer(nav_folder, temp_filename)
+        temp_file.replace(nav_file)
         Console.info(
             "...done interlacing merged data. Output saved to",
             nav_folder / filename,
@@ -773,7 +777,10 @@ def parse_single(filepath, force_overwrite):
 
     # create file (overwrite if exists)
     nav_file = outpath / filename
-    with nav_file.open("w") as fileout:
+    # written under a temporary name until it is complete
+    temp_filename = filename + ".tmp"
+    temp_file = outpath / temp_filename
+    with temp_file.open("w") as fileout:
         json.dump(data_list_temp, fileout, indent=2)
     fileout.close()
     Console.info("...done writing to output file.")
@@ -783,7 +790,8 @@ def parse_single(filepath, force_overwrite):
 
     # interlace the data based on timestamps
     Console.info("Interlacing data...")
-    parse_interlacer(outpath, filename)
+    parse_interlacer(outpath, temp_filename)
+    temp_file.replace(nav_file)
     Console.info("...done interlacing data. Output saved to", outpath / filename)
     plot_parse_data(outpath, ftype) # it makes the program stuck with unknown reasons
     Console.info("Complete parse data")
-- 
2.43.0


From 5169edc7d9622005a3bf2ea1de1539dea8c0efd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:32 +0000
Subject: [PATCH 08/68] fix: parse hung forever when a parser stopped with
 Console.quit

The SystemExit ended the pool's worker thread and pool.join() waited for a
result that could not come.
---
 src/auv_nav/parse.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index 7e42cc1..c018ef3 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -46,6 +46,24 @@ from oplab import Console, Mission, Vehicle, get_processed_folder, get_raw_folde
 # fmt: on
 
 
+class ParserPool(ThreadPool):
+    """Thread pool for parsers, which stop with Console.quit on invalid input
+
+    The SystemExit that Console.quit raises would only end the worker thread, and
+    the pool would wait for the result forever.
+    """
+
+    @staticmethod
+    def run_parser(parser, args):
+        try:
+            return parser(*args)
+        except SystemExit as e:
+            raise RuntimeError("Parsing stopped by " + parser.__name__) from e
+
+    def apply_async(self, func, args=()):
+        return super().apply_async(self.run_parser, [func, args])
+
+
 def merge_json_files(json_file_list):
     # Check that all origins are the same
     origin_lat = None
@@ -244,7 +262,7 @@ def parse_single(filepath, force_overwrite):
         cpu_to_use = multiprocessing.cpu_count() - 2
 
     try:
-        pool = ThreadPool(cpu_to_use)
+        pool = ParserPool(cpu_to_use)
     except AttributeError as e:
         print(
             "Error: ",
-- 
2.43.0


From 076386a58578b9382f4d058a799e065b539af3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:14 +0000
Subject: [PATCH 09/68] fix: do not delete from velocity_inertial_list while a
 thread writes it

The writer of velocity_inertial.csv runs in the background. Deleting the first
element of the list it iterates loses a row, or ends the writer with an IndexError.
---
 src/auv_nav/process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 632374e..508ce2d 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1087,7 +1087,8 @@ def process(
                 )
 
         if interpolate_remove_flag:
-            del velocity_inertial_list[0]
+            # Do not modify the list in place: it is being written to disk by a thread
+            velocity_inertial_list = velocity_inertial_list[1:]
             interpolate_remove_flag = False  # reset flag
         Console.info(
             "Completed interpolation and coordinate transfomations for",
-- 
2.43.0


From c530a57a3d5f644400846d04aa7f1bdbd31eaf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:14 +0000
Subject: [PATCH 10/68] fix: assign both latitude and longitude of the particle
 filter DVL track

The longitude was set to the (latitude, longitude) tuple, so every row of
auv_pf_dvl.csv had an additional column.
---
 src/auv_nav/process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 508ce2d..c3c641d 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1187,8 +1187,10 @@ def process(
         )
         pf_fusion_centre_list = copy.deepcopy(pf_fusion_dvl_list)
         for i in range(len(pf_fusion_centre_list)):
-            pf_fusion_dvl_list[i].latitude,
-            pf_fusion_dvl_list[i].longitude = metres_to_latlon(
+            (
+                pf_fusion_dvl_list[i].latitude,
+                pf_fusion_dvl_list[i].longitude,
+            ) = metres_to_latlon(
                 mission.origin.latitude,
                 mission.origin.longitude,
                 pf_fusion_dvl_list[i].eastings,
-- 
2.43.0


From c955776e7be4fb009c8580cba842e39e30246407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:14 +0000
Subject: [PATCH 11/68] fix: process with the usbl filter off and plots on

usbl_list_no_dist_filter was only defined with the filter on.
---
 src/auv_nav/process.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index c3c641d..736b4b5 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -749,6 +749,7 @@ def process(
         )
 
     # perform usbl_filter
+    usbl_list_no_dist_filter = usbl_list
     if usbl_filter_activate:
         usbl_list_no_dist_filter, usbl_list = usbl_filter(
             usbl_list, depth_list, sigma_factor, max_auv_speed,
-- 
2.43.0


From a6f1fa49853fdf4d3740cdd4a689a420320a5d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:14 +0000
Subject: [PATCH 12/68] fix: do not convert poses to relative poses while they
 are written

The conversion for SLAM++ modifies camera1_ekf_list in place, while threads write
the same objects to auv_ekf_<camera>.csv and plot them.
---
 src/auv_nav/process.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 736b4b5..884e0e2 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -2033,6 +2033,10 @@ def process(
             t.start()
             threads.append(t)
     if spp_output_activate and ekf_activate:
+        # The conversions below modify the poses in place: wait for the threads that
+        # are still writing and plotting them
+        for t in threads:
+            t.join()
         Console.info("Converting covariance matrices into information matrices...")
         for i in range(len(camera1_ekf_list)):
             camera1_ekf_list[i].get_info()
-- 
2.43.0


From d0ac4127b271a6a7076899680d85bee6f8f86359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:14 +0000
Subject: [PATCH 13/68] fix: race when creating the csv folder

The writers of the raw sensor tables create the same folder in the background.
---
 src/auv_nav/process.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 884e0e2..129593d 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1716,8 +1716,7 @@ def process(
         Console.info("Writing csv outputs to {}".format(csvpath))
         if csv_usbl:
             if len(usbl_list) > 1:
-                if not csvpath.exists():
-                    csvpath.mkdir()
+                csvpath.mkdir(parents=True, exist_ok=True)
                 auv_usbl_file = csvpath / "auv_usbl.csv"
                 with auv_usbl_file.open("w") as fileout:
                     fileout.write(
-- 
2.43.0


From 61de8425005e4c0fa62a3c3774e2cc02edc9749a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:14 +0000
Subject: [PATCH 14/68] fix: release the csv writer lock when the folder cannot
 be created

Otherwise the remaining writers, and process, wait forever.
---
 src/auv_nav/tools/csv_tools.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/tools/csv_tools.py b/src/auv_nav/tools/csv_tools.py
index 35d0207..9c275c1 100644
--- a/src/auv_nav/tools/csv_tools.py
+++ b/src/auv_nav/tools/csv_tools.py
@@ -51,9 +51,11 @@ def write_csv(
         if not csv_file.exists():
             if mutex is not None:
                 mutex.acquire()
-            csv_file.mkdir(parents=True, exist_ok=True)
-            if mutex is not None:
-                mutex.release()
+            try:
+                csv_file.mkdir(parents=True, exist_ok=True)
+            finally:
+                if mutex is not None:
+                    mutex.release()
 
         Console.info("Writing outputs to {}.csv ...".format(csv_filename))
         file = csv_file / "{}.csv".format(csv_filename)
-- 
2.43.0


From e1a8bebbb194c337ecbca25bac55e9a1042f073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:14 +0000
Subject: [PATCH 15/68] fix: latitude and longitude of EKF camera poses are
 those of the camera

They were those of the vehicle's origin, in the same row as the camera's northing
and easting.
---
 src/auv_nav/sensors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index ffdafb6..2b485bc 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -1898,8 +1898,8 @@ class Camera(SyncedOrientationBodyVelocity):
         [self.latitude, self.longitude] = metres_to_latlon(
             latitude_reference,
             longitude_reference,
-            other.eastings,
-            other.northings,
+            self.eastings,
+            self.northings,
         )
 
         self.updated = True
-- 
2.43.0


From 991b3f9308de1eb3601b4ce3aeeb74a2149d411d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:14 +0000
Subject: [PATCH 16/68] fix: shift the altitude of EKF poses from the DVL to
 the vehicle's origin

The depth is shifted, and so is the altitude in the dead reckoning solution.
---
 src/auv_nav/localisation/ekf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_nav/localisation/ekf.py b/src/auv_nav/localisation/ekf.py
index 018464f..eb534b0 100644
--- a/src/auv_nav/localisation/ekf.py
+++ b/src/auv_nav/localisation/ekf.py
@@ -1117,6 +1117,8 @@ def save_ekf_to_list(
             dead_reckoning_dvl_list[dr_idx - 1].altitude,
             dead_reckoning_dvl_list[dr_idx].altitude,
         )
+        if shift_to_origin:
+            b.altitude -= z_offset
         ekf_list.append(b)
     return ekf_list
 
-- 
2.43.0


From 5a5aa2f3368c0fe33a090ef9a3e6b9c200df130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:14 +0000
Subject: [PATCH 17/68] fix: keep all readings up to the end of the track, and
 none after it

interpolate_sensor_list deleted all but the first image or payload reading in the
last interval of the track, and extrapolated one reading beyond its end.
---
 src/auv_nav/tools/interpolate.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/auv_nav/tools/interpolate.py b/src/auv_nav/tools/interpolate.py
index e62e609..5ee5a59 100644
--- a/src/auv_nav/tools/interpolate.py
+++ b/src/auv_nav/tools/interpolate.py
@@ -350,7 +350,7 @@ def interpolate_sensor_list(
                     del sensor_list[:i]
                 break
         for i in range(len(sensor_list)):
-            if j >= len(_centre_list) - 1:
+            if sensor_list[i].epoch_timestamp > end_time:
                 ii = len(sensor_list) - i
                 if ii > 0:
                     Console.warn(
@@ -369,13 +369,10 @@ def interpolate_sensor_list(
                     del sensor_list[i:]
                 sensor_overlap_flag = 1
                 break
-            while _centre_list[j].epoch_timestamp < sensor_list[i].epoch_timestamp:
-                if (
-                    j + 1 > len(_centre_list) - 1
-                    or _centre_list[j + 1].epoch_timestamp
-                    > sensor_list[-1].epoch_timestamp
-                ):
-                    break
+            while (
+                j < len(_centre_list) - 1
+                and _centre_list[j].epoch_timestamp < sensor_list[i].epoch_timestamp
+            ):
                 j += 1
             # if j>=1: ?
 
-- 
2.43.0


From 9acedae02c534434d0e755d71b7716b8c3b3eaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:34 +0000
Subject: [PATCH 18/68] fix: process reported success when a thread failed to
 write its output

An exception (disk full, I/O error, Console.quit) in one of the threads that write
the csv files ended only that thread, and auv_nav process ended with status 0.
---
 src/auv_nav/process.py | 104 ++++++++++++++++++++++++-----------------
 1 file changed, 61 insertions(+), 43 deletions(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 129593d..322fd02 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -82,6 +82,27 @@ csv files and, if plot is True, save plots
 """
 
 
+class OutputThread(threading.Thread):
+    """Thread that writes result tables, and remembers whether it failed"""
+
+    failed = False
+
+    def run(self):
+        try:
+            super().run()
+        except BaseException:
+            self.failed = True
+            raise
+
+
+def join_threads(threads):
+    """Wait for all threads, and stop if one of them could not write its results"""
+    for t in threads:
+        t.join()
+    if any(getattr(t, "failed", False) for t in threads):
+        Console.quit("Some of the outputs could not be written, see the errors above")
+
+
 def process(
     filepath,
     force_overwite,
@@ -594,42 +615,42 @@ def process(
 
     threads = []
     mutex = threading.Lock()
-    t = threading.Thread(
+    t = OutputThread(
         target=write_csv,
         args=[raw_sensor_path, velocity_body_list, "velocity_body"],
         kwargs={"mutex": mutex},
     )
     t.start()
     threads.append(t)
-    t = threading.Thread(
+    t = OutputThread(
         target=write_csv,
         args=[raw_sensor_path, velocity_inertial_list, "velocity_inertial"],
         kwargs={"mutex": mutex},
     )
     t.start()
     threads.append(t)
-    t = threading.Thread(
+    t = OutputThread(
         target=write_csv,
         args=[raw_sensor_path, altitude_list, "altitude"],
         kwargs={"mutex": mutex},
     )
     t.start()
     threads.append(t)
-    t = threading.Thread(
+    t = OutputThread(
         target=write_csv,
         args=[raw_sensor_path, orientation_list, "orientation"],
         kwargs={"mutex": mutex},
     )
     t.start()
     threads.append(t)
-    t = threading.Thread(
+    t = OutputThread(
         target=write_csv,
         args=[raw_sensor_path, depth_list, "depth"],
         kwargs={"mutex": mutex},
     )
     t.start()
     threads.append(t)
-    t = threading.Thread(
+    t = OutputThread(
         target=write_csv,
         args=[raw_sensor_path, usbl_list, "usbl"],
         kwargs={"mutex": mutex},
@@ -1505,7 +1526,7 @@ def process(
 
         # Write out uncertainties based on subtracting positions
         args = [ekf_csv_folder, laser_camera_at_dvl_states, filename_cov_from_subtract]
-        t = threading.Thread(target=write_csv, args=args)
+        t = OutputThread(target=write_csv, args=args)
         t.start()
         threads.append(t)
 
@@ -1514,13 +1535,12 @@ def process(
         # Here we are using the the new poses, whereas we only want to use the new covariances but the original poses.
         # But when using the data in laser_bathymetry, the original pose file can be used witht this covariance file.
         args = [ekf_csv_folder, camera3_ekf_list_cropped, filename_cov_from_ekf]
-        t = threading.Thread(target=write_csv, args=args)
+        t = OutputThread(target=write_csv, args=args)
         t.start()
         threads.append(t)
 
         Console.info("Waiting for all threads to finish")
-        for t in threads:
-            t.join()
+        join_threads(threads)
         Console.info("DONE")
         Console.quit(
             "Finished writing out relative uncertainties and quitting (this is not a failure)"
@@ -1744,7 +1764,7 @@ def process(
                         except IndexError:
                             break
 
-        t = threading.Thread(
+        t = OutputThread(
             target=write_csv,
             args=[
                 drcsvpath,
@@ -1756,14 +1776,14 @@ def process(
         t.start()
         threads.append(t)
 
-        t = threading.Thread(
+        t = OutputThread(
             target=write_csv,
             args=[drcsvpath, dead_reckoning_dvl_list, "auv_dr_dvl", csv_dr_auv_dvl],
         )
         t.start()
         threads.append(t)
 
-        t = threading.Thread(
+        t = OutputThread(
             target=write_csv,
             args=[
                 pfcsvpath,
@@ -1775,14 +1795,14 @@ def process(
         t.start()
         threads.append(t)
 
-        t = threading.Thread(
+        t = OutputThread(
             target=write_csv,
             args=[pfcsvpath, pf_fusion_dvl_list, "auv_pf_dvl", csv_pf_auv_dvl],
         )
         t.start()
         threads.append(t)
 
-        t = threading.Thread(
+        t = OutputThread(
             target=write_csv,
             args=[ekfcsvpath, ekf_list, "auv_ekf_centre", csv_ekf_auv_centre],
         )
@@ -1791,7 +1811,7 @@ def process(
 
         for key in payload_dict:
             if "_pf" in key:
-                t = threading.Thread(
+                t = OutputThread(
                     target=write_csv,
                     args=[
                         pfcsvpath,
@@ -1803,7 +1823,7 @@ def process(
                 t.start()
                 threads.append(t)
             elif "_ekf" in key:
-                t = threading.Thread(
+                t = OutputThread(
                     target=write_csv,
                     args=[
                         ekfcsvpath,
@@ -1815,7 +1835,7 @@ def process(
                 t.start()
                 threads.append(t)
             else:  # dead reckoning
-                t = threading.Thread(
+                t = OutputThread(
                     target=write_csv,
                     args=[
                         drcsvpath,
@@ -1828,7 +1848,7 @@ def process(
                 threads.append(t)
 
         if len(camera1_dr_list) > 0:
-            t = threading.Thread(
+            t = OutputThread(
                 target=write_csv,
                 args=[
                     drcsvpath,
@@ -1840,7 +1860,7 @@ def process(
             t.start()
             threads.append(t)
             if particle_filter_activate:
-                t = threading.Thread(
+                t = OutputThread(
                     target=write_csv,
                     args=[
                         pfcsvpath,
@@ -1852,7 +1872,7 @@ def process(
                 t.start()
                 threads.append(t)
             if ekf_activate:
-                t = threading.Thread(
+                t = OutputThread(
                     target=write_csv,
                     args=[
                         ekfcsvpath,
@@ -1864,7 +1884,7 @@ def process(
                 t.start()
                 threads.append(t)
         if len(camera2_dr_list) > 1:
-            t = threading.Thread(
+            t = OutputThread(
                 target=write_csv,
                 args=[
                     drcsvpath,
@@ -1876,7 +1896,7 @@ def process(
             t.start()
             threads.append(t)
             if particle_filter_activate:
-                t = threading.Thread(
+                t = OutputThread(
                     target=write_csv,
                     args=[
                         pfcsvpath,
@@ -1888,7 +1908,7 @@ def process(
                 t.start()
                 threads.append(t)
             if ekf_activate:
-                t = threading.Thread(
+                t = OutputThread(
                     target=write_csv,
                     args=[
                         ekfcsvpath,
@@ -1901,7 +1921,7 @@ def process(
                 threads.append(t)
         if len(camera3_dr_list) > 1:
             if len(mission.image.cameras) > 2:
-                t = threading.Thread(
+                t = OutputThread(
                     target=write_csv,
                     args=[
                         drcsvpath,
@@ -1913,7 +1933,7 @@ def process(
                 t.start()
                 threads.append(t)
                 if particle_filter_activate:
-                    t = threading.Thread(
+                    t = OutputThread(
                         target=write_csv,
                         args=[
                             pfcsvpath,
@@ -1925,7 +1945,7 @@ def process(
                     t.start()
                     threads.append(t)
                 if ekf_activate:
-                    t = threading.Thread(
+                    t = OutputThread(
                         target=write_csv,
                         args=[
                             ekfcsvpath,
@@ -1936,7 +1956,7 @@ def process(
                     )
                     t.start()
                     threads.append(t)
-                    t = threading.Thread(
+                    t = OutputThread(
                         target=write_csv,
                         args=[
                             ekfcsvpath,
@@ -1950,7 +1970,7 @@ def process(
                     t.start()
                     threads.append(t)
             elif len(mission.image.cameras) == 2:
-                t = threading.Thread(
+                t = OutputThread(
                     target=write_csv,
                     args=[
                         drcsvpath,
@@ -1962,7 +1982,7 @@ def process(
                 t.start()
                 threads.append(t)
                 if particle_filter_activate:
-                    t = threading.Thread(
+                    t = OutputThread(
                         target=write_csv,
                         args=[
                             pfcsvpath,
@@ -1974,7 +1994,7 @@ def process(
                     t.start()
                     threads.append(t)
                 if ekf_activate:
-                    t = threading.Thread(
+                    t = OutputThread(
                         target=write_csv,
                         args=[
                             ekfcsvpath,
@@ -1986,7 +2006,7 @@ def process(
                     t.start()
                     threads.append(t)
                     print("Writing CSV EKF at_dvl")
-                    t = threading.Thread(
+                    t = OutputThread(
                         target=write_csv,
                         args=[
                             ekfcsvpath,
@@ -2001,7 +2021,7 @@ def process(
                     threads.append(t)
 
         # Sidescan sonar outputs
-        t = threading.Thread(
+        t = OutputThread(
             target=write_sidescan_csv,
             args=[
                 drcsvpath,
@@ -2013,7 +2033,7 @@ def process(
         t.start()
         threads.append(t)
         if particle_filter_activate:
-            t = threading.Thread(
+            t = OutputThread(
                 target=write_sidescan_csv,
                 args=[
                     pfcsvpath,
@@ -2025,7 +2045,7 @@ def process(
             t.start()
             threads.append(t)
         if ekf_activate:
-            t = threading.Thread(
+            t = OutputThread(
                 target=write_sidescan_csv,
                 args=[ekfcsvpath, ekf_list, "auv_ekf_centre_sss", csv_ekf_auv_centre],
             )
@@ -2034,8 +2054,7 @@ def process(
     if spp_output_activate and ekf_activate:
         # The conversions below modify the poses in place: wait for the threads that
         # are still writing and plotting them
-        for t in threads:
-            t.join()
+        join_threads(threads)
         Console.info("Converting covariance matrices into information matrices...")
         for i in range(len(camera1_ekf_list)):
             camera1_ekf_list[i].get_info()
@@ -2055,7 +2074,7 @@ def process(
             camera1_ekf_list[i].information = camera1_ekf_list[i + 1].information
         camera1_ekf_list = camera1_ekf_list[:-1]
 
-        t = threading.Thread(
+        t = OutputThread(
             target=spp_csv,
             args=[
                 camera1_ekf_list,
@@ -2066,7 +2085,7 @@ def process(
         )
         t.start()
         threads.append(t)
-        t = threading.Thread(
+        t = OutputThread(
             target=spp_csv,
             args=[
                 camera2_ekf_list,
@@ -2079,7 +2098,7 @@ def process(
         threads.append(t)
         if len(camera3_ekf_list) > 1:
             if len(mission.image.cameras) > 2:
-                t = threading.Thread(
+                t = OutputThread(
                     target=spp_csv,
                     args=[
                         camera3_ekf_list,
@@ -2091,7 +2110,7 @@ def process(
                 t.start()
                 threads.append(t)
             elif len(mission.image.cameras) == 2:
-                t = threading.Thread(
+                t = OutputThread(
                     target=spp_csv,
                     args=[
                         camera3_ekf_list,
@@ -2103,6 +2122,5 @@ def process(
                 t.start()
                 threads.append(t)
     Console.info("Waiting for all threads to finish")
-    for t in threads:
-        t.join()
+    join_threads(threads)
     Console.info("DONE")
-- 
2.43.0


From 790d189d242ecbf6f4702d52e6467fabf61a1851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:49 +0000
Subject: [PATCH 19/68] fix: shift depth and altitude of the particle filter
 track to the vehicle's origin

As in the dead reckoning solution: the depth is that of the depth sensor, the
altitude that of the DVL.
---
 src/auv_nav/process.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 322fd02..8e9dce9 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1218,7 +1218,7 @@ def process(
                 pf_fusion_dvl_list[i].eastings,
                 pf_fusion_dvl_list[i].northings,
             )
-            [x_offset, y_offset, z_offset] = body_to_inertial(
+            [x_offset, y_offset, a_offset] = body_to_inertial(
                 pf_fusion_centre_list[i].roll,
                 pf_fusion_centre_list[i].pitch,
                 pf_fusion_centre_list[i].yaw,
@@ -1226,8 +1226,18 @@ def process(
                 vehicle.origin.sway - vehicle.dvl.sway,
                 vehicle.origin.heave - vehicle.dvl.heave,
             )
+            [_, _, z_offset] = body_to_inertial(
+                pf_fusion_centre_list[i].roll,
+                pf_fusion_centre_list[i].pitch,
+                pf_fusion_centre_list[i].yaw,
+                vehicle.origin.surge - vehicle.depth.surge,
+                vehicle.origin.sway - vehicle.depth.sway,
+                vehicle.origin.heave - vehicle.depth.heave,
+            )
             pf_fusion_centre_list[i].northings += x_offset
             pf_fusion_centre_list[i].eastings += y_offset
+            pf_fusion_centre_list[i].altitude -= a_offset
+            pf_fusion_centre_list[i].depth += z_offset
             lat, lon = metres_to_latlon(
                 mission.origin.latitude,
                 mission.origin.longitude,
-- 
2.43.0


From 09094d28dcd6917219dadf6070810a110f4ec746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:34 +0000
Subject: [PATCH 20/68] fix: first USBL measurement of the particle filter

Dead reckoning was indexed with the index of the USBL measurement: the filter
skipped measurements, or ended with an IndexError when there were more USBL
measurements than dead reckoning positions.
---
 src/auv_nav/localisation/pf.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index 1e84b2b..4d6219c 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -385,21 +385,13 @@ def get_prior(dr_list, usbl_list):
 
     dr_index = 0
     usbl_index = 0
-    usbl_t = usbl_list[usbl_index].epoch_timestamp
-    dr_t = dr_list[usbl_index].epoch_timestamp
-
-    while dr_index < len(dr_list) and usbl_t > dr_t:
-        usbl_t = usbl_list[usbl_index].epoch_timestamp
-        dr_t = dr_list[usbl_index].epoch_timestamp
-        dr_index += 1
-    while usbl_index < len(usbl_list) and usbl_t < dr_t:
-        usbl_t = usbl_list[usbl_index].epoch_timestamp
-        dr_t = dr_list[usbl_index].epoch_timestamp
+    # Start at the first USBL measurement that is not before the start of DR
+    while (
+        usbl_index < len(usbl_list)
+        and usbl_list[usbl_index].epoch_timestamp < dr_list[dr_index].epoch_timestamp
+    ):
         usbl_index += 1
 
-    # Fix DR to index zero
-    dr_index = 0
-
     # Build state from first known USBL and DR, and use that displacement
     # error at the start of DR.
     x = dr_list[dr_index].northings + northings_mean
-- 
2.43.0


From eabcaf08e910f258f0db519e3957e64470e20252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:05 +0000
Subject: [PATCH 21/68] fix: process with plots on and no particle_filter
 section in auv_nav.yaml

---
 src/auv_nav/process.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 8e9dce9..baed279 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -212,6 +212,7 @@ def process(
 
     # Default to no EKF and PF and SPP
     particle_filter_activate = False
+    particles_time_interval = False
     ekf_activate = False
     activate_smoother = True  # Apply smoothing. Only has appliles of ekf is enabled
     mahalanobis_distance_threshold = 3.0
-- 
2.43.0


From 75bfcfede10dfba6045afe6a45011fc2f83f5e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:53 +0000
Subject: [PATCH 22/68] fix: endless loop when a corrupted angle is wrapped

---
 src/auv_nav/localisation/ekf.py   | 14 ++++++--------
 src/auv_nav/parsers/parse_gaps.py |  6 ++----
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/auv_nav/localisation/ekf.py b/src/auv_nav/localisation/ekf.py
index eb534b0..2616b59 100644
--- a/src/auv_nav/localisation/ekf.py
+++ b/src/auv_nav/localisation/ekf.py
@@ -457,10 +457,8 @@ class EkfImpl(object):
                 "or, as a workaround, use a larger Mahalanobis Distance "
                 "threshold.",
             )
-        while rotation > math.pi:
-            rotation -= 2 * math.pi
-        while rotation < -math.pi:
-            rotation += 2 * math.pi
+        if abs(rotation) > math.pi:
+            rotation = math.remainder(rotation, 2 * math.pi)
         return rotation
 
     def check_mahalanobis_distance(
@@ -594,10 +592,10 @@ class EkfImpl(object):
         # Wrap angles of the innovation_subset
         for i, idx in enumerate(update_indices):
             if idx == Index.ROLL or idx == Index.PITCH or idx == Index.YAW:
-                while innovation_subset[i] < -math.pi:
-                    innovation_subset[i] += 2 * math.pi
-                while innovation_subset[i] > math.pi:
-                    innovation_subset[i] -= 2 * math.pi
+                if abs(innovation_subset[i]) > math.pi:
+                    innovation_subset[i] = math.remainder(
+                        innovation_subset[i], 2 * math.pi
+                    )
 
         # (2) Check mahalanobis distance
         valid = self.check_mahalanobis_distance(
diff --git a/src/auv_nav/parsers/parse_gaps.py b/src/auv_nav/parsers/parse_gaps.py
index 5f92c1a..3930551 100644
--- a/src/auv_nav/parsers/parse_gaps.py
+++ b/src/auv_nav/parsers/parse_gaps.py
@@ -320,10 +320,8 @@ def parse_gaps(mission, vehicle, category, ftype, outpath):
                         + heading_ship_prior
                     )
 
-                    while heading_ship > 360:
-                        heading_ship = heading_ship - 360
-                    while heading_ship < 0:
-                        heading_ship = heading_ship + 360
+                    if heading_ship > 360 or heading_ship < 0:
+                        heading_ship = heading_ship % 360
 
                     lateral_distance, bearing = latlon_to_metres(
                         latitude, longitude, latitude_ship, longitude_ship
-- 
2.43.0


From 0f84bbbb41bf01ab8d5bac821d13dd37d69b7eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:44 +0000
Subject: [PATCH 23/68] fix: correct_images parse of several dives only used
 the last dive

The images and altitudes of the earlier dives were only carried over for
manual_balance, so that colour_correction parameters for several dives were
computed from the images of the last one.
---
 src/correct_images/corrector.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index c9dcde2..114ec99 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -666,17 +666,17 @@ class Corrector:
             )
         else:
             # Copy the images list from the camera
-            self.camera_image_list = self.camera.image_list
+            self.camera_image_list = list(self.camera.image_list)
 
-            # Join the current image list with the original image list (copy)
-            self.camera_image_list.extend(_original_image_list)
-            # Show size of the extended image list
-            # Informative for message for multidive
-            Console.info(
-                "The camera image list has", len(self.camera_image_list), "entries"
-            )
-            # Join the current image list with the original image list (copy)
-            self.altitude_list.extend(_original_altitude_list)
+        # Join the current image list with the original image list (copy)
+        self.camera_image_list.extend(_original_image_list)
+        # Show size of the extended image list
+        # Informative for message for multidive
+        Console.info(
+            "The camera image list has", len(self.camera_image_list), "entries"
+        )
+        # Join the current image list with the original image list (copy)
+        self.altitude_list.extend(_original_altitude_list)
 
     def get_altitude_and_depth_maps(self):
         """Generate distance matrix numpy files and save them"""
-- 
2.43.0


From b71593ab0a4d6410888cef13c2f30d12401cbd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:44 +0000
Subject: [PATCH 24/68] fix: correct_images smoothing by trimmed mean

Monochrome images raised an IndexError, and colour images were indexed with a
nested list, so that the trimmed mean was taken over nothing.
---
 src/correct_images/tools/numerical.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/correct_images/tools/numerical.py b/src/correct_images/tools/numerical.py
index 5b6062a..cbdb4d6 100644
--- a/src/correct_images/tools/numerical.py
+++ b/src/correct_images/tools/numerical.py
@@ -293,17 +293,15 @@ def image_mean_std_trimmed(data, ratio_trimming=0.2, calculate_std=True):
     numpy.ndarray
         Trimmed mean and std
     """
-    n = data.shape[0]
+    if len(data.shape) == 3:
+        # Monochrome
+        data = data[:, :, :, np.newaxis]
     a = data.shape[1]
     b = data.shape[2]
-    c = 1
-    if len(data.shape) == 4:
-        c = data.shape[3]
+    c = data.shape[3]
     ret_mean = np.zeros((a, b, c), np.float32)
     ret_std = np.zeros((a, b, c), np.float32)
 
-    effective_index = [list(range(0, n))]
-
     message = "calculating mean and std of images " + datetime.datetime.now().strftime(
         "%Y-%m-%d %H:%M:%S"
     )
@@ -318,7 +316,7 @@ def image_mean_std_trimmed(data, ratio_trimming=0.2, calculate_std=True):
                 results = [None] * b
                 for idx_b in range(b):
                     results[idx_b] = calc_mean_and_std_trimmed(
-                        data[effective_index, idx_a, idx_b, ch],
+                        data[:, idx_a, idx_b, ch],
                         ratio_trimming,
                         calculate_std,
                     )
-- 
2.43.0


From 2fc74fb041f40eaf4950378d5560731f6cf5e0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:44 +0000
Subject: [PATCH 25/68] fix: correct_images process with manual_balance

The file list was written from a navigation file that is not read for
manual_balance, and grayscale images were indexed like colour images.
---
 src/correct_images/corrector.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index 114ec99..3c7372a 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -1277,6 +1277,16 @@ class Corrector:
                 image_names.append(Path(path).stem)
         d = {"image_names": image_names, "relative_path": self.processed_image_list}
         dataframe = pd.DataFrame(d)
+        filelist_path = self.output_images_folder / "filelist.csv"
+
+        if self.altitude_csv_path is None:
+            # manual_balance does not read any navigation
+            dataframe["relative_path"] = [
+                Path(path).name for path in dataframe["relative_path"]
+            ]
+            dataframe.to_csv(filelist_path)
+            Console.info("Processing of images is completed")
+            return
 
         orig_dataframe = pd.read_csv(self.altitude_csv_path)
         orig_dataframe["raw_relative_path"] = orig_dataframe["relative_path"]
@@ -1301,7 +1311,6 @@ class Corrector:
             else:
                 # remove row
                 output_df.drop(index, inplace=True)
-        filelist_path = self.output_images_folder / "filelist.csv"
         output_df.to_csv(filelist_path)
         Console.info("Processing of images is completed")
 
@@ -1383,7 +1392,7 @@ class Corrector:
             ):
                 # debayer images
                 image_rgb = corrections.debayer(image, self._type)
-            elif self._type != "bgr":
+            elif self._type != "bgr" and self._type != "grayscale":
                 image_rgb = image.copy()
                 image_rgb[:, :, [0, 1, 2]] = image_rgb[:, :, [2, 1, 0]]
             else:
-- 
2.43.0


From 13b86fbb5abc3dbbeb7e487317df5c13ea9f5f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:44 +0000
Subject: [PATCH 26/68] fix: correct_images continued after failing to write an
 image

The image was listed as corrected although it could not be read back after
five attempts, and a successful repetition raised an AttributeError.
---
 src/correct_images/tools/file_handlers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/correct_images/tools/file_handlers.py b/src/correct_images/tools/file_handlers.py
index 8c443e6..7178026 100644
--- a/src/correct_images/tools/file_handlers.py
+++ b/src/correct_images/tools/file_handlers.py
@@ -148,11 +148,11 @@ def write_output_image(image, filename, dest_path, dest_format):
             image_written_ok = True
 
     if i >= max_tries:
-        Console.error(
+        Console.quit(
             f"Failed to write image {file_path} after {max_tries} unsuccessful attempts"
         )
     elif i > 0:
-        Console.warning(
+        Console.warn(
             f"Image {file_path} was written successfully after {i} failed attempt(s)"
         )
 
-- 
2.43.0


From 7f48259cb0d8797fb33f277b2a8d06afc64b3d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:44 +0000
Subject: [PATCH 27/68] fix: navigation solution used by correct_images
 depended on directory order

---
 src/correct_images/corrector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index 3c7372a..5bf08d6 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -543,7 +543,7 @@ class Corrector:
                     "csv files...",
                 )
                 dir_ = self.path_processed
-                json_list = list(dir_.glob("json_*"))
+                json_list = sorted(dir_.glob("json_*"))
                 if len(json_list) == 0:
                     Console.quit(
                         "No navigation solution could be found. Please run ",
-- 
2.43.0


From f95fdcbf224f9e3857a0867372cd8fe2cf817ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:44 +0000
Subject: [PATCH 28/68] fix: camera image list only had the images of one
 folder

When the path of a camera matches several folders, the images of all but the
first one the file system happened to return were left out.
---
 src/oplab/camera_system.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/oplab/camera_system.py b/src/oplab/camera_system.py
index 28f9941..b780513 100644
--- a/src/oplab/camera_system.py
+++ b/src/oplab/camera_system.py
@@ -164,26 +164,24 @@ class CameraEntry:
         if len(split_glob) == 2:
             pre_glob = split_glob[0] + "*"
             glob_vec = raw_dir.glob(pre_glob)
-            img_dirs = [k for k in glob_vec]
-            img_dir = Path(str(img_dirs[0]) + "/" + str(split_glob[1]))
-            for i in img_dir.rglob("*." + self.extension):
-                self._image_list.append(str(i))
+            for k in glob_vec:
+                img_dir = Path(str(k) + "/" + str(split_glob[1]))
+                for i in img_dir.rglob("*." + self.extension):
+                    self._image_list.append(str(i))
         elif len(split_glob) == 3:
             pre_glob = split_glob[0] + "*"
             glob_vec = raw_dir.glob(pre_glob)
-            img_dirs = [k for k in glob_vec]
-            img_dir = Path(str(img_dirs[0]))
-            for i in img_dir.glob("*" + split_glob[2] + "." + self.extension):
-                self._image_list.append(str(i))
+            for img_dir in glob_vec:
+                for i in img_dir.glob("*" + split_glob[2] + "." + self.extension):
+                    self._image_list.append(str(i))
         elif len(split_glob) == 4:  # path/i*/*LC*
             # split = ['path/i', '/', 'LC]
             pre_glob = split_glob[0] + "*"
             glob_vec = raw_dir.glob(pre_glob)
-            img_dirs = [k for k in glob_vec]
-            img_dir = Path(str(img_dirs[0]))
             Console.info("Looking for images with the pattern *", split_glob[2], "*")
-            for i in img_dir.glob("*" + split_glob[2] + "*." + self.extension):
-                self._image_list.append(str(i))
+            for img_dir in glob_vec:
+                for i in img_dir.glob("*" + split_glob[2] + "*." + self.extension):
+                    self._image_list.append(str(i))
         elif len(split_glob) == 1:
             img_dir = raw_dir / self.path
             for i in img_dir.glob("*." + self.extension):
-- 
2.43.0


From bfbe4fa9821801d98e7ceda04ade83cf62db1d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:44 +0000
Subject: [PATCH 29/68] fix: correct_images correct

parse expects a list of paths and the memmap options, so that correct failed
with any arguments.
---
 src/correct_images/correct_images.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/correct_images/correct_images.py b/src/correct_images/correct_images.py
index 9de5230..3b349bc 100644
--- a/src/correct_images/correct_images.py
+++ b/src/correct_images/correct_images.py
@@ -59,6 +59,19 @@ def main(args=None):
         default="",
         help="Expected suffix for correct_images configuration and output folders.",
     )
+    subparser_correct.add_argument(
+        "--memmap-location",
+        dest="memmap_location",
+        default=".",
+        help="Location for memmap files. Defaults to current directory.",
+    )
+    subparser_correct.add_argument(
+        "--memmap-size-gb",
+        dest="memmap_size_gb",
+        default=50,
+        type=int,
+        help="Size of individual memmap files in GB. Defaults to 50.",
+    )
     subparser_correct.set_defaults(func=call_correct)
 
     # subparser parse
@@ -316,7 +329,8 @@ def call_correct(args):
     args : parse_args object
         User provided arguments for path of source images
     """
-    call_parse(args)
+    # parse takes a list of dives
+    call_parse(argparse.Namespace(**{**vars(args), "path": [args.path]}))
     call_process(args)
 
 
-- 
2.43.0


From 16701ab25044afd681e67674a269125b50b72eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:44 +0000
Subject: [PATCH 30/68] fix: interrupted correct_images parse -F left old and
 new parameters mixed

process accepted any complete set of parameter files, also if only some of
them had been replaced.
---
 src/correct_images/corrector.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index 5bf08d6..7d3f0c3 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -319,6 +319,12 @@ class Corrector:
 
         if self.correction_method == "colour_correction":
             self.get_altitude_and_depth_maps()
+            # Do not leave a mix of old and new parameters behind if interrupted
+            for path in path_list:
+                attn_dir = Path(self.attenuation_parameters_folder)
+                relative_folder = attn_dir.relative_to(self.path_processed)
+                for file in (get_processed_folder(path) / relative_folder).glob("*.npy"):
+                    file.unlink()
             self.generate_attenuation_correction_parameters()
 
             for i in range(len(path_list)):  # for each dive
-- 
2.43.0


From b2cfe2aeb12f7bfc605e8901d644ed49354ab8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:23 +0000
Subject: [PATCH 31/68] fix: correct_images parse with one processor

The number of jobs became zero, which joblib rejects.
---
 src/correct_images/corrections/attenuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/correct_images/corrections/attenuation.py b/src/correct_images/corrections/attenuation.py
index 9b63834..f5fa0b2 100644
--- a/src/correct_images/corrections/attenuation.py
+++ b/src/correct_images/corrections/attenuation.py
@@ -157,7 +157,7 @@ def calculate_attenuation_parameters(
     num_jobs = int(available_bytes / required_bytes) * 2
 
     # Keep one alive!
-    cpus = psutil.cpu_count() - 1
+    cpus = max(psutil.cpu_count() - 1, 1)
 
     if num_jobs > cpus:
         num_jobs = cpus
-- 
2.43.0


From 6371dbe849f203bd7e27220321a43051348afe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:06 +0000
Subject: [PATCH 32/68] fix: stereo calibration outlier filter mixed up the
 pairs after the first round

The corners of the outliers were dropped but their images were kept, so from
the second round on the error of one pair was attributed to another one: pairs
that were fine were removed and outliers stayed in.
---
 src/auv_cal/camera_calibrator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/auv_cal/camera_calibrator.py b/src/auv_cal/camera_calibrator.py
index ed209ed..91ecf9f 100644
--- a/src/auv_cal/camera_calibrator.py
+++ b/src/auv_cal/camera_calibrator.py
@@ -1314,11 +1314,14 @@ class StereoCalibrator(Calibrator):
         if iteration < self.max_iterations - 1 and self.avg_reprojection_error > 0.6:
             epi_error_mean = np.mean(np.array(epipolar_error))
             epi_error_std = np.std(np.array(epipolar_error))
+            inliers = [
+                e < epi_error_mean + 2 * epi_error_std for e in epipolar_error
+            ]
             self.good_corners = [
-                c
-                for c, e in zip(self.good_corners, epipolar_error)
-                if e < epi_error_mean + 2 * epi_error_std
+                c for c, inlier in zip(self.good_corners, inliers) if inlier
             ]
+            # the images have to stay in step with the corners
+            self.db = [d for d, inlier in zip(self.db, inliers) if inlier]
             Console.info(
                 "Using "
                 + str(len(self.good_corners))
-- 
2.43.0


From f14c57c00cbe3e102dc72da5daf32ffdb2c0cb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:06 +0000
Subject: [PATCH 33/68] fix: stereo calibration wrote the rectification of the
 last round

With the extrinsics of the best round, the file held the rectification and
projection matrices computed for the last one, so they did not belong
together.
---
 src/auv_cal/camera_calibrator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_cal/camera_calibrator.py b/src/auv_cal/camera_calibrator.py
index 91ecf9f..dba3924 100644
--- a/src/auv_cal/camera_calibrator.py
+++ b/src/auv_cal/camera_calibrator.py
@@ -1348,6 +1348,8 @@ class StereoCalibrator(Calibrator):
             self.avg_reprojection_error = self.calibrations[best_idx][
                 "avg_reprojection_error"
             ]
+            # The rectification has to be the one of the chosen calibration
+            self.set_alpha(1.0)
 
         if self.debug:
             errors = []
-- 
2.43.0


From b4d9dd2266a08173916d5a21fedc2177dd45c0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:06 +0000
Subject: [PATCH 34/68] fix: mono calibration failed if the first image could
 not be loaded

Images that cannot be loaded are skipped, but the image size was taken from
the first one, whether it could be loaded or not.
---
 src/auv_cal/camera_calibrator.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/auv_cal/camera_calibrator.py b/src/auv_cal/camera_calibrator.py
index dba3924..926d4be 100644
--- a/src/auv_cal/camera_calibrator.py
+++ b/src/auv_cal/camera_calibrator.py
@@ -490,6 +490,17 @@ def resize_with_padding(img, size):
     return img
 
 
+def get_image_size(images_list):
+    """
+    Width and height of the first image of the list that can be loaded
+    """
+    for i in images_list:
+        image = cv2.imread(str(i))
+        if image is not None:
+            return (image.shape[1], image.shape[0])
+    raise CalibrationException("None of the images could be loaded!")
+
+
 class MonoCalibrator(Calibrator):
     """
     Calibration class for monocular cameras::
@@ -526,8 +537,7 @@ class MonoCalibrator(Calibrator):
 
     def cal_from_json(self, json_file, images_list):
         self.good_corners = []
-        test_image = cv2.imread(str(images_list[0]))
-        self.size = (test_image.shape[1], test_image.shape[0])
+        self.size = get_image_size(images_list)
         if self.resize:
             self.size = self.target_width, self.target_height
         with json_file.open("r") as f:
@@ -565,8 +575,7 @@ class MonoCalibrator(Calibrator):
 
         Return [ (corners, ChessboardInfo) ]
         """
-        test_image = cv2.imread(str(images_list[0]))
-        self.size = (test_image.shape[1], test_image.shape[0])
+        self.size = get_image_size(images_list)
 
         if self.resize:
             self.size = self.target_width, self.target_height
-- 
2.43.0


From a37a56040cb8d8a4b3132991b89488b00359314e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:00 +0000
Subject: [PATCH 35/68] fix: auv_cal ended with exit code 0 when it could not
 calibrate

Where the pattern was found in no image, mono failed on writing the image of
the detections instead; where the failure was reported, the command then ended
as if it had written the calibration.
---
 src/auv_cal/calibration.py       | 9 ++++-----
 src/auv_cal/camera_calibrator.py | 5 +++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/auv_cal/calibration.py b/src/auv_cal/calibration.py
index d1b04c2..42e8371 100644
--- a/src/auv_cal/calibration.py
+++ b/src/auv_cal/calibration.py
@@ -111,7 +111,7 @@ def calibrate_mono(
         with output_file.open("w") as f:
             f.write(mc.yaml())
     except CalibrationException:
-        Console.error("The calibration pattern was not found in the images.")
+        Console.quit("The calibration pattern was not found in the images.")
 
 
 def calibrate_stereo(
@@ -189,7 +189,7 @@ def calibrate_stereo(
         with output_file.open("w") as f:
             f.write(sc.yaml())
     except CalibrationException:
-        Console.error("The calibration pattern was not found in the images.")
+        Console.quit("The calibration pattern was not found in the images.")
 
 
 def calibrate_laser(
@@ -217,8 +217,7 @@ def calibrate_laser(
     )
     Console.info("Found " + str(len(non_laser_cam_image_list)) + " right images.")
     if len(laser_cam_image_list) < 8 or len(non_laser_cam_image_list) < 8:
-        Console.error("Too few images. Try to get more.")
-        return
+        Console.quit("Too few images. Try to get more.")
     try:
         model = StereoCamera(stereo_calibration_file)
 
@@ -244,7 +243,7 @@ def calibrate_laser(
             with output_file_b.open("w") as f:
                 f.write(lc.yaml_b())
     except CalibrationException:
-        Console.error("The calibration pattern was not found in the images.")
+        Console.quit("The calibration pattern was not found in the images.")
 
 
 def build_filepath(base, paths):
diff --git a/src/auv_cal/camera_calibrator.py b/src/auv_cal/camera_calibrator.py
index 926d4be..b522334 100644
--- a/src/auv_cal/camera_calibrator.py
+++ b/src/auv_cal/camera_calibrator.py
@@ -671,6 +671,9 @@ class MonoCalibrator(Calibrator):
 
                         if name == "":
                             name = i[2].stem
+        if not self.good_corners:
+            raise CalibrationException("No corners found in images!")
+
         filename = Path("/tmp/" + self.name + "_corners.png")
         if self.resize:
             filename = Path("/tmp/resized_" + self.name + "_corners.png")
@@ -679,8 +682,6 @@ class MonoCalibrator(Calibrator):
         print("Writing corners image to " + str(filename))
         cv2.imwrite(str(filename), all_detections)
 
-        if not self.good_corners:
-            raise CalibrationException("No corners found in images!")
         print("Using " + str(len(self.good_corners)) + " inlier files!")
         filename = Path("/tmp/" + self.name + "/" + name + "_inliers.txt")
         if self.resize:
-- 
2.43.0


From 7f2475979bb20f645ca849736bc7bbb77ab5b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:00 +0000
Subject: [PATCH 36/68] fix: interrupted auv_cal left torn calibration files

Calibrations, detected corners and detected laser lines were written in place,
and the next run took a torn file for a finished one. Write them under a
temporary name and move them into place when they are complete.
---
 src/auv_cal/calibration.py      | 25 ++++++++++++++-----------
 src/auv_cal/laser_calibrator.py |  5 ++++-
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/auv_cal/calibration.py b/src/auv_cal/calibration.py
index 42e8371..39466ea 100644
--- a/src/auv_cal/calibration.py
+++ b/src/auv_cal/calibration.py
@@ -53,6 +53,14 @@ def collect_image_files(image_dirs, file_pattern):
     return resolved_images
 
 
+def write_file(path: Path, content: str):
+    """Write a file under a temporary name until it is complete"""
+    temp_path = path.with_name(path.name + ".tmp")
+    with temp_path.open("w") as f:
+        f.write(content)
+    temp_path.replace(path)
+
+
 def check_pattern(config):
     if config["pattern"] == "Circles" or config["pattern"] == "circles":
         pattern = Patterns.Circles
@@ -101,15 +109,13 @@ def calibrate_mono(
         image_list_file = output_file.with_suffix(".json")
         if foa or not image_list_file.exists():
             mc.cal(image_list)
-            with image_list_file.open("w") as f:
-                Console.info("Writing JSON to " "'{}'" "".format(image_list_file))
-                json.dump(mc.json, f)
+            Console.info("Writing JSON to " "'{}'" "".format(image_list_file))
+            write_file(image_list_file, json.dumps(mc.json))
         else:
             mc.cal_from_json(image_list_file, image_list)
         mc.report()
         Console.info("Writing calibration to " "'{}'" "".format(output_file))
-        with output_file.open("w") as f:
-            f.write(mc.yaml())
+        write_file(output_file, mc.yaml())
     except CalibrationException:
         Console.quit("The calibration pattern was not found in the images.")
 
@@ -186,8 +192,7 @@ def calibrate_stereo(
         )
         sc.report()
         Console.info("Writing calibration to " "'{}'" "".format(output_file))
-        with output_file.open("w") as f:
-            f.write(sc.yaml())
+        write_file(output_file, sc.yaml())
     except CalibrationException:
         Console.quit("The calibration pattern was not found in the images.")
 
@@ -234,14 +239,12 @@ def calibrate_laser(
             output_file.parent,
         )
         Console.info("Writing calibration to " "'{}'" "".format(output_file))
-        with output_file.open("w") as f:
-            f.write(lc.yaml())
+        write_file(output_file, lc.yaml())
         if "two_lasers" not in config["detection"]:
             return
         if config["detection"]["two_lasers"]:
             Console.info("Writing calibration to " "'{}'" "".format(output_file_b))
-            with output_file_b.open("w") as f:
-                f.write(lc.yaml_b())
+            write_file(output_file_b, lc.yaml_b())
     except CalibrationException:
         Console.quit("The calibration pattern was not found in the images.")
 
diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index 3a8f7ea..d0cafec 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -419,8 +419,11 @@ def get_laser_pixels_in_image_pair(
                     for i in range(len(p1b))
                 ]
             )
-        with filename.open("w") as f:
+        # written under a temporary name until it is complete
+        temp_filename = filename.with_name(filename.name + ".tmp")
+        with temp_filename.open("w") as f:
             f.write(write_str)
+        temp_filename.replace(filename)
         p1 = np.array(p1, dtype=np.float32)
         p1b = np.array(p1b, dtype=np.float32)
         return p1, p1b
-- 
2.43.0


From 514a54db4cdd5e826fef7852a4fc10d75dca0e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:00 +0000
Subject: [PATCH 37/68] fix: stereo calibration of resized images could not be
 resumed

The resized mono calibration was only made if its corners were missing, so
after an interruption between the two files every later run failed, and -FF
did not make it anew.
---
 src/auv_cal/calibration.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/auv_cal/calibration.py b/src/auv_cal/calibration.py
index 39466ea..2a52c00 100644
--- a/src/auv_cal/calibration.py
+++ b/src/auv_cal/calibration.py
@@ -161,7 +161,11 @@ def calibrate_stereo(
             Console.info("  Camera:", left_name, "is", model.left.size)
             Console.info("  Camera:", right_name, "is", model.right.size)
             right_calib = right_calib.parent / ("resized_" + right_calib.name)
-            if not right_calib.with_suffix(".json").exists():
+            if (
+                foa
+                or not right_calib.exists()
+                or not right_calib.with_suffix(".json").exists()
+            ):
                 calibrate_mono(
                     right_name,
                     right_filepaths,
-- 
2.43.0


From 96736d9b08ef4d64546913d7631643b848ad7cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:00 +0000
Subject: [PATCH 38/68] fix: calibration images of a third camera in processed
 were not found

The path was built from the raw folder, unlike those of the other two
cameras, so stereo only found them there.
---
 src/auv_cal/calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auv_cal/calibration.py b/src/auv_cal/calibration.py
index 2a52c00..2dffc83 100644
--- a/src/auv_cal/calibration.py
+++ b/src/auv_cal/calibration.py
@@ -487,7 +487,8 @@ class Calibrator:
             left_extension = str(c0["camera_calibration"]["glob_pattern"])
             right_name = c2["name"]
             right_filepaths = build_filepath(
-                self.filepath, c2["camera_calibration"]["path"]
+                get_processed_folder(self.filepath),
+                c2["camera_calibration"]["path"],
             )
             right_extension = str(c2["camera_calibration"]["glob_pattern"])
             left_calibration_file = self.output_path / str(
-- 
2.43.0


From 41cccef13a62a1d3ca6a3ef81b0afeca26952d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:00 +0000
Subject: [PATCH 39/68] fix: laser calibration did not use the synchronised
 image pairs

With 500 images or less the images were paired by position, synchronised or
not, so one image missing on one side mispaired all the later ones; with more,
the selection was made over the number of images instead of pairs. The name
prefix was only removed on one side.
---
 src/auv_cal/laser_calibrator.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index d0cafec..0598978 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -994,7 +994,10 @@ class LaserCalibrator:
                     name = lname.stem
                     if "image" in name:
                         name = name[5:]
-                    if name == rname.stem:
+                    other_name = rname.stem
+                    if "image" in other_name:
+                        other_name = other_name[5:]
+                    if name == other_name:
                         limages_sync.append(lname)
                         rimages_sync.append(rname)
         else:
@@ -1029,17 +1032,17 @@ class LaserCalibrator:
         limages_rs = []
         rimages_rs = []
         rs_size = 500
-        if len(limages) > rs_size:
+        if len(limages_sync) > rs_size:
             f = lambda m, n: [  # noqa
                 i * n // m + n // (2 * m) for i in range(m)
             ]  # See https://stackoverflow.com/a/9873804/707946
-            selection = f(rs_size, len(limages))
+            selection = f(rs_size, len(limages_sync))
             for s in selection:
                 limages_rs.append(limages_sync[s])
                 rimages_rs.append(rimages_sync[s])
         else:
-            limages_rs = limages
-            rimages_rs = rimages
+            limages_rs = limages_sync
+            rimages_rs = rimages_sync
 
         Console.info("Processing", str(len(limages_sync)), "synchronised images...")
         result = joblib.Parallel(n_jobs=-1)(
-- 
2.43.0


From 037dca93023804de5e13fe49590ce9bc8de6e861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:00 +0000
Subject: [PATCH 40/68] fix: bottom laser calibration held the uncertainty
 planes of the top laser

They were not cleared between the lasers, so none was made for the bottom
one.
---
 src/auv_cal/laser_calibrator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index 0598978..51541b3 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -842,6 +842,8 @@ class LaserCalibrator:
         )
 
         Console.info("Generating", self.num_uncert_planes, "uncertainty planes...")
+        self.triples = []
+        self.uncertainty_planes = []
         generate_planes_start = time.time()
         tries = 0
         failed_distance = 0
-- 
2.43.0


From 078b9d5154aea0411df6b479b3777943877cbd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:46 +0000
Subject: [PATCH 41/68] fix: laser calibration failed on stored detections
 without a laser

For an image where no laser line is found, an empty item was stored, followed
by the other laser's entry as its value, which failed the next run.
---
 src/auv_cal/laser_calibrator.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index 51541b3..950edb4 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -318,6 +318,23 @@ def draw_laser(
         Console.info("Saved " + str(lfilename) + " and " + str(rfilename))
 
 
+def points_to_yaml(name, points):
+    """Write list of pixel positions as an entry of a yaml file
+
+    Returns
+    -------
+    string
+        Entry in yaml-file format
+    """
+    if len(points) == 0:
+        return name + ": []\n"
+    return (
+        name
+        + ": \n- "
+        + "- ".join(["[" + str(p[0]) + ", " + str(p[1]) + "]\n" for p in points])
+    )
+
+
 def get_laser_pixels_in_image_pair(
     left_image_name,
     left_maps,
@@ -401,9 +418,7 @@ def get_laser_pixels_in_image_pair(
             start_row=start_row,
             end_row=end_row,
         )
-        write_str = "top: \n- " + "- ".join(
-            ["[" + str(p1[i][0]) + ", " + str(p1[i][1]) + "]\n" for i in range(len(p1))]
-        )
+        write_str = points_to_yaml("top", p1)
         if two_lasers:
             p1b = findLaserInImage(
                 img1,
@@ -413,12 +428,7 @@ def get_laser_pixels_in_image_pair(
                 start_row=start_row_b,
                 end_row=end_row_b,
             )
-            write_str += "bottom: \n- " + "- ".join(
-                [
-                    "[" + str(p1b[i][0]) + ", " + str(p1b[i][1]) + "]\n"
-                    for i in range(len(p1b))
-                ]
-            )
+            write_str += points_to_yaml("bottom", p1b)
         # written under a temporary name until it is complete
         temp_filename = filename.with_name(filename.name + ".tmp")
         with temp_filename.open("w") as f:
-- 
2.43.0


From dac3acdb5c6ca147dbd937c81c86863cd44e1f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:46 +0000
Subject: [PATCH 42/68] fix: laser calibration ignored max_points_per_bin

The default calibration.yaml has stratify/max_points_per_bin, but the code
read another key.
---
 src/auv_cal/laser_calibrator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index 950edb4..43631ae 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -642,7 +642,9 @@ class LaserCalibrator:
         self.min_z_m = stratify.get("min_z_m", 1)
         self.max_z_m = stratify.get("max_z_m", 20)
         self.number_of_bins = stratify.get("number_of_bins", 5)
-        self.max_points_per_bin = stratify.get("max_bin_elements", 300)
+        self.max_points_per_bin = stratify.get(
+            "max_points_per_bin", stratify.get("max_bin_elements", 300)
+        )
 
         self.max_point_cloud_size = ransac.get("max_cloud_size", 10000)
         self.mdt = ransac.get("min_distance_threshold", 0.002)
-- 
2.43.0


From a41bf78af7ec3a71777102a3853efa8cbc1d8f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:12 +0000
Subject: [PATCH 43/68] fix: stereo calibration without common images ended
 with an IndexError

Stored corners of two cameras that have no image in common (e.g. because the
board was only found in other images after resizing) now end the calibration
with the message given for too few images.
---
 src/auv_cal/camera_calibrator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_cal/camera_calibrator.py b/src/auv_cal/camera_calibrator.py
index b522334..ad34ca0 100644
--- a/src/auv_cal/camera_calibrator.py
+++ b/src/auv_cal/camera_calibrator.py
@@ -1106,6 +1106,8 @@ class StereoCalibrator(Calibrator):
     def cal_from_json(self, left_json, right_json):
         common = find_common_filenames(left_json, right_json)
 
+        if len(common) == 0:
+            Console.quit("Too few stereo calibration images!")
         test_left, test_right = common[0]
         self.resize_right = self.test_same_image_size(
             test_left["file"], test_right["file"]
-- 
2.43.0


From 0d87e1839b93b7c57ec809c7b4cbe701ce10b6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:11 +0000
Subject: [PATCH 44/68] fix: USBL dumps of the southern and western hemispheres
 had minutes of the wrong sign

---
 src/auv_nav/parsers/parse_usbl_dump.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/auv_nav/parsers/parse_usbl_dump.py b/src/auv_nav/parsers/parse_usbl_dump.py
index ba3293b..3410cac 100644
--- a/src/auv_nav/parsers/parse_usbl_dump.py
+++ b/src/auv_nav/parsers/parse_usbl_dump.py
@@ -86,22 +86,18 @@ def parse_usbl_dump(mission, vehicle, category, ftype, outpath):
                     latitude_degrees = int(latitude_list[0])
                     latitude_minutes = float(latitude_list[1])
 
-                    if latitude_full[1] != "N":
-                        latitude_degrees = latitude_degrees * -1  # southern hemisphere
-
                     latitude = latitude_degrees + latitude_minutes / 60
+                    if latitude_full[1] != "N":
+                        latitude = -latitude  # southern hemisphere
 
                     longitude_full = line_split[7].split(" ")
                     longitude_list = longitude_full[0].split("-")
                     longitude_degrees = int(longitude_list[0])
                     longitude_minutes = float(longitude_list[1])
 
-                    if longitude_full[1] != "E":
-                        longitude_degrees = (
-                            longitude_degrees * -1
-                        )  # southern hemisphere
-
                     longitude = longitude_degrees + longitude_minutes / 60
+                    if longitude_full[1] != "E":
+                        longitude = -longitude  # western hemisphere
 
                     depth_full = line_split[8].split("=")
                     depth = float(depth_full[1])
-- 
2.43.0


From c3dbf27e551c9630d078cdfd616e20e927e5ef2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:11 +0000
Subject: [PATCH 45/68] fix: NTNU DVL times depended on the host's time zone

---
 src/auv_nav/parsers/parse_ntnu_dvl.py | 10 +++++++---
 src/auv_nav/sensors.py                | 12 ++++++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/auv_nav/parsers/parse_ntnu_dvl.py b/src/auv_nav/parsers/parse_ntnu_dvl.py
index a3d5e98..ab6d567 100644
--- a/src/auv_nav/parsers/parse_ntnu_dvl.py
+++ b/src/auv_nav/parsers/parse_ntnu_dvl.py
@@ -9,6 +9,7 @@ See LICENSE.md file in the project root for full license information.
 import pandas as pd
 
 from auv_nav.sensors import Altitude, BodyVelocity, Category
+from auv_nav.tools.time_conversions import read_timezone
 from oplab import Console, get_raw_folder
 
 header_list = [
@@ -88,12 +89,15 @@ def parse_ntnu_dvl(mission, vehicle, category, output_format, outpath):
     log_file_path = get_raw_folder(outpath / ".." / filepath)
 
     category_str = None
+    clock = mission.velocity
     if category == Category.VELOCITY:
         category_str = "velocity"
     elif category == Category.ALTITUDE:
         category_str = "altitude"
+        clock = mission.altitude
 
-    # TODO handle timezone and timeoffsets
+    # convert to seconds from utc
+    timeoffset_s = -read_timezone(clock.timezone) * 60 * 60 + clock.timeoffset_s
 
     velocity_std_factor = mission.velocity.std_factor
     velocity_std_offset = mission.velocity.std_offset
@@ -119,7 +123,7 @@ def parse_ntnu_dvl(mission, vehicle, category, output_format, outpath):
             Console.info("... parsing velocity")
             # For each row in the file
             for index, row in df.iterrows():
-                body_velocity.from_ntnu_dvl(str(log_file.name), row)
+                body_velocity.from_ntnu_dvl(str(log_file.name), row, timeoffset_s)
                 num_entries += 1
                 if body_velocity.valid():
                     # DVL provides -32 when no bottom lock
@@ -131,7 +135,7 @@ def parse_ntnu_dvl(mission, vehicle, category, output_format, outpath):
             # For each row in the file
             for index, row in df.iterrows():
                 num_entries += 1
-                altitude.from_ntnu_dvl(str(log_file.name), row)
+                altitude.from_ntnu_dvl(str(log_file.name), row, timeoffset_s)
                 if altitude.valid():
                     num_valid_entries += 1
                     data = altitude.export(output_format)
diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 2b485bc..a2f8fe5 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -222,12 +222,14 @@ class BodyVelocity(OutputFormat):
         self.z_velocity_std = self.get_std(vz)
         self.epoch_timestamp_dvl = self.parse_dvl_time(line)
 
-    def from_ntnu_dvl(self, filename, line):
+    def from_ntnu_dvl(self, filename, line, timeoffset_s=0.0):
         self.sensor_string = "ntnu_dvl"
         date_obj = datetime.datetime.strptime(filename[0:8], "%Y%m%d")
         time_obj = datetime.datetime.strptime(line["time"], "%H:%M:%S.%f")
         date_time_obj = datetime.datetime.combine(date_obj, time_obj.time())
-        self.epoch_timestamp = date_time_obj.timestamp()
+        # The log states no time zone: read it as UTC and let the caller correct it
+        date_time_obj = date_time_obj.replace(tzinfo=datetime.timezone.utc)
+        self.epoch_timestamp = date_time_obj.timestamp() + timeoffset_s
         self.epoch_timestamp_dvl = self.epoch_timestamp
         vx = float(line["u_dvl"])
         vy = float(line["v_dvl"])
@@ -1035,12 +1037,14 @@ class Altitude(OutputFormat):
         self.altitude_timestamp = self.epoch_timestamp
         self.altitude_std = self.altitude * self.altitude_std_factor
 
-    def from_ntnu_dvl(self, filename, row):
+    def from_ntnu_dvl(self, filename, row, timeoffset_s=0.0):
         self.sensor_string = "ntnu_dvl"
         date_obj = datetime.datetime.strptime(filename[0:8], "%Y%m%d")
         time_obj = datetime.datetime.strptime(row["time"], "%H:%M:%S.%f")
         date_time_obj = datetime.datetime.combine(date_obj, time_obj.time())
-        self.epoch_timestamp = date_time_obj.timestamp()
+        # The log states no time zone: read it as UTC and let the caller correct it
+        date_time_obj = date_time_obj.replace(tzinfo=datetime.timezone.utc)
+        self.epoch_timestamp = date_time_obj.timestamp() + timeoffset_s
         self.altitude_timestamp = self.epoch_timestamp
         # alt0 = float(row["dvl_alt0"])  # fore
         alt1 = float(row["dvl_alt1"])  # left
-- 
2.43.0


From 8c168bf5cfaf79827babd9a3bf0bea1d9f790322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:11 +0000
Subject: [PATCH 46/68] fix: EIVA NaviPac times depended on the host's time
 zone

---
 src/auv_nav/parsers/parse_eiva_navipac.py | 13 +++++++++---
 src/auv_nav/sensors.py                    | 26 +++++++++++++++++------
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/auv_nav/parsers/parse_eiva_navipac.py b/src/auv_nav/parsers/parse_eiva_navipac.py
index 7e2bd78..0c0cac7 100644
--- a/src/auv_nav/parsers/parse_eiva_navipac.py
+++ b/src/auv_nav/parsers/parse_eiva_navipac.py
@@ -7,6 +7,7 @@ See LICENSE.md file in the project root for full license information.
 """
 
 from auv_nav.sensors import Category, Depth, Orientation, Usbl
+from auv_nav.tools.time_conversions import read_timezone
 from oplab import Console, get_raw_folder
 
 
@@ -15,18 +16,24 @@ def parse_eiva_navipac(mission, vehicle, category, output_format, outpath):
     # Get your data from a file using mission paths, for example
     filepath = None
     category_str = None
+    clock = mission.orientation
     if category == Category.ORIENTATION:
         category_str = "orientation"
         filepath = mission.orientation.filepath
     elif category == Category.DEPTH:
         category_str = "depth"
         filepath = mission.depth.filepath
+        clock = mission.depth
     elif category == Category.USBL:
         category_str = "usbl"
         filepath = mission.usbl.filepath
+        clock = mission.usbl
 
     log_file_path = get_raw_folder(outpath / ".." / filepath)
 
+    # convert to seconds from utc
+    timeoffset_s = -read_timezone(clock.timezone) * 60 * 60 + clock.timeoffset_s
+
     depth_std_factor = mission.depth.std_factor
     orientation_std_offset = mission.orientation.std_offset
     heading_offset = vehicle.ins.yaw
@@ -58,7 +65,7 @@ def parse_eiva_navipac(mission, vehicle, category, output_format, outpath):
                 # For each line in the file
                 for line in filein.readlines():
                     if line.startswith("R132  4") and "$PRDID" in line:
-                        orientation.from_eiva_navipac(line)
+                        orientation.from_eiva_navipac(line, timeoffset_s)
                         num_entries += 1
                         if orientation.roll is None:
                             continue
@@ -70,7 +77,7 @@ def parse_eiva_navipac(mission, vehicle, category, output_format, outpath):
                 Console.info("... parsing depth")
                 for line in filein.readlines():
                     if line[0:14] == "D     " + str(usbl_id) + "  19  1":
-                        depth.from_eiva_navipac(line)
+                        depth.from_eiva_navipac(line, timeoffset_s)
                         num_entries += 1
                         if depth.valid():
                             num_valid_entries += 1
@@ -81,7 +88,7 @@ def parse_eiva_navipac(mission, vehicle, category, output_format, outpath):
                 for line in filein.readlines():
                     if line.startswith("P  D") and int(line[6:10]) == usbl_id:
                         num_entries += 1
-                        usbl.from_eiva_navipac(line)
+                        usbl.from_eiva_navipac(line, timeoffset_s)
                         if usbl.valid():
                             num_valid_entries += 1
                             data = usbl.export(output_format)
diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index a2f8fe5..da39947 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -650,15 +650,19 @@ class Orientation(OutputFormat):
             self.yaw_std,
         )
 
-    def from_eiva_navipac(self, line):
+    def from_eiva_navipac(self, line, timeoffset_s=0.0):
         self.sensor_string = "eiva_navipac"
         parts = line.split()
-        date_time_obj = datetime.datetime.strptime(parts[2], "%Y:%m:%d:%H:%M:%S.%f")
+        # The log states no time zone: read it as UTC and let the caller correct it
+        date_time_obj = datetime.datetime.strptime(
+            parts[2], "%Y:%m:%d:%H:%M:%S.%f"
+        ).replace(tzinfo=datetime.timezone.utc)
         self.epoch_timestamp = date_time_obj.timestamp()
         if self.epoch_timestamp == 0:
             # Invalid timestamp
             self.epoch_timestamp = None
             return
+        self.epoch_timestamp += timeoffset_s
 
         nmea_string = parts[3].replace("\n", "")
         msg = pynmea2.parse(nmea_string)
@@ -886,16 +890,20 @@ class Depth(OutputFormat):
         if self.depth_std == 0:
             self.depth_std = self.depth * self.depth_std_factor
 
-    def from_eiva_navipac(self, line):
+    def from_eiva_navipac(self, line, timeoffset_s=0.0):
         self.sensor_string = "eiva_navipac"
         parts = line.split()
-        date_time_obj = datetime.datetime.strptime(parts[4], "%Y:%m:%d:%H:%M:%S.%f")
+        # The log states no time zone: read it as UTC and let the caller correct it
+        date_time_obj = datetime.datetime.strptime(
+            parts[4], "%Y:%m:%d:%H:%M:%S.%f"
+        ).replace(tzinfo=datetime.timezone.utc)
         self.epoch_timestamp = date_time_obj.timestamp()
-        self.depth_timestamp = self.epoch_timestamp
         if self.epoch_timestamp == 0:
             # Invalid timestamp
             self.epoch_timestamp = None
             return
+        self.epoch_timestamp += timeoffset_s
+        self.depth_timestamp = self.epoch_timestamp
         self.depth = float(parts[5])
         self.depth_std = self.depth * self.depth_std_factor
 
@@ -1273,15 +1281,19 @@ class Usbl(OutputFormat):
             Console.quit("USBL ROS parser for", msg_type, "not supported.")
         self.epoch_timestamp = ros_stamp_to_epoch(msg.header.stamp) - self.tz_offset_s
 
-    def from_eiva_navipac(self, line):
+    def from_eiva_navipac(self, line, timeoffset_s=0.0):
         self.sensor_string = "eiva_navipac"
         parts = line.split()
-        date_time_obj = datetime.datetime.strptime(parts[3], "%Y:%m:%d:%H:%M:%S.%f")
+        # The log states no time zone: read it as UTC and let the caller correct it
+        date_time_obj = datetime.datetime.strptime(
+            parts[3], "%Y:%m:%d:%H:%M:%S.%f"
+        ).replace(tzinfo=datetime.timezone.utc)
         self.epoch_timestamp = date_time_obj.timestamp()
         if self.epoch_timestamp == 0:
             # Invalid timestamp
             self.epoch_timestamp = None
             return
+        self.epoch_timestamp += timeoffset_s
         self.latitude = float(parts[7])
         self.longitude = float(parts[8])
         self.depth = -float(parts[6])
-- 
2.43.0


From 8031b2ed5ed26adb40767fe1b99965acb5bbfff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:11 +0000
Subject: [PATCH 47/68] fix: Koyo ROV times depended on the host's time zone

---
 src/auv_nav/parsers/parse_koyo21rov.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/parsers/parse_koyo21rov.py b/src/auv_nav/parsers/parse_koyo21rov.py
index 6acefac..a29815e 100644
--- a/src/auv_nav/parsers/parse_koyo21rov.py
+++ b/src/auv_nav/parsers/parse_koyo21rov.py
@@ -5,12 +5,14 @@ All rights reserved.
 Licensed under the BSD 3-Clause License.
 See LICENSE.md file in the project root for full license information.
 """
+import calendar
 import time
 from math import isnan
 
 import pandas as pd
 
 from auv_nav.sensors import Altitude, BodyVelocity, Category, Depth, Orientation, Usbl
+from auv_nav.tools.time_conversions import read_timezone
 from oplab import Console, get_raw_folder
 
 
@@ -25,12 +27,18 @@ def parse_koyo21rov(mission, vehicle, category, ftype, outpath):
     if category == Category.USBL:
         filename = mission.usbl.filename
         filepath = mission.usbl.filepath
+        clock = mission.usbl
     elif category == Category.VELOCITY:
         filename = mission.velocity.filename
         filepath = mission.velocity.filepath
+        clock = mission.velocity
     else:
         filename = mission.orientation.filename
         filepath = mission.orientation.filepath
+        clock = mission.orientation
+
+    # convert to seconds from utc
+    timeoffset_s = -read_timezone(clock.timezone) * 60 * 60 + clock.timeoffset_s
 
     # ALR std models
     depth_std_factor = mission.depth.std_factor
@@ -83,19 +91,21 @@ def parse_koyo21rov(mission, vehicle, category, ftype, outpath):
     if "timestamp" in mission_data.columns:
         # filtered position. Convert on the fly using a lambda function
         mission_data["epoch_timestamp"] = mission_data.apply(
-            lambda row: time.mktime(
+            lambda row: calendar.timegm(
                 time.strptime(row["timestamp"], "%Y-%m-%d %H:%M:%S")
-            ),
+            )
+            + timeoffset_s,
             axis=1,
         )
     else:
         # raw data
         mission_data["epoch_timestamp"] = mission_data.apply(
-            lambda row: time.mktime(
+            lambda row: calendar.timegm(
                 time.strptime(
                     str(row["Date"]) + " " + str(row["Time"]), "%Y/%m/%d %H:%M:%S"
                 )
-            ),
+            )
+            + timeoffset_s,
             axis=1,
         )
 
-- 
2.43.0


From 128d1ab9c9595b7b24d714a229b9e6a2a1c56adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:11 +0000
Subject: [PATCH 48/68] fix: Sonardyne times depended on the host's time zone

---
 src/auv_nav/parsers/parse_sonardyne_mrt.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/auv_nav/parsers/parse_sonardyne_mrt.py b/src/auv_nav/parsers/parse_sonardyne_mrt.py
index ed7bfaf..6d9b57b 100644
--- a/src/auv_nav/parsers/parse_sonardyne_mrt.py
+++ b/src/auv_nav/parsers/parse_sonardyne_mrt.py
@@ -33,9 +33,12 @@ class MRTBase:  # 9
 
     def __post_init__(self):
         try:
-            self.epoch_timestamp = datetime.datetime.strptime(
-                self.time_stamp, "%Y-%m-%d %H:%M:%S.%f"
-            ).timestamp()
+            # The log states no time zone: read it as UTC and let the caller correct it
+            self.epoch_timestamp = (
+                datetime.datetime.strptime(self.time_stamp, "%Y-%m-%d %H:%M:%S.%f")
+                .replace(tzinfo=datetime.timezone.utc)
+                .timestamp()
+            )
         except ValueError:
             pass
 
@@ -822,7 +825,7 @@ def parse_sonardyne_gga(mission, vehicle, category, ftype, outpath):
 
         data = {
             "epoch_timestamp": datetime.datetime.strptime(auv_obs.time_stamp, "%Y-%m-%d %H:%M:%S.%f"
-        ).timestamp() + timeoffset_s,
+        ).replace(tzinfo=datetime.timezone.utc).timestamp() + timeoffset_s,
             "class": class_string,
             "sensor": sensor_string,
             "frame": frame_string,
@@ -945,7 +948,7 @@ def parse_sonardyne_gga2(mission, vehicle, category, ftype, outpath):
 
         data = {
             "epoch_timestamp": datetime.datetime.strptime(auv_obs.time_stamp, "%Y-%m-%d %H:%M:%S.%f"
-        ).timestamp() + timeoffset_s,
+        ).replace(tzinfo=datetime.timezone.utc).timestamp() + timeoffset_s,
             "class": class_string,
             "sensor": sensor_string,
             "frame": frame_string,
@@ -1068,7 +1071,7 @@ def parse_sonardyne_gga3(mission, vehicle, category, ftype, outpath):
 
         data = {
             "epoch_timestamp": datetime.datetime.strptime(auv_obs.time_stamp, "%Y-%m-%d %H:%M:%S.%f"
-        ).timestamp() + timeoffset_s,
+        ).replace(tzinfo=datetime.timezone.utc).timestamp() + timeoffset_s,
             "class": class_string,
             "sensor": sensor_string,
             "frame": frame_string,
@@ -1191,7 +1194,7 @@ def parse_sonardyne_gga4(mission, vehicle, category, ftype, outpath):
 
         data = {
             "epoch_timestamp": datetime.datetime.strptime(auv_obs.time_stamp, "%Y-%m-%d %H:%M:%S.%f"
-        ).timestamp() + timeoffset_s,
+        ).replace(tzinfo=datetime.timezone.utc).timestamp() + timeoffset_s,
             "class": class_string,
             "sensor": sensor_string,
             "frame": frame_string,
-- 
2.43.0


From b47c7660f20df3d088e7ddc39e4b16e76c8f5b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:11 +0000
Subject: [PATCH 49/68] fix: NTNU stereo images of earlier dives were kept for
 the next dive

---
 src/auv_nav/parsers/parse_ntnu_stereo.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/parsers/parse_ntnu_stereo.py b/src/auv_nav/parsers/parse_ntnu_stereo.py
index ca1c72f..db9f8c3 100644
--- a/src/auv_nav/parsers/parse_ntnu_stereo.py
+++ b/src/auv_nav/parsers/parse_ntnu_stereo.py
@@ -14,10 +14,6 @@ See LICENSE.md file in the project root for full license information.
 from auv_nav.tools.time_conversions import date_time_to_epoch
 from oplab import Console, get_raw_folder
 
-epoch_timestamp_camera1 = []
-epoch_timestamp_camera2 = []
-values = []
-data_list = []
 tolerance = 0.05  # 0.01 # stereo pair must be within 10ms of each other
 
 
@@ -93,6 +89,8 @@ def parse_ntnu_stereo_images(mission, vehicle, category, ftype, outpath):
     camera2_relpath = [x.relative_to(mission_path) for x in p if x.is_file()]
     camera2_filename = [x.name for x in camera2_relpath]
 
+    epoch_timestamp_camera1 = []
+    epoch_timestamp_camera2 = []
     data_list = []
     if ftype == "acfr":
         data_list = ""
-- 
2.43.0


From 83f48e8f53ee79b28b13d74a96cc8c37bb21a00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:11 +0000
Subject: [PATCH 50/68] fix: BioCam images of earlier dives were kept for the
 next dive

---
 src/auv_nav/parsers/parse_biocam_images.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/auv_nav/parsers/parse_biocam_images.py b/src/auv_nav/parsers/parse_biocam_images.py
index 5ea0ad9..58257f0 100644
--- a/src/auv_nav/parsers/parse_biocam_images.py
+++ b/src/auv_nav/parsers/parse_biocam_images.py
@@ -20,12 +20,6 @@ from scipy.stats import linregress
 from auv_nav.tools.time_conversions import date_time_to_epoch
 from oplab import Console, get_raw_folder
 
-stamp_pc1 = []
-stamp_pc2 = []
-stamp_cam1 = []
-stamp_cam2 = []
-values = []
-data_list = []
 tolerance = 0.05  # 0.01 # stereo pair must be within 10ms of each other
 
 
@@ -168,6 +162,10 @@ def parse_biocam_images(mission, vehicle, category, ftype, outpath):
         + " BioCam images!"
     )
 
+    stamp_pc1 = []
+    stamp_pc2 = []
+    stamp_cam1 = []
+    stamp_cam2 = []
     data_list = []
     if ftype == "acfr":
         data_list = ""
-- 
2.43.0


From cf193edb6ac2f0e6ab2b92ca7537d4a789d5fcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:11 +0000
Subject: [PATCH 51/68] fix: NTNU image times with four digits of fraction were
 misread

---
 src/auv_nav/parsers/parse_ntnu_stereo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/parse_ntnu_stereo.py b/src/auv_nav/parsers/parse_ntnu_stereo.py
index db9f8c3..631f076 100644
--- a/src/auv_nav/parsers/parse_ntnu_stereo.py
+++ b/src/auv_nav/parsers/parse_ntnu_stereo.py
@@ -34,7 +34,8 @@ def timestamp_from_filename(filename, timezone_offset, timeoffset):
     hour = int(filename[7:9])
     mins = int(filename[9:11])
     secs = int(filename[11:13])
-    msec = int(filename[14:18])
+    # fraction of the second, in four digits
+    msec = int(filename[14:18]) / 10
 
     epoch_time = date_time_to_epoch(yyyy, mm, dd, hour, mins, secs, timezone_offset)
     epoch_timestamp = float(epoch_time + msec / 1000 + timeoffset)
-- 
2.43.0


From 86a544aefb5496602ceb344e65014eb5d1c14802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:11 +0000
Subject: [PATCH 52/68] fix: RDI times were shifted by the time zone in the
 wrong direction

---
 src/auv_nav/parsers/parse_rdi.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/auv_nav/parsers/parse_rdi.py b/src/auv_nav/parsers/parse_rdi.py
index b4108b3..f260f54 100644
--- a/src/auv_nav/parsers/parse_rdi.py
+++ b/src/auv_nav/parsers/parse_rdi.py
@@ -21,8 +21,6 @@ def parse_rdi(mission, vehicle, category, ftype, outpath):
     filename = ""
     filepath = ""
 
-    timeoffset_s = 0
-
     # RDI format only has two digits for year,
     # extract the other two from dive folder
     # name
@@ -47,18 +45,21 @@ def parse_rdi(mission, vehicle, category, ftype, outpath):
         Console.info("... parsing RDI velocity")
         filename = mission.velocity.filename
         filepath = mission.velocity.filepath
-        timeoffset_s = mission.velocity.offset_s
+        clock = mission.velocity
     elif category == Category.ORIENTATION:
         Console.info("... parsing RDI orientation")
         filename = mission.orientation.filename
         filepath = mission.orientation.filepath
-        timeoffset_s = mission.orientation.offset_s
+        clock = mission.orientation
     elif category == Category.ALTITUDE:
         Console.info("... parsing RDI altitude")
         filename = mission.altitude.filename
-        timeoffset_s = mission.altitude.offset_s
+        clock = mission.altitude
         filepath = mission.altitude.filepath
 
+    # convert to seconds from utc
+    timeoffset_s = -clock.timezone_s + clock.timeoffset_s
+
     logfile = get_raw_folder(outpath / ".." / filepath / filename)
     data_list = []
     altitude_valid = False
-- 
2.43.0


From c8a7a40f1dc48727b400ed3707def7779a321bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:11 +0000
Subject: [PATCH 53/68] fix: RDI attitudes mixed degrees and radians

---
 src/auv_nav/parsers/parse_rdi.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/auv_nav/parsers/parse_rdi.py b/src/auv_nav/parsers/parse_rdi.py
index f260f54..58bac9e 100644
--- a/src/auv_nav/parsers/parse_rdi.py
+++ b/src/auv_nav/parsers/parse_rdi.py
@@ -7,10 +7,10 @@ See LICENSE.md file in the project root for full license information.
 """
 
 import calendar
-import math
 from datetime import datetime
 
 from auv_nav.sensors import Altitude, BodyVelocity, Category, Orientation
+from auv_nav.tools.body_to_inertial import body_to_inertial
 from oplab import Console, get_raw_folder
 
 
@@ -68,9 +68,9 @@ def parse_rdi(mission, vehicle, category, ftype, outpath):
             # Lines start with TS, BI, BS, BE, BD, SA
             parts = line.split(",")
             if parts[0] == ":SA" and len(parts) == 4:
-                ot.roll = math.radians(float(parts[2]))
-                ot.pitch = math.radians(float(parts[1]))
-                ot.yaw = math.radians(float(parts[3]))
+                ot.roll = float(parts[2])
+                ot.pitch = float(parts[1])
+                ot.yaw = float(parts[3])
             elif parts[0] == ":TS" and len(parts) == 7:
                 # Every time a new TimeStamp is received, send the previous
                 # data packet
@@ -121,13 +121,10 @@ def parse_rdi(mission, vehicle, category, ftype, outpath):
                     altitude_valid = True
                     x = float(parts[1]) * 0.001
                     y = float(parts[2]) * 0.001
-                    bv.x_velocity = x * math.cos(headingoffset) - y * math.sin(
-                        headingoffset
+                    z = float(parts[3]) * 0.001
+                    bv.x_velocity, bv.y_velocity, bv.z_velocity = body_to_inertial(
+                        0, 0, headingoffset, x, y, z
                     )
-                    bv.y_velocity = x * math.sin(headingoffset) + y * math.cos(
-                        headingoffset
-                    )
-                    bv.z_velocity = float(parts[3]) * 0.001
                     bv.x_velocity_std = float(parts[4]) * 0.001
                     bv.y_velocity_std = float(parts[4]) * 0.001
                     bv.z_velocity_std = float(parts[4]) * 0.001
-- 
2.43.0


From 845a0d253c854b9a21cb35a2f5e66be4a7019c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:11 +0000
Subject: [PATCH 54/68] fix: RDI attitudes had the time of another ensemble and
 the last was lost

---
 src/auv_nav/parsers/parse_rdi.py | 36 +++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/auv_nav/parsers/parse_rdi.py b/src/auv_nav/parsers/parse_rdi.py
index 58bac9e..a3face5 100644
--- a/src/auv_nav/parsers/parse_rdi.py
+++ b/src/auv_nav/parsers/parse_rdi.py
@@ -63,29 +63,30 @@ def parse_rdi(mission, vehicle, category, ftype, outpath):
     logfile = get_raw_folder(outpath / ".." / filepath / filename)
     data_list = []
     altitude_valid = False
+    attitude = None
+
+    def export_ensemble():
+        data = None
+        if category == Category.VELOCITY:
+            data = bv.export(output_format)
+        if category == Category.ORIENTATION:
+            data = ot.export(output_format)
+        if category == Category.ALTITUDE:
+            data = al.export(output_format)
+        if data is not None:
+            data_list.append(data)
+
     with logfile.open("r", errors="ignore") as rdi_file:
         for line in rdi_file.readlines():
             # Lines start with TS, BI, BS, BE, BD, SA
             parts = line.split(",")
             if parts[0] == ":SA" and len(parts) == 4:
-                ot.roll = float(parts[2])
-                ot.pitch = float(parts[1])
-                ot.yaw = float(parts[3])
+                # The attitude opens the ensemble, its TimeStamp comes next
+                attitude = (float(parts[2]), float(parts[1]), float(parts[3]))
             elif parts[0] == ":TS" and len(parts) == 7:
                 # Every time a new TimeStamp is received, send the previous
                 # data packet
-                if category == Category.VELOCITY:
-                    data = bv.export(output_format)
-                    if data is not None:
-                        data_list.append(data)
-                if category == Category.ORIENTATION:
-                    data = ot.export(output_format)
-                    if data is not None:
-                        data_list.append(data)
-                if category == Category.ALTITUDE:
-                    data = al.export(output_format)
-                    if data is not None:
-                        data_list.append(data)
+                export_ensemble()
 
                 date = parts[1]
                 year = int(prepend_year + date[0:2])
@@ -115,6 +116,9 @@ def parse_rdi(mission, vehicle, category, ftype, outpath):
                 al.altitude_timestamp = stamp
                 al.sound_velocity = float(parts[5])
                 altitude_valid = False
+                if attitude is not None:
+                    ot.roll, ot.pitch, ot.yaw = attitude
+                    attitude = None
             elif parts[0] == ":BI" and len(parts) == 6:
                 status = parts[5].strip()
                 if status == "A":
@@ -131,5 +135,7 @@ def parse_rdi(mission, vehicle, category, ftype, outpath):
             elif parts[0] == ":BD" and len(parts) == 6 and altitude_valid:
                 al.altitude = float(parts[4])
                 al.altitude_std = altitude_std_factor * al.altitude
+    # No TimeStamp follows the last ensemble
+    export_ensemble()
     # print(data_list)
     return data_list
-- 
2.43.0


From 9b2806a9e2da9d09735d3dfa785e690892b0a64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:11 +0000
Subject: [PATCH 55/68] fix: Voyis SYSTEM images were never recognised

---
 src/auv_nav/parsers/parse_voyis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/parse_voyis.py b/src/auv_nav/parsers/parse_voyis.py
index ea2ab6b..1b44dcd 100644
--- a/src/auv_nav/parsers/parse_voyis.py
+++ b/src/auv_nav/parsers/parse_voyis.py
@@ -68,7 +68,7 @@ def parse_voyis_images(mission, vehicle, category, ftype, outpath):
         for i, img in enumerate(stills_image_list):
             if str(Path(img).name)[15:18]=='PPS':
                 epoch = stills_filename_to_date_PPS(str(Path(img).name))
-            elif str(Path(img).name)[15:18]=='SYSTEM':
+            elif str(Path(img).name)[15:21]=='SYSTEM':
                 epoch = stills_filename_to_date_SYS(str(Path(img).name))
             data = {
                 "epoch_timestamp": float(epoch)+timeoffset_s,
@@ -96,7 +96,7 @@ def parse_voyis_images(mission, vehicle, category, ftype, outpath):
         for i, img in enumerate(laser_image_list):
             if str(Path(img).name[16:19])=='PPS':
                 epoch = laser_filename_to_date_PPS(str(Path(img).name))
-            elif str(Path(img).name[16:19])=='SYSTEM':
+            elif str(Path(img).name[16:22])=='SYSTEM':
                 epoch = laser_filename_to_date_SYS(str(Path(img).name))        
             data = {
                 "epoch_timestamp": float(epoch)+timeoffset_s,
-- 
2.43.0


From ff2d743d3a6eeca9b92ca0eeae21fc975b0b2474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:11 +0000
Subject: [PATCH 56/68] fix: Voyis laser images were named after still images

---
 src/auv_nav/parsers/parse_voyis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/parse_voyis.py b/src/auv_nav/parsers/parse_voyis.py
index 1b44dcd..c631c74 100644
--- a/src/auv_nav/parsers/parse_voyis.py
+++ b/src/auv_nav/parsers/parse_voyis.py
@@ -107,7 +107,7 @@ def parse_voyis_images(mission, vehicle, category, ftype, outpath):
                 "camera1": [
                     {
                         "epoch_timestamp": float(epoch)+timeoffset_s,
-                        "filename": str(stills_image_list_rel[i]),
+                        "filename": str(laser_image_list_rel[i]),
                     }
                 ],
             }
-- 
2.43.0


From becd779bb347ba6825827946fb2ca33805acb0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:11 +0000
Subject: [PATCH 57/68] fix: fractions of a second in NOC NMEA times were
 misread

---
 src/auv_nav/parsers/parse_NOC_nmea.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/parse_NOC_nmea.py b/src/auv_nav/parsers/parse_NOC_nmea.py
index 4717b17..7fa97bd 100644
--- a/src/auv_nav/parsers/parse_NOC_nmea.py
+++ b/src/auv_nav/parsers/parse_NOC_nmea.py
@@ -61,11 +61,12 @@ def parse_NOC_nmea(mission, vehicle, category, ftype, outpath):
                     hour = int(hour_str[0:2])
                     mins = int(hour_str[2:4])
                     secs = int(hour_str[4:6])
-                    msec = int(hour_str[7:10])
+                    # the fraction may have any number of digits, or none
+                    fraction = float("0." + (hour_str[7:] or "0"))
                     epoch_time = date_time_to_epoch(
                         yyyy, mm, dd, hour, mins, secs, timezone_offset
                     )
-                    epoch_timestamp = epoch_time + msec / 1000 + timeoffset
+                    epoch_timestamp = epoch_time + fraction + timeoffset
                     msg.timestamp = epoch_timestamp
                     usbl.from_nmea(msg)
                     data = usbl.export(output_format)
-- 
2.43.0


From 6658f770d18c4be3f090cb0fde351097ff3225e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:11 +0000
Subject: [PATCH 58/68] fix: GoPro image paths were looked up relative to the
 working directory

---
 src/auv_nav/parsers/parse_stereo_gopro.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/parsers/parse_stereo_gopro.py b/src/auv_nav/parsers/parse_stereo_gopro.py
index 8e72a78..f2eea48 100644
--- a/src/auv_nav/parsers/parse_stereo_gopro.py
+++ b/src/auv_nav/parsers/parse_stereo_gopro.py
@@ -27,7 +27,8 @@ def parse_stereo_gopro_images(mission, vehicle, category, ftype, outpath):
     Console.info("... parsing " + sensor_string + " images")
 
     # Read filelist.csv
-    df = pd.read_csv(get_raw_folder(camera1_filepath.parent / "filelist.csv"))
+    dive_folder = get_raw_folder(outpath / "..")
+    df = pd.read_csv(dive_folder / camera1_filepath.parent / "filelist.csv")
 
     data_list = []
 
@@ -36,10 +37,10 @@ def parse_stereo_gopro_images(mission, vehicle, category, ftype, outpath):
         file_left = row["file_left"]
         file_right = row["file_right"]
         # Check files exist
-        if not os.path.isfile(camera1_filepath / file_left):
+        if not os.path.isfile(dive_folder / camera1_filepath / file_left):
             Console.warn("File " + file_left + " does not exist")
             continue
-        if not os.path.isfile(camera2_filepath / file_right):
+        if not os.path.isfile(dive_folder / camera2_filepath / file_right):
             Console.warn("File " + file_right + " does not exist")
             continue
         data = {
-- 
2.43.0


From 8cb5c006f82f19906d57598d618191c48a15f0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:11 +0000
Subject: [PATCH 59/68] fix: cameras without a time offset stopped the
 SeaXerocks image parser

---
 src/oplab/mission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oplab/mission.py b/src/oplab/mission.py
index 508dc6f..0d6d4ef 100644
--- a/src/oplab/mission.py
+++ b/src/oplab/mission.py
@@ -107,7 +107,7 @@ class CameraEntry:
         self.type = None
         self.path = None
         self.timeoffset = None
-        self.timeoffset_s = None
+        self.timeoffset_s = 0.0
         if node is not None:
             self.name = node["name"]
             if "type" in node:
-- 
2.43.0


From 97d279a0fb981c44e19d29f3b0dcd24cde0e1831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:12 +0000
Subject: [PATCH 60/68] fix: hybis conversion took its reference position as
 text

---
 src/auv_nav/auv_nav.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_nav/auv_nav.py b/src/auv_nav/auv_nav.py
index ba3d24b..81fa440 100644
--- a/src/auv_nav/auv_nav.py
+++ b/src/auv_nav/auv_nav.py
@@ -266,11 +266,13 @@ def main(args=None):
     subparser_hybis_to_oplab.add_argument(
         "--reference-lat",
         dest="reference_lat",
+        type=float,
         help="Reference latitude for northing/easting.",
     )
     subparser_hybis_to_oplab.add_argument(
         "--reference-lon",
         dest="reference_lon",
+        type=float,
         help="Reference longitude for northing/easting.",
     )
     subparser_hybis_to_oplab.add_argument(
-- 
2.43.0


From 88747b8b7da58e94935c5a924c7e1f87805fa5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:12 +0000
Subject: [PATCH 61/68] fix: hybis conversion extrapolated from the following
 interval

---
 src/auv_nav/parsers/hybis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/hybis.py b/src/auv_nav/parsers/hybis.py
index 11d769f..9fb73d5 100644
--- a/src/auv_nav/parsers/hybis.py
+++ b/src/auv_nav/parsers/hybis.py
@@ -167,7 +167,7 @@ class HybisParser:
             i = 0
             while (
                 i < len(hybis_vec) - 2
-                and hybis_vec[i].epoch_timestamp < modification_time
+                and hybis_vec[i + 1].epoch_timestamp < modification_time
             ):
                 i += 1
 
-- 
2.43.0


From a7aae457dac7913b80ba4889b3244de856dbf250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:12 +0000
Subject: [PATCH 62/68] fix: hybis headings were interpolated the long way
 round across north

---
 src/auv_nav/parsers/hybis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/hybis.py b/src/auv_nav/parsers/hybis.py
index 9fb73d5..fa19d1c 100644
--- a/src/auv_nav/parsers/hybis.py
+++ b/src/auv_nav/parsers/hybis.py
@@ -211,8 +211,12 @@ class HybisParser:
                 hybis_vec[i].epoch_timestamp,
                 hybis_vec[i + 1].epoch_timestamp,
                 hybis_vec[i].heading,
-                hybis_vec[i + 1].heading,
+                # the shorter way round, also across north
+                hybis_vec[i].heading
+                + (hybis_vec[i + 1].heading - hybis_vec[i].heading + 180) % 360
+                - 180,
             )
+            heading = heading % 360
             altitude = interpolate(
                 modification_time,
                 hybis_vec[i].epoch_timestamp,
-- 
2.43.0


From 1cd6f76ae593979820f91729b8e674f21ef26ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:12 +0000
Subject: [PATCH 63/68] fix: acfr_to_oplab replaced results without -F

---
 src/auv_nav/convert.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/convert.py b/src/auv_nav/convert.py
index 86c507f..c0d4c9e 100644
--- a/src/auv_nav/convert.py
+++ b/src/auv_nav/convert.py
@@ -132,19 +132,21 @@ def acfr_to_oplab(args):
 
         print("Found", len(dr), "dr entries")
 
-        csv_filename = "auv_acfr_centre.csv"
+        csv_filename = "auv_acfr_centre"
 
-        if (csv_filepath / csv_filename).exists() and not force_overwite:
+        if (csv_filepath / (csv_filename + ".csv")).exists() and not force_overwite:
             Console.error("The DR file already exists. Use -F to force overwrite it")
             Console.quit("Default behaviour: not to overwrite results")
         else:
             write_csv(csv_filepath, dr, csv_filename, csv_flag=True)
-            Console.info("Output vehicle pose written to", csv_filepath / csv_filename)
+            Console.info(
+                "Output vehicle pose written to", csv_filepath / (csv_filename + ".csv")
+            )
     if args.stereo_pose:
         Console.info("Stereo pose provided! Converting it to camera CSVs...")
         spp = AcfrStereoPoseParser(args.stereo_pose)
         cam1, cam2 = spp.get_cameras()
-        if (csv_filepath / "auv_dr_LC.csv").exists() and not force_overwite:
+        if (csv_filepath / "auv_acfr_LC.csv").exists() and not force_overwite:
             Console.error(
                 "The camera files already exists. Use -F to force overwrite it"
             )
-- 
2.43.0


From a6d7f31be4b41c0d8d3c1046a9ca8693534ed06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:12 +0000
Subject: [PATCH 64/68] fix: ACFR vehicle poses had roll and pitch swapped and
 degrees for radians

---
 src/auv_nav/parsers/acfr_vehicle_pose.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/auv_nav/parsers/acfr_vehicle_pose.py b/src/auv_nav/parsers/acfr_vehicle_pose.py
index 49938bd..203804b 100644
--- a/src/auv_nav/parsers/acfr_vehicle_pose.py
+++ b/src/auv_nav/parsers/acfr_vehicle_pose.py
@@ -185,8 +185,8 @@ class AcfrVehiclePoseParser:
             dr.depth = entry.z_depth
             dr.latitude = entry.latitude
             dr.longitude = entry.longitude
-            dr.roll = entry.y_euler_angle
-            dr.pitch = -entry.x_euler_angle
+            dr.roll = entry.x_euler_angle
+            dr.pitch = entry.y_euler_angle
             dr.yaw = entry.z_euler_angle
             dr.altitude = entry.altitude
 
@@ -228,11 +228,11 @@ class AcfrVehiclePoseWriter:
                     + " \t"
                     + str(dr.depth)
                     + " \t"
-                    + str(dr.roll)
+                    + str(math.radians(dr.roll))
                     + " \t"
-                    + str(dr.pitch)
+                    + str(math.radians(dr.pitch))
                     + " \t"
-                    + str(dr.yaw)
+                    + str(math.radians(dr.yaw))
                     + " \t"
                     + str(dr.altitude)
                     + "\n"
-- 
2.43.0


From 77011c1907affbc1422a88c35cc965526011471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:12 +0000
Subject: [PATCH 65/68] fix: ACFR stereo poses were written in degrees of
 another frame

---
 src/auv_nav/parsers/acfr_stereo_pose.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/parsers/acfr_stereo_pose.py b/src/auv_nav/parsers/acfr_stereo_pose.py
index a2bb6f2..aad49dd 100644
--- a/src/auv_nav/parsers/acfr_stereo_pose.py
+++ b/src/auv_nav/parsers/acfr_stereo_pose.py
@@ -272,6 +272,10 @@ class AcfrStereoPoseWriter:
             f.write("ORIGIN_LATITUDE  " + str(self.origin_latitude) + "\n")
             f.write("ORIGIN_LONGITUDE " + str(self.origin_longitude) + "\n")
             for i, (c1, c2) in enumerate(zip(cam1_list, cam2_list)):
+                # Angles of the stereo frame, the inverse of get_cameras()
+                x_euler_angle = math.radians(-c1.pitch)
+                y_euler_angle = math.radians(c1.roll)
+                z_euler_angle = math.radians(c1.yaw - 90)
                 c1.filename = Path(c1.filename).name
                 c2.filename = Path(c2.filename).name
                 f.write(
@@ -289,11 +293,11 @@ class AcfrStereoPoseWriter:
                     + " \t"
                     + str(c1.depth)
                     + " \t"
-                    + str(c1.roll)
+                    + str(x_euler_angle)
                     + " \t"
-                    + str(c1.pitch)
+                    + str(y_euler_angle)
                     + " \t"
-                    + str(c1.yaw)
+                    + str(z_euler_angle)
                     + " \t"
                     + str(c1.filename)
                     + " \t"
-- 
2.43.0


From 8b0e2b35d8cb6102c5c6dbaf56c44a8a5ee78fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:12 +0000
Subject: [PATCH 66/68] fix: laser images after the first pose pair were not
 interpolated

---
 src/auv_nav/tools/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/tools/interpolate.py b/src/auv_nav/tools/interpolate.py
index 5ee5a59..511b0eb 100644
--- a/src/auv_nav/tools/interpolate.py
+++ b/src/auv_nav/tools/interpolate.py
@@ -142,7 +142,7 @@ def interpolate_camera(query_timestamp, camera_list, filename):
             break
     c1 = camera_list[i]
     c2 = camera_list[i]
-    if i > 1:
+    if i > 0:
         c1 = camera_list[i - 1]
 
     c = Camera()
-- 
2.43.0


From db6414894c61aceb9d6d225a70bf48a79ace39bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:12 +0000
Subject: [PATCH 67/68] fix: laser image headings were interpolated the long
 way round across north

---
 src/auv_nav/tools/interpolate.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/tools/interpolate.py b/src/auv_nav/tools/interpolate.py
index 511b0eb..b8f2e24 100644
--- a/src/auv_nav/tools/interpolate.py
+++ b/src/auv_nav/tools/interpolate.py
@@ -198,7 +198,12 @@ def interpolate_camera(query_timestamp, camera_list, filename):
         c2.pitch,
     )
     c.yaw = interpolate(
-        query_timestamp, c1.epoch_timestamp, c2.epoch_timestamp, c1.yaw, c2.yaw
+        query_timestamp,
+        c1.epoch_timestamp,
+        c2.epoch_timestamp,
+        c1.yaw,
+        # the shorter way round, also across north
+        c1.yaw + (c2.yaw - c1.yaw + 180) % 360 - 180,
     )
     c.x_velocity = interpolate(
         query_timestamp,
-- 
2.43.0


From 52c50c7b0169c4638f6e27d7c55dae56ab4b9dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:12 +0000
Subject: [PATCH 68/68] fix: write errors at the end of conversions were lost

---
 src/auv_nav/convert.py                   | 2 ++
 src/auv_nav/parsers/acfr_combined_raw.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/auv_nav/convert.py b/src/auv_nav/convert.py
index c0d4c9e..c9bb80c 100644
--- a/src/auv_nav/convert.py
+++ b/src/auv_nav/convert.py
@@ -204,6 +204,7 @@ def acfr_to_oplab(args):
                         filename = parsed_json_data[i]["filename"]
                         c3_interp = interpolate_camera(epoch_timestamp, cam1, filename)
                         fileout3.write(c3_interp.to_csv_row())
+            fileout3.close()
             Console.info("Done! Laser file available at", str(file3))
 
 
@@ -376,3 +377,4 @@ def oplab_to_acfr(args):
                 camera2 = Camera()
                 camera2.from_json(parsed_json_data[i], "camera2")
                 exporter.add(camera2)
+    exporter.close()
diff --git a/src/auv_nav/parsers/acfr_combined_raw.py b/src/auv_nav/parsers/acfr_combined_raw.py
index 98344dc..de343cf 100644
--- a/src/auv_nav/parsers/acfr_combined_raw.py
+++ b/src/auv_nav/parsers/acfr_combined_raw.py
@@ -101,3 +101,6 @@ class AcfrCombinedRawWriter:
             )
         if data is not None:
             self.f.write(data)
+
+    def close(self):
+        self.f.close()
-- 
2.43.0

