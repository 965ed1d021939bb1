From 47cede24bb410ce42968a1c51f07df50a3c90f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:14 +0000
Subject: [PATCH 01/22] fix: carry rounded seconds and minutes when formatting
 coordinates

Angles just below a whole minute or degree were formatted with 60 minutes
or 60 seconds (e.g. 10.9999999 degrees became 106000N).
---
 src/aws/osml/photogrammetry/coordinates.py | 25 ++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/aws/osml/photogrammetry/coordinates.py b/src/aws/osml/photogrammetry/coordinates.py
index aab4709..6b9586b 100644
--- a/src/aws/osml/photogrammetry/coordinates.py
+++ b/src/aws/osml/photogrammetry/coordinates.py
@@ -1,5 +1,7 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
+from typing import Tuple
+
 import numpy as np
 import numpy.typing as npt
 import pyproj
@@ -147,6 +149,21 @@ class GeodeticWorldCoordinate(WorldCoordinate):
         """
         return f"{self:%ld%lm%ls%lH%od%om%os%oH}"
 
+    @staticmethod
+    def _to_degrees_minutes_seconds(angle_degrees: float) -> Tuple[int, int, int]:
+        """
+        Splits a positive angle into whole degrees, minutes and seconds. The split is made on a single total number of
+        seconds so that rounding always carries into the minutes and degrees (i.e. never a value of 60).
+
+        :param angle_degrees: the angle in degrees
+
+        :return: tuple (degrees, minutes, seconds)
+        """
+        total_seconds = int(round(round(angle_degrees, 6) * 3600, 3))
+        total_minutes, seconds = divmod(total_seconds, 60)
+        degrees, minutes = divmod(total_minutes, 60)
+        return degrees, minutes, seconds
+
     def __repr__(self):
         return f"GeodeticWorldCoordinate(coordinate={np.array_repr(self.coordinate)})"
 
@@ -159,18 +176,14 @@ class GeodeticWorldCoordinate(WorldCoordinate):
         if lat_degrees < 0:
             lat_degrees *= -1.0
             lh = "S"
-        ld = int(lat_degrees)
-        lm = int(round(lat_degrees - ld, 6) * 60)
-        ls = int(round(lat_degrees - ld - lm / 60, 6) * 3600)
+        ld, lm, ls = self._to_degrees_minutes_seconds(lat_degrees)
 
         lon_degrees = np.degrees(self.longitude)
         oh = "E"
         if lon_degrees < 0:
             lon_degrees *= -1.0
             oh = "W"
-        od = int(lon_degrees)
-        om = int(round(lon_degrees - od, 6) * 60)
-        os = int(round(lon_degrees - od - om / 60, 6) * 3600)
+        od, om, os = self._to_degrees_minutes_seconds(lon_degrees)
 
         result = []
         i = 0
-- 
2.43.0


From d10a8abebe35d9339858bb27a7298e0ee96cad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:04 +0000
Subject: [PATCH 02/22] fix: report malformed repeated coefficient groups as
 ValueError

An empty group or an index past the declared number raised IndexError, which
the RPC and RSM builders do not handle.
---
 src/aws/osml/gdal/xmltre_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/xmltre_utils.py b/src/aws/osml/gdal/xmltre_utils.py
index 53b8a15..2a222ec 100644
--- a/src/aws/osml/gdal/xmltre_utils.py
+++ b/src/aws/osml/gdal/xmltre_utils.py
@@ -54,8 +54,10 @@ def parse_rpc_coefficients(tre: ET.Element, repeated_name: str) -> List[float]:
         if index_str is None:
             raise ValueError("Invalid XML TRE: Repeated group in XML TRE is missing required index attribute")
         index = int(index_str)
+        if not 0 <= index < num_coefficients:
+            raise ValueError("Invalid XML TRE: Repeated group in XML TRE has an index outside the number of coefficients")
 
-        if group[0] is None:
+        if len(group) == 0:
             raise ValueError("Invalid XML TRE: Repeated group in XML TRE is missing required field child element")
 
         value_str = group[0].get("value")
-- 
2.43.0


From 818222d9c587604aec0fab6628c1c0a52841a936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:04 +0000
Subject: [PATCH 03/22] fix: return no RSM model when an image section has no
 RSMPCA TRE

The missing section escaped the builder as a KeyError.
---
 src/aws/osml/gdal/rsm_sensor_model_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aws/osml/gdal/rsm_sensor_model_builder.py b/src/aws/osml/gdal/rsm_sensor_model_builder.py
index 2b59c10..9bc9feb 100644
--- a/src/aws/osml/gdal/rsm_sensor_model_builder.py
+++ b/src/aws/osml/gdal/rsm_sensor_model_builder.py
@@ -311,6 +311,8 @@ class RSMSensorModelBuilder(SensorModelBuilder):
         for row in range(1, num_section_rows + 1):
             row_of_sensor_models = []
             for col in range(1, num_section_cols + 1):
+                if (row, col) not in sensor_model_grid_map:
+                    raise ValueError(f"Missing RSMPCA TRE for image section ({row}, {col})")
                 row_of_sensor_models.append(sensor_model_grid_map[(row, col)])
             section_sensor_model_grid.append(row_of_sensor_models)
 
-- 
2.43.0


From 64fe91c62bb287e7e0faff466bc4a4fa1263f394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:04 +0000
Subject: [PATCH 04/22] fix: return no projective model when the CSCRNA TRE
 cannot be parsed

The ValueError escaped the builder and the sensor model factory, losing any
other sensor model the image metadata supports.
---
 src/aws/osml/gdal/projective_sensor_model_builder.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/aws/osml/gdal/projective_sensor_model_builder.py b/src/aws/osml/gdal/projective_sensor_model_builder.py
index c0ae65d..32e6c17 100644
--- a/src/aws/osml/gdal/projective_sensor_model_builder.py
+++ b/src/aws/osml/gdal/projective_sensor_model_builder.py
@@ -50,9 +50,14 @@ class ProjectiveSensorModelBuilder(SensorModelBuilder):
             logging.debug("No CSCRNA TRE found.")
             return None
 
-        return ProjectiveSensorModelBuilder.build_projective_sensor_model(
-            cscrna_tre, self.full_image_width, self.full_image_height
-        )
+        try:
+            return ProjectiveSensorModelBuilder.build_projective_sensor_model(
+                cscrna_tre, self.full_image_width, self.full_image_height
+            )
+        except ValueError as ve:
+            logging.warning("Unable to parse CSCRNA TRE found in XML metadata. No SensorModel created.")
+            logging.warning(str(ve))
+            return None
 
     @staticmethod
     def build_projective_sensor_model(
-- 
2.43.0


From ee01d1d1e331d59f773e0e702083d7de3005c70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:04 +0000
Subject: [PATCH 05/22] fix: return no affine model for a geotransform that can
 not be inverted

The ValueError escaped the builder and the sensor model factory, losing any
other sensor model the image metadata supports.
---
 src/aws/osml/gdal/gdal_sensor_model_builder.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/gdal_sensor_model_builder.py b/src/aws/osml/gdal/gdal_sensor_model_builder.py
index 57f9576..994c1ed 100644
--- a/src/aws/osml/gdal/gdal_sensor_model_builder.py
+++ b/src/aws/osml/gdal/gdal_sensor_model_builder.py
@@ -1,5 +1,6 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
+import logging
 from math import radians
 from typing import List, Optional
 
@@ -36,7 +37,12 @@ class GDALAffineSensorModelBuilder(SensorModelBuilder):
         """
         if self.geo_transform is None:
             return None
-        return GDALAffineSensorModel(self.geo_transform, self.proj_wkt)
+        try:
+            return GDALAffineSensorModel(self.geo_transform, self.proj_wkt)
+        except ValueError as ve:
+            logging.warning("Unable to use the GDAL GeoTransform. No SensorModel created.")
+            logging.warning(str(ve))
+            return None
 
 
 class GDALGCPSensorModelBuilder(SensorModelBuilder):
-- 
2.43.0


From 9e7dda7494049524df3fd8ba7808d5163306b775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:31 +0000
Subject: [PATCH 06/22] fix: leave the sensor model unchanged when the ICHIPB
 TRE cannot be parsed

The factory logged that the model is unchanged and then failed with an
AttributeError.
---
 src/aws/osml/gdal/sensor_model_factory.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/gdal/sensor_model_factory.py b/src/aws/osml/gdal/sensor_model_factory.py
index 9bd3636..4ec2500 100644
--- a/src/aws/osml/gdal/sensor_model_factory.py
+++ b/src/aws/osml/gdal/sensor_model_factory.py
@@ -38,6 +38,8 @@ class ChippedImageInfoFacade:
             # the corresponding image coordinates needed to create a chipped sensor model.
             self.full_image_coordinates = []
             self.chipped_image_coordinates = []
+            self.full_image_width = None
+            self.full_image_height = None
             for grid_point in ["11", "12", "21", "22"]:
                 op_col = get_tre_field_value(ichipb_tre, f"OP_COL_{grid_point}", float)
                 op_row = get_tre_field_value(ichipb_tre, f"OP_ROW_{grid_point}", float)
@@ -144,8 +146,12 @@ class SensorModelFactory:
             ichipb_tre = self.xml_tres.find("./tre[@name='ICHIPB']")
             if ichipb_tre is not None:
                 chipped_image_info = ChippedImageInfoFacade(ichipb_tre)
-                full_image_width = chipped_image_info.full_image_width
-                full_image_height = chipped_image_info.full_image_height
+                if chipped_image_info.full_image_width is None or chipped_image_info.full_image_height is None:
+                    # The TRE could not be parsed, leave the sensor models unchanged
+                    chipped_image_info = None
+                else:
+                    full_image_width = chipped_image_info.full_image_width
+                    full_image_height = chipped_image_info.full_image_height
 
             # Attempt to build a robust sensor model from either RSM or RPC metadata in the TREs. These
             # sensor models always reference the full image so if this is a chip we wrap the resulting sensor
-- 
2.43.0


From 2011af2ba1c4fd8b9003307a222ffd0564fc9e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:31 +0000
Subject: [PATCH 07/22] fix: keep sensor models already built when later
 metadata cannot be parsed

A CSCRNA TRE or SAR DES that yields no model replaced the model built from
other metadata with None.
---
 src/aws/osml/gdal/sensor_model_factory.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/aws/osml/gdal/sensor_model_factory.py b/src/aws/osml/gdal/sensor_model_factory.py
index 4ec2500..abb5729 100644
--- a/src/aws/osml/gdal/sensor_model_factory.py
+++ b/src/aws/osml/gdal/sensor_model_factory.py
@@ -174,15 +174,17 @@ class SensorModelFactory:
             if SensorModelTypes.PROJECTIVE in self.selected_sensor_model_types:
                 cscrna_tre = self.xml_tres.find("./tre[@name='CSCRNA']")
                 if cscrna_tre is not None:
-                    approximate_sensor_model = ProjectiveSensorModelBuilder(
+                    cscrna_sensor_model = ProjectiveSensorModelBuilder(
                         self.xml_tres, full_image_width, full_image_height
                     ).build()
-                    if approximate_sensor_model is not None and chipped_image_info is not None:
-                        approximate_sensor_model = ChippedImageSensorModel(
+                    if cscrna_sensor_model is not None and chipped_image_info is not None:
+                        cscrna_sensor_model = ChippedImageSensorModel(
                             chipped_image_info.full_image_coordinates,
                             chipped_image_info.chipped_image_coordinates,
-                            approximate_sensor_model,
+                            cscrna_sensor_model,
                         )
+                    if cscrna_sensor_model is not None:
+                        approximate_sensor_model = cscrna_sensor_model
 
                 # TODO: Maybe create a projective sensor model from corner locations derived from the precision model
                 # TODO: Consider using the rough corners from IGEOLO
@@ -200,10 +202,14 @@ class SensorModelFactory:
                     if "SIDD" in xml_str:
                         # SIDD images will often contain SICD XML metadata as well but the SIDD should come first
                         # so we can stop processing other XML data segments
-                        precision_sensor_model = SIDDSensorModelBuilder(sidd_xml=xml_str).build()
+                        sar_sensor_model = SIDDSensorModelBuilder(sidd_xml=xml_str).build()
+                        if sar_sensor_model is not None:
+                            precision_sensor_model = sar_sensor_model
                         break
                     elif "SICD" in xml_str and SensorModelTypes.SICD in self.selected_sensor_model_types:
-                        precision_sensor_model = SICDSensorModelBuilder(sicd_xml=xml_str).build()
+                        sar_sensor_model = SICDSensorModelBuilder(sicd_xml=xml_str).build()
+                        if sar_sensor_model is not None:
+                            precision_sensor_model = sar_sensor_model
                         break
 
         # If we have both an approximate and a precision sensor model return them as a composite so applications
-- 
2.43.0


From a96b2ebcb7a9012f7aaf3e02ddccfa2e205a5613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:00 +0000
Subject: [PATCH 08/22] fix: build no SICD model for an RGAZIM grid with an
 unsupported algorithm

The model was created without a projection and failed on first use.
---
 src/aws/osml/gdal/sicd_sensor_model_builder.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aws/osml/gdal/sicd_sensor_model_builder.py b/src/aws/osml/gdal/sicd_sensor_model_builder.py
index 5cb798d..6518b01 100644
--- a/src/aws/osml/gdal/sicd_sensor_model_builder.py
+++ b/src/aws/osml/gdal/sicd_sensor_model_builder.py
@@ -152,6 +152,12 @@ class SICDSensorModelBuilder(SensorModelBuilder):
                 projection_set = RGAZCOMPProjectionSet(
                     scp_ecf=scp_ecf, az_scale_factor=sicd.rg_az_comp.az_sf, coa_time_poly=time_coa_poly, arp_poly=arp_poly
                 )
+            else:
+                logger.warning(
+                    f"SICD RGAZIM image with unexpected image formation algorithm "
+                    f"{sicd.image_formation.image_form_algo}. No sensor model created."
+                )
+                return None
         elif sicd.grid.type_value.value == sicd121.ImageGridType.RGZERO.value:
             projection_set = INCAProjectionSet(
                 r_ca_scp=sicd.rma.inca.r_ca_scp,
-- 
2.43.0


From b6ced9f1d2d252944fc3eefd82c6ed25db26c04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:30 +0000
Subject: [PATCH 09/22] fix: left justify alphanumeric fields when re-encoding
 a DES header

NITF pads alphanumeric fields on the right and GDAL trims that padding, so right
justifying them moved every value, including the user defined subheader, away
from its position in the original header.
---
 src/aws/osml/gdal/nitf_des_accessor.py | 34 +++++++++++++-------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/aws/osml/gdal/nitf_des_accessor.py b/src/aws/osml/gdal/nitf_des_accessor.py
index b586555..14d82c9 100644
--- a/src/aws/osml/gdal/nitf_des_accessor.py
+++ b/src/aws/osml/gdal/nitf_des_accessor.py
@@ -66,22 +66,22 @@ class NITFDESAccessor:
         """
         result_builder = StringIO()
         result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESVER", int), "02d"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DECLAS", str), ">1"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCLSY", str), ">2"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCODE", str), ">11"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCTLH", str), ">2"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESREL", str), ">20"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCTP", str), ">2"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCDT", str), ">8"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCXM", str), ">4"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDG", str), ">1"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDGDT", str), ">8"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCLTX", str), ">43"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCATP", str), ">1"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCAUT", str), ">40"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCRSN", str), ">1"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESSRDT", str), ">8"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCTLN", str), ">15"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DECLAS", str), "<1"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCLSY", str), "<2"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCODE", str), "<11"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCTLH", str), "<2"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESREL", str), "<20"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCTP", str), "<2"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCDT", str), "<8"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCXM", str), "<4"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDG", str), "<1"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDGDT", str), "<8"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCLTX", str), "<43"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCATP", str), "<1"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCAUT", str), "<40"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCRSN", str), "<1"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESSRDT", str), "<8"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCTLN", str), "<15"))
 
         # TODO: If DESID = TRE_OVERFLOW DESOFLW, DESITEM
 
@@ -91,7 +91,7 @@ class NITFDESAccessor:
             result_builder.write(
                 format(
                     NITFDESAccessor.parse_field_value(des_element, "DESSHF", str),
-                    f">{subheader_length}",
+                    f"<{subheader_length}",
                 )
             )
 
-- 
2.43.0


From 30c6d6c959cb73753b240f5fb601807ae7de779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:03 +0000
Subject: [PATCH 10/22] fix: accept zero as the first or last bucket value of a
 histogram

---
 src/aws/osml/gdal/dynamic_range_adjustment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/gdal/dynamic_range_adjustment.py b/src/aws/osml/gdal/dynamic_range_adjustment.py
index 2be82b6..828f012 100644
--- a/src/aws/osml/gdal/dynamic_range_adjustment.py
+++ b/src/aws/osml/gdal/dynamic_range_adjustment.py
@@ -48,9 +48,9 @@ class DRAParameters:
         :return: a set of DRA parameters containing recommended and actual ranges of values
         """
         num_histogram_bins = len(counts)
-        if not first_bucket_value:
+        if first_bucket_value is None:
             first_bucket_value = 0
-        if not last_bucket_value:
+        if last_bucket_value is None:
             last_bucket_value = num_histogram_bins
 
         # Find the first and last non-zero counts
-- 
2.43.0


From ad1e3727041a5ec3650dcbe20c6df038f0717159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:46 +0000
Subject: [PATCH 11/22] fix: compute pixel ranges of images with a single pixel
 value

---
 src/aws/osml/gdal/gdal_utils.py                    | 6 +++++-
 src/aws/osml/image_processing/gdal_tile_factory.py | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/gdal_utils.py b/src/aws/osml/gdal/gdal_utils.py
index e0f6b76..f830786 100644
--- a/src/aws/osml/gdal/gdal_utils.py
+++ b/src/aws/osml/gdal/gdal_utils.py
@@ -152,7 +152,11 @@ def get_type_and_scales(
             min_value = stats[0]
             max_value = stats[1]
 
-            num_buckets = int(max_value - min_value)
+            if not max_value > min_value:
+                # GDAL can't compute the histogram of an empty range; this happens if all pixels have the same value
+                max_value = min_value + 1
+
+            num_buckets = max(1, int(max_value - min_value))
             if band_type == gdalconst.GDT_Float32 or band_type == gdalconst.GDT_Float64:
                 num_buckets = 255
 
diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index a694d09..cfff5ec 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -475,6 +475,10 @@ class GDALTileFactory:
         min_value = band.GetMinimum() if band.GetMinimum() is not None else np.min(pixel_array)
         max_value = band.GetMaximum() if band.GetMaximum() is not None else np.max(pixel_array)
 
+        if not max_value > min_value:
+            # GDAL can't compute the histogram of an empty range; this happens if all pixels have the same value
+            max_value = min_value + 1
+
         hist = band.GetHistogram(min=min_value, max=max_value, buckets=max(256, int(max_value - min_value)))
         dra_parameters = DRAParameters.from_counts(
             hist, first_bucket_value=min_value, last_bucket_value=max_value, max_percentage=0.97
-- 
2.43.0


From 4dd9aaab769e268704ef86831d2729733c4193b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:12 +0000
Subject: [PATCH 12/22] fix: return no tile and leave no temporary file when a
 tile can't be encoded

---
 .../image_processing/gdal_tile_factory.py     | 37 ++++++++++++-------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index cfff5ec..247d6b8 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -121,20 +121,27 @@ class GDALTileFactory:
             gdal_translate_kwargs["creationOptions"].append("ISUBCAT=I,Q")
             gdal_translate_kwargs["creationOptions"].append("DES=XML_DATA_CONTENT=" + updated_sar_des)
 
-        # Use GDAL to create an encoded tile of the image region
-        # From GDAL documentation:
-        #   srcWin --- subwindow in pixels to extract:
-        #               [left_x, top_y, width, height]
-        gdal.Translate(
-            temp_ds_name,
-            self.raster_dataset,
-            srcWin=src_window,
-            **gdal_translate_kwargs,
-        )
-
-        # Read the VSIFile
         vsifile_handle = None
+        is_encoded = False
         try:
+            # Use GDAL to create an encoded tile of the image region
+            # From GDAL documentation:
+            #   srcWin --- subwindow in pixels to extract:
+            #               [left_x, top_y, width, height]
+            temp_ds = gdal.Translate(
+                temp_ds_name,
+                self.raster_dataset,
+                srcWin=src_window,
+                **gdal_translate_kwargs,
+            )
+            if temp_ds is None:
+                return None
+            is_encoded = True
+
+            # Close the dataset to ensure everything has been written to the VSIFile
+            del temp_ds
+
+            # Read the VSIFile
             vsifile_handle = gdal.VSIFOpenL(temp_ds_name, "r")
             if vsifile_handle is None:
                 return None
@@ -144,7 +151,11 @@ class GDALTileFactory:
         finally:
             if vsifile_handle is not None:
                 gdal.VSIFCloseL(vsifile_handle)
-            gdal.GetDriverByName(self.tile_format).Delete(temp_ds_name)
+            if is_encoded:
+                gdal.GetDriverByName(self.tile_format).Delete(temp_ds_name)
+            elif gdal.VSIStatL(temp_ds_name) is not None:
+                # GDAL can't identify, and so won't delete, a file that was only partially encoded
+                gdal.Unlink(temp_ds_name)
 
     def create_orthophoto_tile(
         self, geo_bbox: Tuple[float, float, float, float], tile_size: Tuple[int, int]
-- 
2.43.0


From 8a518ae297e7008263ca80f187834194874b0630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:40 +0000
Subject: [PATCH 13/22] fix: place every SIDD chip relative to the image, not
 to the previous chip

---
 src/aws/osml/image_processing/sidd_updater.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aws/osml/image_processing/sidd_updater.py b/src/aws/osml/image_processing/sidd_updater.py
index 67583a5..69b0b24 100644
--- a/src/aws/osml/image_processing/sidd_updater.py
+++ b/src/aws/osml/image_processing/sidd_updater.py
@@ -26,6 +26,12 @@ class SIDDUpdater:
             parser = XmlParser()
             self.sidd = parser.from_string(self.xml_str)
 
+        # Here we're storing off the original chip to support the case where multiple chips are created from a SIDD
+        # image that has already been chipped. Each of those is relative to this image, not to the previous chip.
+        self.original_geometric_chip = None
+        if self.sidd.downstream_reprocessing:
+            self.original_geometric_chip = self.sidd.downstream_reprocessing.geometric_chip
+
     def update_image_data_for_chip(self, chip_bounds: List[int], output_size: Optional[Tuple[int, int]]) -> None:
         """
         This adds or updates the SIDD GeometricChip structure so that the ChipSize and original corner coordinates
@@ -87,6 +93,7 @@ class SIDDUpdater:
             (chip_bounds[0] + chip_bounds[2] - 1, chip_bounds[1] + chip_bounds[3] - 1),
             (chip_bounds[0], chip_bounds[1] + chip_bounds[3] - 1),
         ]
+        self.sidd.downstream_reprocessing.geometric_chip = self.original_geometric_chip
         if self.sidd.downstream_reprocessing.geometric_chip:
             original_chip_size = (
                 self.sidd.downstream_reprocessing.geometric_chip.chip_size.col,
-- 
2.43.0


From e7fc7e0ea68ca409d94a26cc79bd651764219d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:21 +0000
Subject: [PATCH 14/22] fix: number tiles on the outer edge of the tile matrix
 within the matrix

---
 src/aws/osml/image_processing/map_tileset_wmq.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aws/osml/image_processing/map_tileset_wmq.py b/src/aws/osml/image_processing/map_tileset_wmq.py
index 4ed12cf..609d2a6 100644
--- a/src/aws/osml/image_processing/map_tileset_wmq.py
+++ b/src/aws/osml/image_processing/map_tileset_wmq.py
@@ -80,6 +80,10 @@ class WebMercatorQuadMapTileSet(MapTileSet):
         )
         x_pixels, y_pixels = self._meters_to_pixels(x_meters, y_meters, tile_matrix)
         tile_col, tile_row = self._pixels_to_tile(x_pixels, y_pixels)
+        # Locations on the outer edge of the tile matrix belong to the outermost tiles
+        last_tile = 2**tile_matrix - 1
+        tile_col = min(max(tile_col, 0), last_tile)
+        tile_row = min(max(tile_row, 0), last_tile)
         return self.get_tile(MapTileId(tile_matrix=tile_matrix, tile_row=tile_row, tile_col=tile_col))
 
     def _resolution(self, tile_matrix: int) -> float:
-- 
2.43.0


From 03586c2520ab018cd74015dacee13ddf05997d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 15/22] fix: index the geographic geometries of features

---
 src/aws/osml/features/feature_index.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/features/feature_index.py b/src/aws/osml/features/feature_index.py
index 6fd8b90..e670051 100644
--- a/src/aws/osml/features/feature_index.py
+++ b/src/aws/osml/features/feature_index.py
@@ -51,7 +51,10 @@ class STRFeature2DSpatialIndex(Feature2DSpatialIndex):
         if use_image_geometries and property_accessor is not None:
             geometries = [property_accessor.find_image_geometry(feature) for feature in self.features]
         else:
-            geometries = [(shapely.shape(feature.geometry), feature) for feature in self.features]
+            geometries = [
+                shapely.geometry.shape(feature.geometry) if feature.geometry is not None else None
+                for feature in self.features
+            ]
 
         self.index = shapely.STRtree(geometries)
 
-- 
2.43.0


From 0609324c75f718540b57513e5f8608893700b145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 16/22] fix: leave features alone when none of them has image
 coordinates

---
 src/aws/osml/features/geolocation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aws/osml/features/geolocation.py b/src/aws/osml/features/geolocation.py
index be5a969..6942fb3 100644
--- a/src/aws/osml/features/geolocation.py
+++ b/src/aws/osml/features/geolocation.py
@@ -152,6 +152,10 @@ class Geolocator:
             feature_bounds[2] = max(feature_bounds[2], image_geometry_bbox[2])
             feature_bounds[3] = max(feature_bounds[3], image_geometry_bbox[3])
 
+        if math.isinf(feature_bounds[0]):
+            logging.warning("None of the features has a valid detection shape")
+            return
+
         # Expand the bounds to handle edge case where the features are all located at a single point or line.
         feature_bounds[0] -= 10
         feature_bounds[1] -= 10
-- 
2.43.0


From 58a0dc784a52233fcae7f4ec4963e65d5af32854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 17/22] fix: cover image bounding boxes with the geolocation
 grid

---
 src/aws/osml/features/geolocation.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/aws/osml/features/geolocation.py b/src/aws/osml/features/geolocation.py
index 6942fb3..6256a54 100644
--- a/src/aws/osml/features/geolocation.py
+++ b/src/aws/osml/features/geolocation.py
@@ -143,14 +143,18 @@ class Geolocator:
         # benefit by creating the same resolution of approximation grid over the smaller area.
         feature_bounds = [math.inf, math.inf, -math.inf, -math.inf]
         for feature in features:
-            image_geometry = self.property_accessor.find_image_geometry(feature)
-            if image_geometry is None:
-                continue
-            image_geometry_bbox = image_geometry.bounds
-            feature_bounds[0] = min(feature_bounds[0], image_geometry_bbox[0])
-            feature_bounds[1] = min(feature_bounds[1], image_geometry_bbox[1])
-            feature_bounds[2] = max(feature_bounds[2], image_geometry_bbox[2])
-            feature_bounds[3] = max(feature_bounds[3], image_geometry_bbox[3])
+            # A feature may have an image bounding box that extends beyond its image geometry; both are geolocated
+            for image_geometry in [
+                self.property_accessor.find_image_geometry(feature),
+                self.property_accessor.get_image_bbox(feature),
+            ]:
+                if image_geometry is None:
+                    continue
+                image_geometry_bbox = image_geometry.bounds
+                feature_bounds[0] = min(feature_bounds[0], image_geometry_bbox[0])
+                feature_bounds[1] = min(feature_bounds[1], image_geometry_bbox[1])
+                feature_bounds[2] = max(feature_bounds[2], image_geometry_bbox[2])
+                feature_bounds[3] = max(feature_bounds[3], image_geometry_bbox[3])
 
         if math.isinf(feature_bounds[0]):
             logging.warning("None of the features has a valid detection shape")
-- 
2.43.0


From 7ba0f26119a71981e063a12cdadd599eebc4d4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:54 +0000
Subject: [PATCH 18/22] fix: take the default orthophoto elevation from the
 image center

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 247d6b8..23a646a 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -194,7 +194,7 @@ class GDALTileFactory:
         # the image.
         center_x = self.raster_dataset.RasterXSize / 2
         center_y = self.raster_dataset.RasterYSize / 2
-        geo_image_center = self.sensor_model.image_to_world(ImageCoordinate([center_y, center_x]))
+        geo_image_center = self.sensor_model.image_to_world(ImageCoordinate([center_x, center_y]))
 
         def world_to_image_func(lon, lat):
             # TODO: Assign the elevation from a DEM
-- 
2.43.0


From bba823a0eb7b00ff4b65907123e154bf96e5063f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:54 +0000
Subject: [PATCH 19/22] fix: create non-square orthophoto tiles with the
 requested width and height

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 23a646a..9229a4e 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -287,16 +287,16 @@ class GDALTileFactory:
         # Create 2D linear interpolators that map the pixels in the map tile to x and y values in the source image.
         # This will allow us to efficiently generate the maps needed by the opencv::remap function for every pixel
         # in the destination image.
-        src_x_interpolator = RectBivariateSpline(pixel_x, pixel_y, src_x, kx=1, ky=1)
-        src_y_interpolator = RectBivariateSpline(pixel_x, pixel_y, src_y, kx=1, ky=1)
+        src_x_interpolator = RectBivariateSpline(pixel_y, pixel_x, src_x, kx=1, ky=1)
+        src_y_interpolator = RectBivariateSpline(pixel_y, pixel_x, src_y, kx=1, ky=1)
 
         # Create the map1 and map2 arrays that capture the non-linear relationship between each pixel in the map tile
         # (dst) to pixels in the original image (src). See opencv::remap documentation for definitions of these
         # parameters.
         dst_x = np.linspace(0, tile_size[0] - 1, tile_size[0])
         dst_y = np.linspace(0, tile_size[1] - 1, tile_size[1])
-        map1 = src_x_interpolator(dst_x, dst_y).astype(np.float32)
-        map2 = src_y_interpolator(dst_x, dst_y).astype(np.float32)
+        map1 = src_x_interpolator(dst_y, dst_x).astype(np.float32)
+        map2 = src_y_interpolator(dst_y, dst_x).astype(np.float32)
 
         logger.debug(
             f"Sanity check remap array sizes. They should match the desired map tile size {tile_size[0]}x{tile_size[1]}"
-- 
2.43.0


From f6a2163605aecec32a485dc7b305d3ad06d480a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:55 +0000
Subject: [PATCH 20/22] fix: register orthophoto tiles to the overview pixels
 that were read

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 9229a4e..98ef940 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -281,8 +281,8 @@ class GDALTileFactory:
         # Update the src_x and src_y coordinates because we cropped the image and pulled it from a different
         # resolution level. The original coordinates assumed the image origin at 0,0 in a full resolution
         # image and adjusted the remapping coordinates to account for the added border
-        src_x = (src_x - src_bbox[0]) / 2**r_level + border_size
-        src_y = (src_y - src_bbox[1]) / 2**r_level + border_size
+        src_x = src_x / 2**r_level - overview_bbox[0] + border_size
+        src_y = src_y / 2**r_level - overview_bbox[1] + border_size
 
         # Create 2D linear interpolators that map the pixels in the map tile to x and y values in the source image.
         # This will allow us to efficiently generate the maps needed by the opencv::remap function for every pixel
-- 
2.43.0


From f7522de39dfb399d178bf762ecef4ea9a41a6871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:55 +0000
Subject: [PATCH 21/22] fix: keep the order of the color bands in orthophoto
 tiles

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 98ef940..c47cd3d 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -326,6 +326,9 @@ class GDALTileFactory:
 
         output_tile_pixels = dst
         if alpha_mask is not None:
+            # imencode expects the color bands in BGR order
+            if output_tile_pixels.ndim == 3 and output_tile_pixels.shape[2] == 3:
+                output_tile_pixels = output_tile_pixels[:, :, ::-1]
             # imencode does not support 2-band (grayscale + alpha) so the workaround is to convert to 3-band
             if output_tile_pixels.ndim == 2:
                 output_tile_pixels = np.dstack((output_tile_pixels, output_tile_pixels, output_tile_pixels))
-- 
2.43.0


From 3d306499b193624ab2fdd9b767c54b1f94e7988a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:55 +0000
Subject: [PATCH 22/22] fix: compute the power of integer SAR pixels without
 overflow

---
 src/aws/osml/image_processing/sar_complex_imageop.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aws/osml/image_processing/sar_complex_imageop.py b/src/aws/osml/image_processing/sar_complex_imageop.py
index 4fd590c..1d7cc70 100644
--- a/src/aws/osml/image_processing/sar_complex_imageop.py
+++ b/src/aws/osml/image_processing/sar_complex_imageop.py
@@ -47,6 +47,9 @@ def complex_to_power_value(complex_data: np.ndarray) -> np.ndarray:
     :param complex_data: the SAR complex image signal with real and imaginary components
     :return: the power values
     """
+    if np.issubdtype(complex_data.dtype, np.integer):
+        # The squares of e.g. 16-bit pixels do not fit the pixel type
+        complex_data = complex_data.astype(np.float64)
     return np.sum(np.square(complex_data), axis=0)
 
 
-- 
2.43.0

