From 8dce217820c8bd67a46380949b04680ba98331f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:40 +0000
Subject: [PATCH 01/20] fix: carry rounding into minutes and degrees when
 formatting geodetic coordinates

---
 src/aws/osml/photogrammetry/coordinates.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/aws/osml/photogrammetry/coordinates.py b/src/aws/osml/photogrammetry/coordinates.py
index aab4709..84ad47e 100644
--- a/src/aws/osml/photogrammetry/coordinates.py
+++ b/src/aws/osml/photogrammetry/coordinates.py
@@ -159,18 +159,18 @@ class GeodeticWorldCoordinate(WorldCoordinate):
         if lat_degrees < 0:
             lat_degrees *= -1.0
             lh = "S"
-        ld = int(lat_degrees)
-        lm = int(round(lat_degrees - ld, 6) * 60)
-        ls = int(round(lat_degrees - ld - lm / 60, 6) * 3600)
+        # Work from a single count of whole seconds so that rounding always carries into the minutes and degrees. The
+        # round() absorbs floating point noise (e.g. from a degrees to radians conversion) near a whole second.
+        lm, ls = divmod(int(round(lat_degrees * 3600, 3)), 60)
+        ld, lm = divmod(lm, 60)
 
         lon_degrees = np.degrees(self.longitude)
         oh = "E"
         if lon_degrees < 0:
             lon_degrees *= -1.0
             oh = "W"
-        od = int(lon_degrees)
-        om = int(round(lon_degrees - od, 6) * 60)
-        os = int(round(lon_degrees - od - om / 60, 6) * 3600)
+        om, os = divmod(int(round(lon_degrees * 3600, 3)), 60)
+        od, om = divmod(om, 60)
 
         result = []
         i = 0
-- 
2.43.0


From bfe3fa8cbdf5a2f6216d5873b96b395fa41c3fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:04 +0000
Subject: [PATCH 02/20] fix: keep the RSM/RPC model when the SICD/SIDD metadata
 can not be used

---
 src/aws/osml/gdal/sensor_model_factory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/gdal/sensor_model_factory.py b/src/aws/osml/gdal/sensor_model_factory.py
index 9bd3636..fdbd077 100644
--- a/src/aws/osml/gdal/sensor_model_factory.py
+++ b/src/aws/osml/gdal/sensor_model_factory.py
@@ -194,10 +194,12 @@ class SensorModelFactory:
                     if "SIDD" in xml_str:
                         # SIDD images will often contain SICD XML metadata as well but the SIDD should come first
                         # so we can stop processing other XML data segments
-                        precision_sensor_model = SIDDSensorModelBuilder(sidd_xml=xml_str).build()
+                        sar_sensor_model = SIDDSensorModelBuilder(sidd_xml=xml_str).build()
+                        precision_sensor_model = sar_sensor_model or precision_sensor_model
                         break
                     elif "SICD" in xml_str and SensorModelTypes.SICD in self.selected_sensor_model_types:
-                        precision_sensor_model = SICDSensorModelBuilder(sicd_xml=xml_str).build()
+                        sar_sensor_model = SICDSensorModelBuilder(sicd_xml=xml_str).build()
+                        precision_sensor_model = sar_sensor_model or precision_sensor_model
                         break
 
         # If we have both an approximate and a precision sensor model return them as a composite so applications
-- 
2.43.0


From c970504afde42a8ac453f40d776fa51603f4c5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:04 +0000
Subject: [PATCH 03/20] fix: build no RSM model when an image section has no
 polynomials

---
 src/aws/osml/gdal/rsm_sensor_model_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aws/osml/gdal/rsm_sensor_model_builder.py b/src/aws/osml/gdal/rsm_sensor_model_builder.py
index 2b59c10..d407aab 100644
--- a/src/aws/osml/gdal/rsm_sensor_model_builder.py
+++ b/src/aws/osml/gdal/rsm_sensor_model_builder.py
@@ -311,6 +311,8 @@ class RSMSensorModelBuilder(SensorModelBuilder):
         for row in range(1, num_section_rows + 1):
             row_of_sensor_models = []
             for col in range(1, num_section_cols + 1):
+                if (row, col) not in sensor_model_grid_map:
+                    raise ValueError(f"RSM metadata has no polynomials for image section {row}, {col}")
                 row_of_sensor_models.append(sensor_model_grid_map[(row, col)])
             section_sensor_model_grid.append(row_of_sensor_models)
 
-- 
2.43.0


From 13715e513b2af690f069a9fce952cd9a60f49c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:16 +0000
Subject: [PATCH 04/20] fix: continue without the chip mapping when the ICHIPB
 TRE can not be parsed

---
 src/aws/osml/gdal/sensor_model_factory.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/aws/osml/gdal/sensor_model_factory.py b/src/aws/osml/gdal/sensor_model_factory.py
index fdbd077..a047fd4 100644
--- a/src/aws/osml/gdal/sensor_model_factory.py
+++ b/src/aws/osml/gdal/sensor_model_factory.py
@@ -51,6 +51,7 @@ class ChippedImageInfoFacade:
         except ValueError as ve:
             logging.warning("Unable to parse ICHIPB TRE found in XML metadata. SensorModel is unchanged.")
             logging.warning(str(ve))
+            raise
 
 
 class SensorModelTypes(Enum):
@@ -143,9 +144,12 @@ class SensorModelFactory:
             chipped_image_info = None
             ichipb_tre = self.xml_tres.find("./tre[@name='ICHIPB']")
             if ichipb_tre is not None:
-                chipped_image_info = ChippedImageInfoFacade(ichipb_tre)
-                full_image_width = chipped_image_info.full_image_width
-                full_image_height = chipped_image_info.full_image_height
+                try:
+                    chipped_image_info = ChippedImageInfoFacade(ichipb_tre)
+                    full_image_width = chipped_image_info.full_image_width
+                    full_image_height = chipped_image_info.full_image_height
+                except ValueError:
+                    chipped_image_info = None
 
             # Attempt to build a robust sensor model from either RSM or RPC metadata in the TREs. These
             # sensor models always reference the full image so if this is a chip we wrap the resulting sensor
-- 
2.43.0


From 43c79cf48030e868ae428bcca6039271740a3b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:33 +0000
Subject: [PATCH 05/20] fix: keep DRA ranges ordered and accept a last bucket
 value of zero

---
 src/aws/osml/gdal/dynamic_range_adjustment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/dynamic_range_adjustment.py b/src/aws/osml/gdal/dynamic_range_adjustment.py
index 2be82b6..6dd2696 100644
--- a/src/aws/osml/gdal/dynamic_range_adjustment.py
+++ b/src/aws/osml/gdal/dynamic_range_adjustment.py
@@ -50,7 +50,7 @@ class DRAParameters:
         num_histogram_bins = len(counts)
         if not first_bucket_value:
             first_bucket_value = 0
-        if not last_bucket_value:
+        if last_bucket_value is None:
             last_bucket_value = num_histogram_bins
 
         # Find the first and last non-zero counts
@@ -79,6 +79,8 @@ class DRAParameters:
         e_max = num_histogram_bins - 1
         while cumulative_counts[e_max] > high_threshold and e_max > 0:
             e_max -= 1
+        # A single bucket can hold the pixels at both thresholds, do not let the range become inverted
+        e_max = max(e_min, e_max)
 
         min_value = max([actual_min_value, e_min - a * (e_max - e_min)])
         max_value = min([actual_max_value, e_max + b * (e_max - e_min)])
-- 
2.43.0


From 6556dadc57421c8bd9e7fbdc2ccada1496dae519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:33 +0000
Subject: [PATCH 06/20] fix: support range adjustments of images where all
 pixels have the same value

---
 src/aws/osml/gdal/gdal_utils.py                    | 5 +++++
 src/aws/osml/image_processing/gdal_tile_factory.py | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/aws/osml/gdal/gdal_utils.py b/src/aws/osml/gdal/gdal_utils.py
index e0f6b76..e6c2f2a 100644
--- a/src/aws/osml/gdal/gdal_utils.py
+++ b/src/aws/osml/gdal/gdal_utils.py
@@ -156,6 +156,11 @@ def get_type_and_scales(
             if band_type == gdalconst.GDT_Float32 or band_type == gdalconst.GDT_Float64:
                 num_buckets = 255
 
+            # GDAL can only build histograms for a range that is not empty, widen it if all pixels have the same value.
+            num_buckets = max(num_buckets, 1)
+            if max_value <= min_value:
+                max_value = min_value + 1
+
             dra = DRAParameters.from_counts(
                 counts=band.GetHistogram(
                     buckets=num_buckets, max=max_value, min=min_value, include_out_of_range=1, approx_ok=1
diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index a694d09..5c3d4d0 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -475,6 +475,10 @@ class GDALTileFactory:
         min_value = band.GetMinimum() if band.GetMinimum() is not None else np.min(pixel_array)
         max_value = band.GetMaximum() if band.GetMaximum() is not None else np.max(pixel_array)
 
+        # GDAL can only build histograms for a range that is not empty, widen it if all pixels have the same value.
+        if max_value <= min_value:
+            max_value = float(min_value) + 1
+
         hist = band.GetHistogram(min=min_value, max=max_value, buckets=max(256, int(max_value - min_value)))
         dra_parameters = DRAParameters.from_counts(
             hist, first_bucket_value=min_value, last_bucket_value=max_value, max_percentage=0.97
-- 
2.43.0


From 08e607dcff7cab505a8b57e00193c0479ad81db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:12 +0000
Subject: [PATCH 07/20] fix: restore GDAL options when an environment is
 entered twice or changed inside the with statement

---
 src/aws/osml/gdal/gdal_config.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_config.py b/src/aws/osml/gdal/gdal_config.py
index a0053c6..d51183d 100644
--- a/src/aws/osml/gdal/gdal_config.py
+++ b/src/aws/osml/gdal/gdal_config.py
@@ -1,7 +1,7 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
 import logging
-from typing import Dict, Optional
+from typing import Dict, List, Optional
 
 from osgeo import gdal
 
@@ -58,7 +58,8 @@ class GDALConfigEnv:
             self.options = options.copy()
         else:
             self.options = {}
-        self.old_options: Dict = {}
+        # One entry for each active with statement, this environment may be entered again before it is exited.
+        self.old_options: List[Dict] = []
 
     def with_aws_credentials(self, aws_credentials: Optional[Dict[str, str]]) -> "GDALConfigEnv":
         """
@@ -79,10 +80,12 @@ class GDALConfigEnv:
         return self
 
     def __enter__(self) -> None:
+        previous_options = {}
         for key, val in self.options.items():
-            self.old_options[key] = gdal.GetConfigOption(key)
+            previous_options[key] = gdal.GetConfigOption(key)
             gdal.SetConfigOption(key, str(val))
+        self.old_options.append(previous_options)
 
     def __exit__(self, exc_type: str, exc_val: str, exc_traceback: str) -> None:
-        for key, val in self.options.items():
-            gdal.SetConfigOption(key, self.old_options[key])
+        for key, val in self.old_options.pop().items():
+            gdal.SetConfigOption(key, val)
-- 
2.43.0


From 54bb879526710c6a50db7d65ac1d7716d4f9be13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:36 +0000
Subject: [PATCH 08/20] fix: compute every SIDD chip relative to the original
 image

---
 src/aws/osml/image_processing/sidd_updater.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/aws/osml/image_processing/sidd_updater.py b/src/aws/osml/image_processing/sidd_updater.py
index 67583a5..3b8dcf2 100644
--- a/src/aws/osml/image_processing/sidd_updater.py
+++ b/src/aws/osml/image_processing/sidd_updater.py
@@ -26,6 +26,12 @@ class SIDDUpdater:
             parser = XmlParser()
             self.sidd = parser.from_string(self.xml_str)
 
+            # Here we're storing off the original chip geometry to support the case where multiple chips are
+            # created from a SIDD image. The bounds of every chip are relative to the image as it was provided.
+            self.original_geometric_chip = None
+            if self.sidd.downstream_reprocessing:
+                self.original_geometric_chip = self.sidd.downstream_reprocessing.geometric_chip
+
     def update_image_data_for_chip(self, chip_bounds: List[int], output_size: Optional[Tuple[int, int]]) -> None:
         """
         This adds or updates the SIDD GeometricChip structure so that the ChipSize and original corner coordinates
@@ -78,6 +84,9 @@ class SIDDUpdater:
         if not self.sidd.downstream_reprocessing:
             self.sidd.downstream_reprocessing = sidd_namespace.DownstreamReprocessingType()
 
+        # Bounds are relative to the image as it was provided, not to a chip created by an earlier call.
+        self.sidd.downstream_reprocessing.geometric_chip = self.original_geometric_chip
+
         # Identify the location of the UL, UR, LR, LL corners of this chip in the full image. If the image is already
         # a chip of a full image these coordinates need to be updated, so they are still the positions of the new chip
         # in the original full image.
-- 
2.43.0


From 6e61334ef361e466d1efb96eb72f3a37e0f09604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:36 +0000
Subject: [PATCH 09/20] fix: locate points on the edge of the web mercator map
 in the first column or row of tiles

---
 src/aws/osml/image_processing/map_tileset_wmq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aws/osml/image_processing/map_tileset_wmq.py b/src/aws/osml/image_processing/map_tileset_wmq.py
index 4ed12cf..f251604 100644
--- a/src/aws/osml/image_processing/map_tileset_wmq.py
+++ b/src/aws/osml/image_processing/map_tileset_wmq.py
@@ -132,6 +132,9 @@ class WebMercatorQuadMapTileSet(MapTileSet):
         """
         tile_col = int(math.ceil(x_pixels / float(self.tile_size)) - 1)
         tile_row = int(math.ceil(y_pixels / float(self.tile_size)) - 1)
+        # Locations on the western / lower edge of the map belong to the first column / row of tiles
+        tile_col = max(tile_col, 0)
+        tile_row = max(tile_row, 0)
         return tile_col, tile_row
 
     def _calculate_tile_bounds_meters(self, tile_id: MapTileId) -> tuple[float, float, float, float]:
-- 
2.43.0


From 6d4d00280b527711caa30aa5c35bfe6987e8f999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:28 +0000
Subject: [PATCH 10/20] fix: take the default elevation of map tiles from the
 center of the image

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 5c3d4d0..aca5a3a 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -183,7 +183,7 @@ class GDALTileFactory:
         # the image.
         center_x = self.raster_dataset.RasterXSize / 2
         center_y = self.raster_dataset.RasterYSize / 2
-        geo_image_center = self.sensor_model.image_to_world(ImageCoordinate([center_y, center_x]))
+        geo_image_center = self.sensor_model.image_to_world(ImageCoordinate([center_x, center_y]))
 
         def world_to_image_func(lon, lat):
             # TODO: Assign the elevation from a DEM
-- 
2.43.0


From 5aa3d79aad3a9e5f1dc0daeb3f38b67c0200f00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:28 +0000
Subject: [PATCH 11/20] fix: create map tiles that are not square with the
 requested orientation

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index aca5a3a..b05e9ac 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -276,16 +276,16 @@ class GDALTileFactory:
         # Create 2D linear interpolators that map the pixels in the map tile to x and y values in the source image.
         # This will allow us to efficiently generate the maps needed by the opencv::remap function for every pixel
         # in the destination image.
-        src_x_interpolator = RectBivariateSpline(pixel_x, pixel_y, src_x, kx=1, ky=1)
-        src_y_interpolator = RectBivariateSpline(pixel_x, pixel_y, src_y, kx=1, ky=1)
+        src_x_interpolator = RectBivariateSpline(pixel_y, pixel_x, src_x, kx=1, ky=1)
+        src_y_interpolator = RectBivariateSpline(pixel_y, pixel_x, src_y, kx=1, ky=1)
 
         # Create the map1 and map2 arrays that capture the non-linear relationship between each pixel in the map tile
         # (dst) to pixels in the original image (src). See opencv::remap documentation for definitions of these
         # parameters.
         dst_x = np.linspace(0, tile_size[0] - 1, tile_size[0])
         dst_y = np.linspace(0, tile_size[1] - 1, tile_size[1])
-        map1 = src_x_interpolator(dst_x, dst_y).astype(np.float32)
-        map2 = src_y_interpolator(dst_x, dst_y).astype(np.float32)
+        map1 = src_x_interpolator(dst_y, dst_x).astype(np.float32)
+        map2 = src_y_interpolator(dst_y, dst_x).astype(np.float32)
 
         logger.debug(
             f"Sanity check remap array sizes. They should match the desired map tile size {tile_size[0]}x{tile_size[1]}"
-- 
2.43.0


From 0a1448fbf3bed9c80de089db46c54b47f9b2858e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:28 +0000
Subject: [PATCH 12/20] fix: handle map tiles that overlap only a sliver of the
 image

---
 .../osml/image_processing/gdal_tile_factory.py  | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index b05e9ac..9a0dff4 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -210,10 +210,10 @@ class GDALTileFactory:
             int(np.ceil(np.max(src_y))),
         )
         if (
-            src_bbox[0] > self.raster_dataset.RasterXSize
-            or src_bbox[1] > self.raster_dataset.RasterYSize
-            or src_bbox[2] < 0
-            or src_bbox[3] < 0
+            src_bbox[0] >= self.raster_dataset.RasterXSize
+            or src_bbox[1] >= self.raster_dataset.RasterYSize
+            or src_bbox[2] <= 0
+            or src_bbox[3] <= 0
         ):
             # Source bbox does not intersect the image, no tile to create
             logger.debug(
@@ -228,7 +228,7 @@ class GDALTileFactory:
         # very different resolution level than the other tiles at a similar map zoom level.
         def find_appropriate_r_level(src_bbox, tile_width) -> int:
             src_dim = np.min([src_bbox[2] - src_bbox[0], src_bbox[3] - src_bbox[1]])
-            return int(np.max([0, int(np.floor(np.log2(src_dim / tile_width)))]))
+            return int(np.max([0, int(np.floor(np.log2(max(src_dim, 1) / tile_width)))]))
 
         num_overviews = self.raster_dataset.GetRasterBand(1).GetOverviewCount()
         r_level = min(find_appropriate_r_level(src_bbox, tile_size[0]), num_overviews)
@@ -242,6 +242,13 @@ class GDALTileFactory:
         logger.debug(f"After Clip to Image Bounds src_bbox = {src_bbox}")
 
         overview_bbox = tuple([int(x / 2**r_level) for x in src_bbox])
+        # Always read at least one pixel, the overlap may be smaller than a pixel of the selected resolution level.
+        overview_bbox = (
+            overview_bbox[0],
+            overview_bbox[1],
+            max(overview_bbox[2], overview_bbox[0] + 1),
+            max(overview_bbox[3], overview_bbox[1] + 1),
+        )
         logger.debug(f"Using r-level: {r_level}")
         logger.debug(f"overview_bbox = {overview_bbox}")
         logger.debug(f"Dataset size = {self.raster_dataset.RasterXSize},{self.raster_dataset.RasterYSize}")
-- 
2.43.0


From 0a1fa1b14cfa50e607bc222e177c9878884c04f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:01 +0000
Subject: [PATCH 13/20] fix: map the largest value of a band to white in
 min-max normalization

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 9a0dff4..7c83ecf 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -464,7 +464,7 @@ class GDALTileFactory:
         max_value = band.GetMaximum() if band.GetMaximum() is not None else np.max(pixel_array)
 
         # Apply the Min-Max normalization
-        normalized_pixel = (pixel_array - min_value) * (255.0 / max(max_value, 1.0))
+        normalized_pixel = (pixel_array - min_value) * (255.0 / max(max_value - min_value, 1.0))
         normalized_pixel = np.clip(normalized_pixel, 0.0, 255.0)
         return normalized_pixel.astype(np.uint8)
 
-- 
2.43.0


From cced779bb97e6b04d350cb6d4c36d6d96c9b878a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:01 +0000
Subject: [PATCH 14/20] fix: compute the power of integer SAR pixels without
 overflow

---
 src/aws/osml/image_processing/sar_complex_imageop.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aws/osml/image_processing/sar_complex_imageop.py b/src/aws/osml/image_processing/sar_complex_imageop.py
index 4fd590c..06a7318 100644
--- a/src/aws/osml/image_processing/sar_complex_imageop.py
+++ b/src/aws/osml/image_processing/sar_complex_imageop.py
@@ -47,6 +47,9 @@ def complex_to_power_value(complex_data: np.ndarray) -> np.ndarray:
     :param complex_data: the SAR complex image signal with real and imaginary components
     :return: the power values
     """
+    # The squares of integer pixels (e.g. RE16I_IM16I) do not fit into their own type
+    if np.issubdtype(complex_data.dtype, np.integer):
+        complex_data = complex_data.astype(np.float64)
     return np.sum(np.square(complex_data), axis=0)
 
 
-- 
2.43.0


From 8bce01016707a3d985c207f8e2442f430529e984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:37 +0000
Subject: [PATCH 15/20] fix: map SAR pixels without any signal to black instead
 of NaN

---
 src/aws/osml/image_processing/sar_complex_imageop.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aws/osml/image_processing/sar_complex_imageop.py b/src/aws/osml/image_processing/sar_complex_imageop.py
index 06a7318..d025e1f 100644
--- a/src/aws/osml/image_processing/sar_complex_imageop.py
+++ b/src/aws/osml/image_processing/sar_complex_imageop.py
@@ -97,6 +97,9 @@ def histogram_stretch_mag_values(magnitude_values: np.ndarray, scale_factor: flo
     :return: the quantized grayscale image clipped to the range of [0:255]
     """
     mean_value = np.mean(magnitude_values[np.isfinite(magnitude_values)])
+    if mean_value == 0:
+        # Without any signal the scale is undefined, all of the pixels are black
+        return np.zeros(np.shape(magnitude_values))
     u = 1 / (scale_factor * mean_value)
     return np.clip(255.0 * u * magnitude_values, 0.0, 255.0)
 
@@ -118,6 +121,9 @@ def quarter_power_mag_values(
     mean_value = precomputed_mean
     if mean_value is None:
         mean_value = np.mean(sqrt_magnitude[np.isfinite(sqrt_magnitude)])
+    if mean_value == 0:
+        # Without any signal the scale is undefined, all of the pixels are black
+        return np.zeros(np.shape(magnitude_values))
     b = 1 / (scale_factor * mean_value)
     return np.clip(255.0 * b * sqrt_magnitude, 0.0, 255.0)
 
-- 
2.43.0


From a7706a254a65feda3b605d881d2d207a4ceeda86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:37 +0000
Subject: [PATCH 16/20] fix: index features by their world geometry when image
 geometries are not used

---
 src/aws/osml/features/feature_index.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/features/feature_index.py b/src/aws/osml/features/feature_index.py
index 6fd8b90..e670051 100644
--- a/src/aws/osml/features/feature_index.py
+++ b/src/aws/osml/features/feature_index.py
@@ -51,7 +51,10 @@ class STRFeature2DSpatialIndex(Feature2DSpatialIndex):
         if use_image_geometries and property_accessor is not None:
             geometries = [property_accessor.find_image_geometry(feature) for feature in self.features]
         else:
-            geometries = [(shapely.shape(feature.geometry), feature) for feature in self.features]
+            geometries = [
+                shapely.geometry.shape(feature.geometry) if feature.geometry is not None else None
+                for feature in self.features
+            ]
 
         self.index = shapely.STRtree(geometries)
 
-- 
2.43.0


From 3ff0192e0abb16030975f83013c9b4e25ae23639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:07 +0000
Subject: [PATCH 17/20] fix: cover the image bounding boxes of features with
 the geolocation grid

---
 src/aws/osml/features/geolocation.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/aws/osml/features/geolocation.py b/src/aws/osml/features/geolocation.py
index be5a969..29eca9a 100644
--- a/src/aws/osml/features/geolocation.py
+++ b/src/aws/osml/features/geolocation.py
@@ -152,6 +152,15 @@ class Geolocator:
             feature_bounds[2] = max(feature_bounds[2], image_geometry_bbox[2])
             feature_bounds[3] = max(feature_bounds[3], image_geometry_bbox[3])
 
+            # The "imageBBox" is located too, and it may extend beyond the image geometry
+            image_bbox = self.property_accessor.get_image_bbox(feature)
+            if image_bbox is not None:
+                image_geometry_bbox = image_bbox.bounds
+                feature_bounds[0] = min(feature_bounds[0], image_geometry_bbox[0])
+                feature_bounds[1] = min(feature_bounds[1], image_geometry_bbox[1])
+                feature_bounds[2] = max(feature_bounds[2], image_geometry_bbox[2])
+                feature_bounds[3] = max(feature_bounds[3], image_geometry_bbox[3])
+
         # Expand the bounds to handle edge case where the features are all located at a single point or line.
         feature_bounds[0] -= 10
         feature_bounds[1] -= 10
-- 
2.43.0


From 972d392cad1f853ea9d607bf48948a569e91206c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:07 +0000
Subject: [PATCH 18/20] fix: leave features alone when none of them has an
 image geometry

---
 src/aws/osml/features/geolocation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aws/osml/features/geolocation.py b/src/aws/osml/features/geolocation.py
index 29eca9a..946fa81 100644
--- a/src/aws/osml/features/geolocation.py
+++ b/src/aws/osml/features/geolocation.py
@@ -161,6 +161,10 @@ class Geolocator:
                 feature_bounds[2] = max(feature_bounds[2], image_geometry_bbox[2])
                 feature_bounds[3] = max(feature_bounds[3], image_geometry_bbox[3])
 
+        if feature_bounds[0] > feature_bounds[2]:
+            logging.warning("None of the features has a valid detection shape")
+            return
+
         # Expand the bounds to handle edge case where the features are all located at a single point or line.
         feature_bounds[0] -= 10
         feature_bounds[1] -= 10
-- 
2.43.0


From 860adb444976a02b939b5e61af40c93799199c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:38 +0000
Subject: [PATCH 19/20] fix: keep the other sensor models when the CSCRNA TRE
 is unusable

---
 src/aws/osml/gdal/projective_sensor_model_builder.py | 11 ++++++++---
 src/aws/osml/gdal/sensor_model_factory.py            |  3 +++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/aws/osml/gdal/projective_sensor_model_builder.py b/src/aws/osml/gdal/projective_sensor_model_builder.py
index c0ae65d..32e6c17 100644
--- a/src/aws/osml/gdal/projective_sensor_model_builder.py
+++ b/src/aws/osml/gdal/projective_sensor_model_builder.py
@@ -50,9 +50,14 @@ class ProjectiveSensorModelBuilder(SensorModelBuilder):
             logging.debug("No CSCRNA TRE found.")
             return None
 
-        return ProjectiveSensorModelBuilder.build_projective_sensor_model(
-            cscrna_tre, self.full_image_width, self.full_image_height
-        )
+        try:
+            return ProjectiveSensorModelBuilder.build_projective_sensor_model(
+                cscrna_tre, self.full_image_width, self.full_image_height
+            )
+        except ValueError as ve:
+            logging.warning("Unable to parse CSCRNA TRE found in XML metadata. No SensorModel created.")
+            logging.warning(str(ve))
+            return None
 
     @staticmethod
     def build_projective_sensor_model(
diff --git a/src/aws/osml/gdal/sensor_model_factory.py b/src/aws/osml/gdal/sensor_model_factory.py
index a047fd4..24dc906 100644
--- a/src/aws/osml/gdal/sensor_model_factory.py
+++ b/src/aws/osml/gdal/sensor_model_factory.py
@@ -172,6 +172,7 @@ class SensorModelFactory:
             if SensorModelTypes.PROJECTIVE in self.selected_sensor_model_types:
                 cscrna_tre = self.xml_tres.find("./tre[@name='CSCRNA']")
                 if cscrna_tre is not None:
+                    fallback_sensor_model = approximate_sensor_model
                     approximate_sensor_model = ProjectiveSensorModelBuilder(
                         self.xml_tres, full_image_width, full_image_height
                     ).build()
@@ -181,6 +182,8 @@ class SensorModelFactory:
                             chipped_image_info.chipped_image_coordinates,
                             approximate_sensor_model,
                         )
+                    if approximate_sensor_model is None:
+                        approximate_sensor_model = fallback_sensor_model
 
                 # TODO: Maybe create a projective sensor model from corner locations derived from the precision model
                 # TODO: Consider using the rough corners from IGEOLO
-- 
2.43.0


From a914c3477aa6721dfe9895fd723e9ea6bb0a4190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:38 +0000
Subject: [PATCH 20/20] fix: keep the other sensor models when the geotransform
 can not be inverted

---
 src/aws/osml/gdal/gdal_sensor_model_builder.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/gdal_sensor_model_builder.py b/src/aws/osml/gdal/gdal_sensor_model_builder.py
index 57f9576..a9f0c2d 100644
--- a/src/aws/osml/gdal/gdal_sensor_model_builder.py
+++ b/src/aws/osml/gdal/gdal_sensor_model_builder.py
@@ -1,5 +1,6 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
+import logging
 from math import radians
 from typing import List, Optional
 
@@ -36,7 +37,12 @@ class GDALAffineSensorModelBuilder(SensorModelBuilder):
         """
         if self.geo_transform is None:
             return None
-        return GDALAffineSensorModel(self.geo_transform, self.proj_wkt)
+        try:
+            return GDALAffineSensorModel(self.geo_transform, self.proj_wkt)
+        except ValueError as ve:
+            logging.warning("Unable to use the GDAL geo transform. No SensorModel created.")
+            logging.warning(str(ve))
+            return None
 
 
 class GDALGCPSensorModelBuilder(SensorModelBuilder):
-- 
2.43.0

