From d37620ceb7c85a15937d5df8e94221110f3cee29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 01/78] fix: GeotiffImage.write_to_disk raises when the image
 did not reach the disk

---
 .../earth_overhead/geotiff/geotiff_image.py   | 27 +++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 7b6244f..a811ac1 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -132,6 +132,8 @@ class GeotiffImage(AbstractEarthOverheadImage):
             self.get_metadata().get_n_bands(),
             dtype,
             ops)
+        if dataset is None:
+            raise IOError("could not create " + fname)
         dataset.SetGeoTransform(self.get_point_calculator().get_geot())
         dataset.SetProjection(self.get_point_calculator().get_gdal_projection_wkt())
         if self.get_image_data() is None:
@@ -142,6 +144,31 @@ class GeotiffImage(AbstractEarthOverheadImage):
                 dataset.GetRasterBand(band + 1).SetNoDataValue(int(self.get_metadata().get_nodata_val()))
         dataset.FlushCache()
         dataset = None
+        self._verify_written_file(fname)
+
+    def _verify_written_file(self,
+                             fname  # type: str
+                             ):  # type: (...) -> None
+        """
+        gdal buffers what it writes, and drops some of the errors (a full disk, for one) that occur when the buffers
+        are emptied, so the only way to know that the image arrived on disk is to look.
+        :param fname: file that this image was just written to
+        :return: None, raises an IOError if the file does not hold the image
+        """
+        dataset = gdal.Open(fname, gdal.GA_ReadOnly)
+        if dataset is None:
+            raise IOError("could not write " + fname)
+        for band_num in range(self.get_metadata().get_n_bands()):
+            band = dataset.GetRasterBand(band_num + 1)
+            expected = self.get_image_band(band_num)
+            if gdal_array.NumericTypeCodeToGDALTypeCode(expected.dtype) != band.DataType:
+                # gdal converted the pixels when it wrote them
+                mem_dataset = gdal.GetDriverByName('MEM').Create('', band.XSize, band.YSize, 1, band.DataType)
+                mem_dataset.GetRasterBand(1).WriteArray(expected)
+                expected = mem_dataset.GetRasterBand(1).ReadAsArray()
+            written = band.ReadAsArray()
+            if written is None or not np.all((written == expected) | ((written != written) & (expected != expected))):
+                raise IOError("could not write band " + str(band_num) + " of " + fname)
 
     @staticmethod
     def gdalwarp_geotiff_image(image,           # type: GeotiffImage
-- 
2.43.0


From ee77177efde3ce41ed7f78d0b5bcbda5b0fe244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 02/78] fix: keep fractional and NaN nodata values when a
 GeoTIFF is written

---
 .../earth_overhead/geotiff/geotiff_image.py        | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index a811ac1..13e0991 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -114,8 +114,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
             self.set_image_data(self.read_all_image_data_from_disk())
         for band in range(self.get_metadata().get_n_bands()):
             dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
-            if self.get_metadata().get_nodata_val() is not None:
-                dataset.GetRasterBand(band + 1).SetNoDataValue(int(self.get_metadata().get_nodata_val()))
+            self._set_gdal_nodata_val(dataset.GetRasterBand(band + 1))
         return dataset
 
     def write_to_disk(self,
@@ -140,12 +139,19 @@ class GeotiffImage(AbstractEarthOverheadImage):
             self.set_image_data(self.read_all_image_data_from_disk())
         for band in range(self.get_metadata().get_n_bands()):
             dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
-            if self.get_metadata().get_nodata_val() is not None:
-                dataset.GetRasterBand(band + 1).SetNoDataValue(int(self.get_metadata().get_nodata_val()))
+            self._set_gdal_nodata_val(dataset.GetRasterBand(band + 1))
         dataset.FlushCache()
         dataset = None
         self._verify_written_file(fname)
 
+    def _set_gdal_nodata_val(self,
+                             gdal_band  # type: gdal.Band
+                             ):  # type: (...) -> None
+        nodata_val = self.get_metadata().get_nodata_val()
+        if nodata_val is not None:
+            # gdal wants whole numbers for some data types, anything else (fractions, nan, inf) has to stay a float
+            gdal_band.SetNoDataValue(int(nodata_val) if float(nodata_val).is_integer() else float(nodata_val))
+
     def _verify_written_file(self,
                              fname  # type: str
                              ):  # type: (...) -> None
-- 
2.43.0


From 4cc44ba7aa333b63724f298e550fb6d91edece6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 03/78] fix: write_to_disk also notices a lost georeference or
 nodata value

---
 .../image_objects/earth_overhead/geotiff/geotiff_image.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 13e0991..ae9024b 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -164,6 +164,10 @@ class GeotiffImage(AbstractEarthOverheadImage):
         dataset = gdal.Open(fname, gdal.GA_ReadOnly)
         if dataset is None:
             raise IOError("could not write " + fname)
+        point_calc = self.get_point_calculator()
+        if not np.allclose(dataset.GetGeoTransform(), point_calc.get_geot(), atol=0) or \
+                bool(dataset.GetProjection()) != bool(point_calc.get_gdal_projection_wkt()):
+            raise IOError("could not write the georeference of " + fname)
         for band_num in range(self.get_metadata().get_n_bands()):
             band = dataset.GetRasterBand(band_num + 1)
             expected = self.get_image_band(band_num)
@@ -175,6 +179,10 @@ class GeotiffImage(AbstractEarthOverheadImage):
             written = band.ReadAsArray()
             if written is None or not np.all((written == expected) | ((written != written) & (expected != expected))):
                 raise IOError("could not write band " + str(band_num) + " of " + fname)
+            nodata_val = self.get_metadata().get_nodata_val()
+            if nodata_val is not None and (band.GetNoDataValue() is None or not np.isclose(
+                    band.GetNoDataValue(), float(nodata_val), rtol=1e-6, atol=0, equal_nan=True)):
+                raise IOError("could not write the nodata value of " + fname)
 
     @staticmethod
     def gdalwarp_geotiff_image(image,           # type: GeotiffImage
-- 
2.43.0


From 8c6ee81ee0a38fefe9e6a05d0c07038f7af554bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 04/78] fix: reading a GeoTIFF band raises instead of returning
 None when the disk fails

---
 .../image_objects/earth_overhead/geotiff/geotiff_image.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index ae9024b..9ddf28e 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -88,15 +88,17 @@ class GeotiffImage(AbstractEarthOverheadImage):
     def read_all_image_data_from_disk(self):  # type: (...) -> ndarray
         numpy_arr = []
         for bandnum in range(self.get_metadata().get_n_bands()):
-            band = self._dset.GetRasterBand(bandnum + 1)
-            numpy_arr.append(band.ReadAsArray())
+            numpy_arr.append(self.read_band_from_disk(bandnum))
         return np.stack(numpy_arr, axis=2)
 
     def read_band_from_disk(self,
                             band_number  # type: int
                             ):  # type: (...) -> ndarray
         band = self._dset.GetRasterBand(band_number + 1)
-        return band.ReadAsArray()
+        band_data = band.ReadAsArray()
+        if band_data is None:
+            raise IOError("could not read band " + str(band_number) + " from disk")
+        return band_data
 
     def get_gdal_mem_datset(self):  # type: (...) -> gdal.Dataset
         driver = gdal.GetDriverByName('MEM')
-- 
2.43.0


From ee0a3bb7b9263e3f5d64a47b7be248f0adb7d560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:30 +0000
Subject: [PATCH 05/78] fix: write and read bip and bsq ENVI images instead of
 zeros

---
 resippy/utils/envi_utils.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index a6260d9..537fb9a 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -182,7 +182,20 @@ def write_envi_header(header_dict,      # type: dict
             f.write("\n")
 
 
-# TODO: add more interleave formats, only BIP is currently supported
+# position of the (lines, samples, bands) axes of an image cube in each interleave
+ENVI_INTERLEAVE_AXES = {'bil': (0, 2, 1),
+                        'bip': (0, 1, 2),
+                        'bsq': (2, 0, 1)}
+
+
+def get_interleave_axes(interleave,     # type: str
+                        ):              # type: (...) -> tuple
+    axes = ENVI_INTERLEAVE_AXES.get(interleave.lower())
+    if axes is None:
+        raise ValueError("unknown ENVI interleave: " + interleave)
+    return axes
+
+
 def write_envi_image(image_cube,                    # type: np.ndarray
                      output_fname,                  # type: str
                      output_header_fname=None,      # type: str
@@ -191,14 +204,7 @@ def write_envi_image(image_cube,                    # type: np.ndarray
     if output_header_fname is None:
         output_header_fname = output_fname + ".hdr"
     ny, nx, nbands = image_cube.shape
-    raw_data = np.zeros(ny*nx*nbands, dtype=image_cube.dtype)
-    if interleave == 'bil':
-        raw_data_counter = 0
-        for l in range(ny):
-            for b in range(nbands):
-                data_chunk = image_cube[l, :, b]
-                raw_data[raw_data_counter:raw_data_counter+nx] = data_chunk
-                raw_data_counter = raw_data_counter+nx
+    raw_data = np.ascontiguousarray(image_cube.transpose(get_interleave_axes(interleave)))
     raw_data.tofile(output_fname)
 
     envi_dtype = numpy_dtype_to_envi_dtype(image_cube.dtype)
@@ -248,12 +254,7 @@ def construct_image_cube_from_raw_data(raw_envi_data,       # type: np.ndarray
                                        nbands,              # type: int
                                        interleave,          # type: str
                                        ):                   # type: (...) -> np.ndarray
-    image_cube = np.zeros((ny, nx, nbands), dtype=raw_envi_data.dtype)
-    if interleave == 'bil':
-        raw_data_counter = 0
-        for l in range(ny):
-            for b in range(nbands):
-                data_chunk = raw_envi_data[raw_data_counter:raw_data_counter+nx]
-                image_cube[l, :, b] = data_chunk
-                raw_data_counter = raw_data_counter+nx
-    return image_cube
+    cube_shape = (ny, nx, nbands)
+    axes = get_interleave_axes(interleave)
+    raw_cube = raw_envi_data[0:nx*ny*nbands].reshape([cube_shape[axis] for axis in axes])
+    return np.ascontiguousarray(raw_cube.transpose(np.argsort(axes)))
-- 
2.43.0


From 27c5018191f467fbf411a4f2a7a0f85312bf2276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:30 +0000
Subject: [PATCH 06/78] fix: use ENVI's own data type codes for complex images

---
 resippy/utils/envi_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 537fb9a..9c765e2 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -8,10 +8,10 @@ ENVI_DTYPES_TO_NUMPY = {"1": np.uint8,
                         "3": np.int32,
                         "4": np.float32,
                         "5": np.float64,
-                        "6": None,
+                        "6": np.complex64,
                         "7": None,
                         "8": None,
-                        "9": np.complex64,
+                        "9": np.complex128,
                         "10": None,
                         "11": None,
                         "12": np.uint16,
-- 
2.43.0


From 5ecd4e8431848eb775c95e4d28c221b7274a278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:30 +0000
Subject: [PATCH 07/78] fix: write_envi_image raises when the disk refuses the
 data

---
 resippy/utils/envi_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 9c765e2..8741c12 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -205,7 +205,9 @@ def write_envi_image(image_cube,                    # type: np.ndarray
         output_header_fname = output_fname + ".hdr"
     ny, nx, nbands = image_cube.shape
     raw_data = np.ascontiguousarray(image_cube.transpose(get_interleave_axes(interleave)))
-    raw_data.tofile(output_fname)
+    # not ndarray.tofile(), which does not report errors that occur when its buffer is emptied at the end
+    with open(output_fname, 'wb') as f:
+        f.write(raw_data.data)
 
     envi_dtype = numpy_dtype_to_envi_dtype(image_cube.dtype)
 
-- 
2.43.0


From b9262629d371de6a09093e35f4d1964ed747d687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:30 +0000
Subject: [PATCH 08/78] fix: read_envi_image honours header offset and byte
 order

---
 resippy/utils/envi_utils.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 8741c12..64e61cb 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -237,17 +237,22 @@ def read_envi_image(image_file,             # type: str
     nbands = int(envi_header['bands'])
     envi_dtype = envi_header['data type']
     interleave = envi_header['interleave']
-    envi_image_data = read_all_image_data_to_numpy_array(image_file, envi_dtype)
+    envi_image_data = read_all_image_data_to_numpy_array(image_file, envi_dtype,
+                                                         header_offset=envi_header.get('header offset', 0),
+                                                         byte_order=envi_header.get('byte order', 0))
     image_cube = construct_image_cube_from_raw_data(envi_image_data, nx, ny, nbands, interleave)
     return image_cube
 
 
 def read_all_image_data_to_numpy_array(envi_image_path,     # type: str
                                        envi_dtype,          # type: int
+                                       header_offset=0,     # type: int
+                                       byte_order=0,        # type: int
                                        ):                   # type: (...) -> np.ndarray
-    numpy_dtype = envi_dtype_to_numpy_dtype(envi_dtype)
-    numpy_data = np.fromfile(envi_image_path, numpy_dtype)
-    return numpy_data
+    numpy_dtype = np.dtype(envi_dtype_to_numpy_dtype(envi_dtype))
+    stored_dtype = numpy_dtype.newbyteorder('>' if byte_order == 1 else '<')
+    numpy_data = np.fromfile(envi_image_path, stored_dtype, offset=header_offset)
+    return numpy_data.astype(numpy_dtype, copy=False)
 
 
 def construct_image_cube_from_raw_data(raw_envi_data,       # type: np.ndarray
-- 
2.43.0


From 36ed12b64bdee4c0a50b85e22c893e755f865dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 09/78] fix: read_envi_image raises when the disk fails instead
 of returning garbage

---
 resippy/utils/envi_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 64e61cb..9ab5dfd 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -251,8 +251,12 @@ def read_all_image_data_to_numpy_array(envi_image_path,     # type: str
                                        ):                   # type: (...) -> np.ndarray
     numpy_dtype = np.dtype(envi_dtype_to_numpy_dtype(envi_dtype))
     stored_dtype = numpy_dtype.newbyteorder('>' if byte_order == 1 else '<')
-    numpy_data = np.fromfile(envi_image_path, stored_dtype, offset=header_offset)
-    return numpy_data.astype(numpy_dtype, copy=False)
+    # not np.fromfile(), which returns uninitialized memory if the disk fails to deliver the data
+    with open(envi_image_path, 'rb') as f:
+        f.seek(header_offset)
+        raw_bytes = f.read()
+    numpy_data = np.frombuffer(raw_bytes, stored_dtype, count=len(raw_bytes) // stored_dtype.itemsize)
+    return numpy_data.astype(numpy_dtype)
 
 
 def construct_image_cube_from_raw_data(raw_envi_data,       # type: np.ndarray
-- 
2.43.0


From b1f97e54f284d46812f1d6befdba6c0c0072244d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 10/78] fix: reading an ENVI band raises instead of returning
 None when the disk fails

---
 resippy/image_objects/envi/envi_image.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resippy/image_objects/envi/envi_image.py b/resippy/image_objects/envi/envi_image.py
index c492b0b..64f21e7 100644
--- a/resippy/image_objects/envi/envi_image.py
+++ b/resippy/image_objects/envi/envi_image.py
@@ -38,13 +38,15 @@ class EnviImage(AbstractImage):
                             band_number  # type: int
                             ):  # type: (...) -> ndarray
         band = self._dset.GetRasterBand(band_number + 1)
-        return band.ReadAsArray()
+        band_data = band.ReadAsArray()
+        if band_data is None:
+            raise IOError("could not read band " + str(band_number) + " from disk")
+        return band_data
 
     def read_all_image_data_from_disk(self):  # type: (...) -> ndarray
         numpy_arr = []
         for bandnum in range(self.get_metadata().get_n_bands()):
-            band = self._dset.GetRasterBand(bandnum + 1)
-            numpy_arr.append(band.ReadAsArray())
+            numpy_arr.append(self.read_band_from_disk(bandnum))
         return np.stack(numpy_arr, axis=2)
 
     def set_dset(self,
-- 
2.43.0


From a7c6dea99d132ffb3a22b76120b3892f02876150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:59 +0000
Subject: [PATCH 11/78] fix: EnviImage raises instead of inventing zeros for a
 file that was cut short

---
 resippy/image_objects/envi/envi_image.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/resippy/image_objects/envi/envi_image.py b/resippy/image_objects/envi/envi_image.py
index 64f21e7..7b76102 100644
--- a/resippy/image_objects/envi/envi_image.py
+++ b/resippy/image_objects/envi/envi_image.py
@@ -2,6 +2,7 @@ from __future__ import division
 
 from resippy.image_objects.abstract_image import AbstractImage
 from resippy.image_objects.envi.envi_metadata import EnviMetadata
+from resippy.utils import envi_utils
 
 import gdal
 from numpy import ndarray
@@ -13,6 +14,7 @@ class EnviImage(AbstractImage):
     def __init__(self):
         super(EnviImage, self).__init__()
         self._dset = None
+        self._image_file_path = None
 
     @classmethod
     def init_from_file(cls,
@@ -21,6 +23,9 @@ class EnviImage(AbstractImage):
                        ):  # type: (...) -> EnviImage
         envi_image = cls()
         envi_image.set_dset(gdal.Open(image_file_path, gdal.GA_ReadOnly))
+        if envi_image._dset is None:
+            raise IOError("could not open " + image_file_path)
+        envi_image._image_file_path = image_file_path
 
         # try to guess the header file name if one is not provided
         if header_file_path is None:
@@ -37,12 +42,26 @@ class EnviImage(AbstractImage):
     def read_band_from_disk(self,
                             band_number  # type: int
                             ):  # type: (...) -> ndarray
+        self._verify_file_is_complete()
         band = self._dset.GetRasterBand(band_number + 1)
         band_data = band.ReadAsArray()
         if band_data is None:
             raise IOError("could not read band " + str(band_number) + " from disk")
         return band_data
 
+    def _verify_file_is_complete(self):  # type: (...) -> None
+        """
+        gdal fills the part of an image that is missing from a file that was cut short with zeros, without reporting it
+        :return: None, raises an IOError if the file is too short to hold the image its header describes
+        """
+        header = self.get_metadata().envi_header
+        if self._image_file_path is None or int(header.get('file compression', 0)) != 0:
+            return
+        pixel_size = np.dtype(envi_utils.envi_dtype_to_numpy_dtype(header['data type'])).itemsize
+        n_pixels = header['samples'] * header['lines'] * header['bands']
+        if os.path.getsize(self._image_file_path) < header.get('header offset', 0) + n_pixels * pixel_size:
+            raise IOError(self._image_file_path + " does not hold all of the image its header describes")
+
     def read_all_image_data_from_disk(self):  # type: (...) -> ndarray
         numpy_arr = []
         for bandnum in range(self.get_metadata().get_n_bands()):
-- 
2.43.0


From 712dab43534c5786bd2a28d73c25d4e7bb231491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:42 +0000
Subject: [PATCH 12/78] fix: PhysicalCameraImage reads bands of file based
 images, and raises when the disk fails

---
 .../physical_camera/physical_camera_image.py  | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/physical_camera/physical_camera_image.py b/resippy/image_objects/earth_overhead/physical_camera/physical_camera_image.py
index faa9a06..e35da69 100644
--- a/resippy/image_objects/earth_overhead/physical_camera/physical_camera_image.py
+++ b/resippy/image_objects/earth_overhead/physical_camera/physical_camera_image.py
@@ -18,20 +18,25 @@ class PhysicalCameraImage(AbstractEarthOverheadImage):
         numpy_arr = []
         if self.read_with_gdal:
             for bandnum in range(self.get_metadata().get_n_bands()):
-                band = self._dset.GetRasterBand(bandnum + 1)
-                numpy_arr.append(band.ReadAsArray())
+                numpy_arr.append(self._read_band_with_gdal(bandnum))
         return np.stack(numpy_arr, axis=2)
 
     def read_band_from_disk(self,
                             band_number     # type: int
                             ):              # type: (...) -> ndarray
-        image_data = self.get_image_band(band_number)
-        if image_data is not None:
-            return image_data
+        if self.get_image_data() is not None:
+            return self.get_image_band(band_number)
         else:
-            if self.read_with_gdal:
-                band = self._dset.GetRasterBand(band_number + 1)
-            return band.ReadAsArray()
+            return self._read_band_with_gdal(band_number)
+
+    def _read_band_with_gdal(self,
+                             band_number    # type: int
+                             ):             # type: (...) -> ndarray
+        band = self._dset.GetRasterBand(band_number + 1)
+        band_data = band.ReadAsArray()
+        if band_data is None:
+            raise IOError("could not read band " + str(band_number) + " from disk")
+        return band_data
 
     def set_gdal_dset(self,
                       dset  # type: gdal.Dataset
-- 
2.43.0


From 24f3ad3dd2481068140c4df079936481c7491792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:42 +0000
Subject: [PATCH 13/78] fix: reading a ViewReadyStereo band raises instead of
 returning None when the disk fails

---
 .../view_ready_stereo/view_ready_stereo_image.py          | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/digital_globe/view_ready_stereo/view_ready_stereo_image.py b/resippy/image_objects/earth_overhead/digital_globe/view_ready_stereo/view_ready_stereo_image.py
index 99833d4..3fe771f 100644
--- a/resippy/image_objects/earth_overhead/digital_globe/view_ready_stereo/view_ready_stereo_image.py
+++ b/resippy/image_objects/earth_overhead/digital_globe/view_ready_stereo/view_ready_stereo_image.py
@@ -48,12 +48,14 @@ class ViewReadyStereoImage(AbstractEarthOverheadImage):
     def read_all_image_data_from_disk(self):  # type: (...) -> ndarray
         numpy_arr = []
         for bandnum in range(self.get_metadata().get_n_bands()):
-            band = self._dset.GetRasterBand(bandnum + 1)
-            numpy_arr.append(band.ReadAsArray())
+            numpy_arr.append(self.read_band_from_disk(bandnum))
         return np.stack(numpy_arr, axis=2)
 
     def read_band_from_disk(self,
                             band_number  # type: int
                             ):  # type: (...) -> ndarray
         band = self._dset.GetRasterBand(band_number + 1)
-        return band.ReadAsArray()
+        band_data = band.ReadAsArray()
+        if band_data is None:
+            raise IOError("could not read band " + str(band_number) + " from disk")
+        return band_data
-- 
2.43.0


From a86ea1ea09b2f6e91f4c7ba8c3cbb95c795421c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:53 +0000
Subject: [PATCH 14/78] fix: the 19th RPC term is latitude^2 * height

---
 .../earth_overhead_point_calculators/rpc_point_calc.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
index 0f27d9d..83bf413 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
@@ -182,7 +182,7 @@ class RPCPointCalc(AbstractEarthOverheadPointCalc):
 
         p = a1 + a2*y + a3*x + a4*z + a5*xy + a6*yz + a7*xz + a8 * y_squared + \
             a9*x_squared + a10*z_squared + a11*x*y*z + a12*y_cubed + a13*y*x_squared + a14*y*z_squared + \
-            a15*y_squared*x + a16*x_cubed + a17*x*z_squared + a18*y_squared*z + a19*x_squared*y + a20*z_cubed
+            a15*y_squared*x + a16*x_cubed + a17*x*z_squared + a18*y_squared*z + a19*x_squared*z + a20*z_cubed
         return p
 
     def _lon_lat_alt_to_pixel_x_y_native(self,
-- 
2.43.0


From 5f2272f0b44d5f1a58eda3969444ad0280637186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:40 +0000
Subject: [PATCH 15/78] fix: MicasenseImage raises instead of returning an
 empty band for a file that was cut short

---
 .../earth_overhead/micasense/micasense_image.py           | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/micasense/micasense_image.py b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
index b3ae344..4d1b970 100644
--- a/resippy/image_objects/earth_overhead/micasense/micasense_image.py
+++ b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
@@ -16,7 +16,7 @@ class MicasenseImage(AbstractEarthOverheadImage):
         self.band_fnames = []
 
     def read_all_image_data_from_disk(self):  # type: (...) -> ndarray
-        imgs = [imread(fname) for fname in self.band_fnames]
+        imgs = [self.read_band_from_disk(band_number) for band_number in range(len(self.band_fnames))]
         all_image_data = np.dstack(imgs)
 
         return all_image_data
@@ -24,7 +24,11 @@ class MicasenseImage(AbstractEarthOverheadImage):
     def read_band_from_disk(self,
                             band_number     # type: int
                             ):              # type: (...) -> ndarray
-        return imread(self.band_fnames[band_number])
+        band_data = imread(self.band_fnames[band_number])
+        if band_data.size == 0:
+            # what the tiff reader makes of a file that was cut short
+            raise IOError("could not read " + self.band_fnames[band_number])
+        return band_data
 
     def get_gps_timestamp_and_center(self,
                                      band_number    # type: int
-- 
2.43.0


From 4912959715d2f561f80117a1741783f66b5bd2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 16/78] fix: a damaged line in an Applanix EO file no longer
 shifts the records that follow it

---
 resippy/photogrammetry/nav/applanix_eo_nav.py | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/resippy/photogrammetry/nav/applanix_eo_nav.py b/resippy/photogrammetry/nav/applanix_eo_nav.py
index 0d0c715..a5706e2 100644
--- a/resippy/photogrammetry/nav/applanix_eo_nav.py
+++ b/resippy/photogrammetry/nav/applanix_eo_nav.py
@@ -26,18 +26,21 @@ class ApplanixEONav(AbstractNav):
             for line in f:
                 line_parts = line.split()
 
+                # a line is only used if all of it can be, otherwise the fields of later records would not line up
                 try:
-                    gps_time.append(float(line_parts[1]))
-                    easting.append(float(line_parts[2]))
-                    northing.append(float(line_parts[3]))
-                    height.append(float(line_parts[4]))
-                    omega.append(float(line_parts[5]))
-                    phi.append(float(line_parts[6]))
-                    kappa.append(float(line_parts[7]))
-                    lat.append(float(line_parts[8]))
-                    lon.append(float(line_parts[9]))
+                    record = [float(line_parts[i]) for i in range(1, 10)]
                 except (IndexError, ValueError):
-                    pass
+                    continue
+
+                gps_time.append(record[0])
+                easting.append(record[1])
+                northing.append(record[2])
+                height.append(record[3])
+                omega.append(record[4])
+                phi.append(record[5])
+                kappa.append(record[6])
+                lat.append(record[7])
+                lon.append(record[8])
 
         self._nav_data = {
             'gps_time': np.array(gps_time),
-- 
2.43.0


From f2540b3092cc4c6b920f319437ec7e890d059def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 17/78] fix: UsgsAsciiSpectralFactory raises when a file of the
 library is cut short

---
 .../usgs/ascii/usgs_ascii_spectral_factory.py                   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py b/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py
index 2a92ea8..3349595 100644
--- a/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py
+++ b/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py
@@ -26,6 +26,8 @@ class UsgsAsciiSpectralFactory:
             content = f.readlines()
         content = [x.strip() for x in content][1:]
         reflectance = np.array([float(x) for x in content])
+        if not len(wavelengths) == len(fwhm) == len(reflectance):
+            raise ValueError("number of values differs between " + ", ".join([filename, wavelengths_fname, fwhm_fname]))
         spectrum = Spectrum()
         spectrum.set_wavelength_units(WAVELENGTH_UNITS)
         spectrum.set_wavelengths(wavelengths)
-- 
2.43.0


From 927e1d27ac89aff105782450473c4adf84b5476a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 18/78] fix: read the last line of a Pix4D internal camera
 parameters file

---
 .../earth_overhead_point_calculators/pix4d_point_calc.py        | 2 +-
 resippy/utils/pix4d_utils.py                                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
index adc58ea..bf46845 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
@@ -201,7 +201,7 @@ class Pix4dPointCalc(AbstractEarthOverheadPointCalc):
                 new_camera_param_start_locations.append(i)
 
         new_camera_param_end_locations = new_camera_param_start_locations[1:]
-        new_camera_param_end_locations.append(i)
+        new_camera_param_end_locations.append(len(lines))
 
         camera_params_list = []
 
diff --git a/resippy/utils/pix4d_utils.py b/resippy/utils/pix4d_utils.py
index 90acab2..ea57875 100644
--- a/resippy/utils/pix4d_utils.py
+++ b/resippy/utils/pix4d_utils.py
@@ -235,7 +235,7 @@ def read_pix4d_calibrated_internal_camera_parameters(internal_params_cam_file,
             new_camera_param_start_locations.append(i)
 
     new_camera_param_end_locations = new_camera_param_start_locations[1:]
-    new_camera_param_end_locations.append(i)
+    new_camera_param_end_locations.append(len(lines))
 
     camera_params_list = []
 
-- 
2.43.0


From 26bdc7c3dbddcf38a1c748ab1a120d7bed365a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 19/78] fix: Pix4dPointCalc uses the third radial distortion
 parameter

---
 .../earth_overhead_point_calculators/pix4d_point_calc.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
index bf46845..75bec1c 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
@@ -100,7 +100,7 @@ class Pix4dPointCalc(AbstractEarthOverheadPointCalc):
         point_calc.tangential_distortion_2 = all_params[image_key_basename]['tangential_distortion'][1]
         point_calc.radial_distortion_1 = all_params[image_key_basename]['radial_distortion'][0]
         point_calc.radial_distortion_2 = all_params[image_key_basename]['radial_distortion'][1]
-        point_calc.radial_distortion_3 = all_params[image_key_basename]['radial_distortion'][1]
+        point_calc.radial_distortion_3 = all_params[image_key_basename]['radial_distortion'][2]
         point_calc.distortion_model = distortion_model
 
         approximate_lon = all_params[image_key_basename]['external_params'][0]
-- 
2.43.0


From b97de79bceeed29d50333c17bfd19a1c9f03f367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 20/78] fix: read_calibrated_camera_parameters raises when the
 file is cut short

---
 resippy/utils/pix4d_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/utils/pix4d_utils.py b/resippy/utils/pix4d_utils.py
index ea57875..d4ffe8d 100644
--- a/resippy/utils/pix4d_utils.py
+++ b/resippy/utils/pix4d_utils.py
@@ -46,6 +46,8 @@ def read_calibrated_camera_parameters(calibrated_params_file    # type: str
     params = cleaned_up_lines[8:]
     per_file_params = [params[x:x + 10] for x in range(0, len(params), 10)]
     for file_params in per_file_params:
+        if len(file_params) != 10:
+            raise ValueError("incomplete camera parameters at the end of " + calibrated_params_file)
         fname, image_w, image_h = file_params[0].split(" ")
         tmp_list = np.array(file_params[1:4])
         camera_matrix_k = np.array([list(map(float, row.split())) for row in tmp_list])
-- 
2.43.0


From 09cbfd00a4bdbd85aad2f07999a192f8789a0357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 21/78] fix: make_dir_if_not_exists does not fail when somebody
 else creates the directory first

---
 resippy/utils/file_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/file_utils.py b/resippy/utils/file_utils.py
index 591d780..c53cf5e 100644
--- a/resippy/utils/file_utils.py
+++ b/resippy/utils/file_utils.py
@@ -8,7 +8,11 @@ import resippy.utils.string_utils as string_utils
 def make_dir_if_not_exists(dir_to_create    # type: str
                            ):               # type: (...) -> None
     if not os.path.exists(dir_to_create):
-        os.makedirs(dir_to_create)
+        try:
+            os.makedirs(dir_to_create)
+        except FileExistsError:
+            # somebody else created it in the meantime
+            pass
 
 
 def get_all_folders_in_dir(directory        # type: str
-- 
2.43.0


From cda1b9788556d71aae78fda7a1c919e7f3908309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 22/78] fix: write_text_list_to_file accepts an empty list

---
 resippy/utils/file_utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/resippy/utils/file_utils.py b/resippy/utils/file_utils.py
index c53cf5e..257adfa 100644
--- a/resippy/utils/file_utils.py
+++ b/resippy/utils/file_utils.py
@@ -81,10 +81,8 @@ def get_path_from_subdirs(base_dir,     # type: str
 def write_text_list_to_file(text_list,  # type: list
                             output_fname,  # type: str
                             ):              # type: (...) -> None
-    text_list_with_newlines = [entry + '\n' for entry in text_list]
-    text_list_with_newlines[-1] = text_list[-1]
     with open(output_fname, 'w') as f:
-        f.writelines(text_list_with_newlines)
+        f.write('\n'.join(text_list))
 
 
 def read_text_list_from_file(text_file_fname,   # type: str
-- 
2.43.0


From d905fed19bd885d282a6bfebb8ee2d83bbd4f170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 23/78] fix: find files in directories whose names contain glob
 characters

---
 .../usgs/ascii/usgs_ascii_spectral_factory.py                 | 4 ++--
 resippy/utils/file_utils.py                                   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py b/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py
index 3349595..2ba08d8 100644
--- a/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py
+++ b/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py
@@ -41,7 +41,7 @@ class UsgsAsciiSpectralFactory:
     @staticmethod
     def get_fwhm_fname(base_dir     # type: str
                        ):           # type: (...) -> str
-        txt_files = glob.glob(base_dir + "/*.txt")
+        txt_files = glob.glob(glob.escape(base_dir) + "/*.txt")
         for txt_file in txt_files:
             basename_lower = str.lower(os.path.basename(txt_file))
             if "resolution" in basename_lower or \
@@ -51,7 +51,7 @@ class UsgsAsciiSpectralFactory:
     @staticmethod
     def get_wavelengths_fname(base_dir     # type: str
                               ):           # type: (...) -> str
-        txt_files = glob.glob(base_dir + "/*.txt")
+        txt_files = glob.glob(glob.escape(base_dir) + "/*.txt")
         for txt_file in txt_files:
             basename_lower = str.lower(os.path.basename(txt_file))
             if "wavelength" in basename_lower or \
diff --git a/resippy/utils/file_utils.py b/resippy/utils/file_utils.py
index 257adfa..21aacc6 100644
--- a/resippy/utils/file_utils.py
+++ b/resippy/utils/file_utils.py
@@ -37,7 +37,7 @@ def get_all_files_in_dir(directory,                     # type: str
 
     files = []
     for extension in sanitized_extensions:
-        fnames = glob.glob(directory + os.path.sep + "*." + extension)
+        fnames = glob.glob(glob.escape(directory) + os.path.sep + "*." + extension)
         files = files + fnames
     if return_fullpaths:
         return files
-- 
2.43.0


From 6c2c59cb6c93ecd9bd1f619b3f1ccb4aaef2f536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 24/78] fix: do not use np.int, which numpy has removed

---
 .../abstract_earth_overhead_point_calc.py                     | 2 +-
 resippy/photogrammetry/ortho_tools.py                         | 4 ++--
 resippy/utils/image_utils/image_chipper.py                    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 0266a9b..4314d49 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -362,7 +362,7 @@ class AbstractEarthOverheadPointCalc:
         all_elevations = dem.get_elevations(np.array(lons_matrix), np.array(lats_matrix), world_proj=self.get_projection())
 
         ray = np.linspace(max_alt, min_alt, n_steps_per_ray)
-        first_ray_intersect_indices = np.zeros(n_pixels_to_project, dtype=np.int)
+        first_ray_intersect_indices = np.zeros(n_pixels_to_project, dtype=int)
         ray_step_indices = list(range(n_steps_per_ray))
         ray_step_indices.reverse()
         for i in ray_step_indices:
diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 6c5443b..aec6287 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -34,12 +34,12 @@ def get_pixel_values(image_object,  # type: AbstractEarthOverheadImage
                      ):  # type: (...) -> ndarray
 
     nodata = image_object.get_metadata().get_nodata_val()
-    wh = np.round(window/2.0).astype(np.int)
+    wh = np.round(window/2.0).astype(int)
     pix_vals = []
     for band in range(image_object.get_metadata().get_n_bands()):
         img = image_object.read_band_from_disk(band)
         x, y = image_object.get_point_calculator().lon_lat_alt_to_pixel_x_y(lons, lats, alts, band=band)
-        locs = zip(np.round(x).astype(np.int), np.round(y).astype(np.int))
+        locs = zip(np.round(x).astype(int), np.round(y).astype(int))
         vals = []
         for item in locs:
             try:
diff --git a/resippy/utils/image_utils/image_chipper.py b/resippy/utils/image_utils/image_chipper.py
index afe9b84..90e6407 100644
--- a/resippy/utils/image_utils/image_chipper.py
+++ b/resippy/utils/image_utils/image_chipper.py
@@ -86,7 +86,7 @@ def chip_images_by_pixel_upper_lefts(input_image,                   # type: ndar
     n_chips = len(pixel_y_ul_list)
 
     if bands is None:
-        bands = np.arange(0, nbands).astype(np.int)
+        bands = np.arange(0, nbands).astype(int)
     else:
         nbands = len(bands)
 
-- 
2.43.0


From db6ba782e9528a7f56f3ae0c4b93dfa0a12f83d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 25/78] fix: write_chips_to_disk writes grayscale chips

---
 resippy/utils/image_utils/image_chipper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_chipper.py b/resippy/utils/image_utils/image_chipper.py
index 90e6407..362e0f4 100644
--- a/resippy/utils/image_utils/image_chipper.py
+++ b/resippy/utils/image_utils/image_chipper.py
@@ -146,10 +146,10 @@ def write_chips_to_disk(image_chips,            # type: ndarray
         base_chip_fname = os.path.basename(output_dir)
     n_chips = get_nchips(image_chips)
     for i in range(n_chips):
-        chip = image_chips[i, :, :, :]
+        chip = image_chips[i]
         if output_chip_ny is not None:
             chip = image_utils.resize_image(chip, output_chip_ny, output_chip_nx)
-        if remove_alpha is True and chip.shape[-1] == 4:
+        if remove_alpha is True and chip.ndim == 3 and chip.shape[-1] == 4:
             chip = chip[:, :, 0:3]
         chip_fname = base_chip_fname + "_" + str(i).zfill(8)
         if fnames_list is not None:
-- 
2.43.0


From 913582b6e31e4787e264c18660e6c882b826e4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:21 +0000
Subject: [PATCH 26/78] fix: a navigation file with a single record does not
 yield NaN

---
 resippy/photogrammetry/nav/applanix_eo_nav.py   | 6 +++++-
 resippy/photogrammetry/nav/applanix_sbet_nav.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/nav/applanix_eo_nav.py b/resippy/photogrammetry/nav/applanix_eo_nav.py
index a5706e2..8574090 100644
--- a/resippy/photogrammetry/nav/applanix_eo_nav.py
+++ b/resippy/photogrammetry/nav/applanix_eo_nav.py
@@ -75,7 +75,11 @@ class ApplanixEONav(AbstractNav):
                        xs,  # type: np.ndarray
                        ys   # type: np.ndarray
                        ):   # type: (...) -> np.ndarray
-        return (ys[0, :]*(xs[1, :] - x) + ys[1, :]*(x - xs[0, :])) / (xs[1, :] - xs[0, :])
+        dx = xs[1, :] - xs[0, :]
+        # there is nothing to interpolate if there is only one record
+        single = dx == 0
+        return np.where(single, ys[0, :],
+                        (ys[0, :]*(xs[1, :] - x) + ys[1, :]*(x - xs[0, :])) / np.where(single, 1, dx))
 
     def _get_indexes(self,
                      gps_times  # type: np.ndarray
diff --git a/resippy/photogrammetry/nav/applanix_sbet_nav.py b/resippy/photogrammetry/nav/applanix_sbet_nav.py
index 6af2ff2..2502c47 100644
--- a/resippy/photogrammetry/nav/applanix_sbet_nav.py
+++ b/resippy/photogrammetry/nav/applanix_sbet_nav.py
@@ -55,7 +55,11 @@ class ApplanixSBETNav(AbstractNav):
                        xs,  # type: np.ndarray
                        ys   # type: np.ndarray
                        ):   # type: (...) -> np.ndarray
-        return (ys[0, :]*(xs[1, :] - x) + ys[1, :]*(x - xs[0, :])) / (xs[1, :] - xs[0, :])
+        dx = xs[1, :] - xs[0, :]
+        # there is nothing to interpolate if there is only one record
+        single = dx == 0
+        return np.where(single, ys[0, :],
+                        (ys[0, :]*(xs[1, :] - x) + ys[1, :]*(x - xs[0, :])) / np.where(single, 1, dx))
 
     def _get_indexes(self,
                      gps_times  # type: np.ndarray
-- 
2.43.0


From cbf425c7e4055df8e48c41669accd6442f0f2c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 27/78] fix: pass the UTM zone number, not '18T', to PROJ

---
 resippy/utils/proj_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/utils/proj_utils.py b/resippy/utils/proj_utils.py
index f1d1bb2..e6d5faa 100644
--- a/resippy/utils/proj_utils.py
+++ b/resippy/utils/proj_utils.py
@@ -29,8 +29,8 @@ def decimal_degrees_to_local_utm_proj(lon_decimal_degrees,      # type: float
                                       lat_decimal_degrees,      # type: float
                                       ):                        # type: (...) -> Proj
     zone_info = utm.from_latlon(lat_decimal_degrees, lon_decimal_degrees)
-    zone_string = str(zone_info[2]) + zone_info[3]
-    zone_letter = zone_string[-1]
+    zone_number = zone_info[2]
+    zone_letter = zone_info[3]
     is_south_zone = zone_letter < 'N'
-    local_proj = Proj(proj='utm', ellps='WGS84', zone=zone_string, south=is_south_zone)
+    local_proj = Proj(proj='utm', ellps='WGS84', zone=zone_number, south=is_south_zone)
     return local_proj
-- 
2.43.0


From a68f7bbfad4524318fee91b66966a767cc876a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:42 +0000
Subject: [PATCH 28/78] fix: make_dir_if_not_exists does not return as if it
 had made a directory when a file has that name

---
 resippy/utils/file_utils.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/resippy/utils/file_utils.py b/resippy/utils/file_utils.py
index 21aacc6..acee2af 100644
--- a/resippy/utils/file_utils.py
+++ b/resippy/utils/file_utils.py
@@ -7,12 +7,7 @@ import resippy.utils.string_utils as string_utils
 
 def make_dir_if_not_exists(dir_to_create    # type: str
                            ):               # type: (...) -> None
-    if not os.path.exists(dir_to_create):
-        try:
-            os.makedirs(dir_to_create)
-        except FileExistsError:
-            # somebody else created it in the meantime
-            pass
+    os.makedirs(dir_to_create, exist_ok=True)
 
 
 def get_all_folders_in_dir(directory        # type: str
-- 
2.43.0


From 4070dca903c3663a92ffdc08a69553a096e205ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:42 +0000
Subject: [PATCH 29/78] fix: get_all_files_in_dir does not report a directory
 that can not be read as empty

---
 resippy/utils/file_utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/resippy/utils/file_utils.py b/resippy/utils/file_utils.py
index acee2af..ca752bf 100644
--- a/resippy/utils/file_utils.py
+++ b/resippy/utils/file_utils.py
@@ -1,7 +1,7 @@
 import os
 from functools import reduce
 from typing import Union
-import glob
+import fnmatch
 import resippy.utils.string_utils as string_utils
 
 
@@ -30,10 +30,15 @@ def get_all_files_in_dir(directory,                     # type: str
     else:
         raise TypeError("extensions should either be a string or list of strings")
 
+    # glob would report a directory that can not be read as an empty one
+    names = []
+    if os.path.isdir(directory):
+        names = [name for name in os.listdir(directory) if not name.startswith(".")]
+
     files = []
     for extension in sanitized_extensions:
-        fnames = glob.glob(glob.escape(directory) + os.path.sep + "*." + extension)
-        files = files + fnames
+        fnames = fnmatch.filter(names, "*." + extension)
+        files = files + [os.path.join(directory, fname) for fname in fnames]
     if return_fullpaths:
         return files
     else:
-- 
2.43.0


From 5b2122a68b4f34b5e2a2c32c7908649b944d52c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:03 +0000
Subject: [PATCH 30/78] fix: GPS/UTC conversion does not depend on the time
 zone of the machine

---
 resippy/utils/time_utils.py | 44 ++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/resippy/utils/time_utils.py b/resippy/utils/time_utils.py
index 167a7cc..f8786e4 100644
--- a/resippy/utils/time_utils.py
+++ b/resippy/utils/time_utils.py
@@ -1,33 +1,33 @@
-from datetime import datetime, timedelta
+from datetime import datetime, timedelta, timezone
 from bisect import bisect_right
 import math
 
 # table of UTC leap second insertions since 1980 (http://hpiers.obspm.fr/eop-pc/index.php?index=TAI-UTC_tab&lang=en)
 _LEAPSECONDS = [
-    (datetime(1980, 1, 1).timestamp(), timedelta(seconds=19)),
-    (datetime(1981, 7, 1).timestamp(), timedelta(seconds=20)),
-    (datetime(1982, 7, 1).timestamp(), timedelta(seconds=21)),
-    (datetime(1983, 7, 1).timestamp(), timedelta(seconds=22)),
-    (datetime(1985, 7, 1).timestamp(), timedelta(seconds=23)),
-    (datetime(1988, 1, 1).timestamp(), timedelta(seconds=24)),
-    (datetime(1990, 1, 1).timestamp(), timedelta(seconds=25)),
-    (datetime(1991, 1, 1).timestamp(), timedelta(seconds=26)),
-    (datetime(1992, 7, 1).timestamp(), timedelta(seconds=27)),
-    (datetime(1993, 7, 1).timestamp(), timedelta(seconds=28)),
-    (datetime(1994, 7, 1).timestamp(), timedelta(seconds=29)),
-    (datetime(1996, 1, 1).timestamp(), timedelta(seconds=30)),
-    (datetime(1997, 7, 1).timestamp(), timedelta(seconds=31)),
-    (datetime(1999, 1, 1).timestamp(), timedelta(seconds=32)),
-    (datetime(2006, 1, 1).timestamp(), timedelta(seconds=33)),
-    (datetime(2009, 1, 1).timestamp(), timedelta(seconds=34)),
-    (datetime(2012, 7, 1).timestamp(), timedelta(seconds=35)),
-    (datetime(2015, 7, 1).timestamp(), timedelta(seconds=36)),
-    (datetime(2017, 1, 1).timestamp(), timedelta(seconds=37))
+    (datetime(1980, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=19)),
+    (datetime(1981, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=20)),
+    (datetime(1982, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=21)),
+    (datetime(1983, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=22)),
+    (datetime(1985, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=23)),
+    (datetime(1988, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=24)),
+    (datetime(1990, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=25)),
+    (datetime(1991, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=26)),
+    (datetime(1992, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=27)),
+    (datetime(1993, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=28)),
+    (datetime(1994, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=29)),
+    (datetime(1996, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=30)),
+    (datetime(1997, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=31)),
+    (datetime(1999, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=32)),
+    (datetime(2006, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=33)),
+    (datetime(2009, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=34)),
+    (datetime(2012, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=35)),
+    (datetime(2015, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=36)),
+    (datetime(2017, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=37))
 ]
 
 # reference epoch for GPS and UTC time
-_GPS_EPOCH = datetime(1980, 1, 6)
-_UNIX_EPOCH = datetime(1970, 1, 1)
+_GPS_EPOCH = datetime(1980, 1, 6, tzinfo=timezone.utc)
+_UNIX_EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
 
 # other constants
 _SECONDS_IN_MINUTE = 60
-- 
2.43.0


From 623398d103bed225e95d42e21193ba1ef348bdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:44 +0000
Subject: [PATCH 31/78] fix: GPS to UTC conversion is right in the seconds
 before a leap second takes effect

---
 resippy/utils/time_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/time_utils.py b/resippy/utils/time_utils.py
index f8786e4..f1bba64 100644
--- a/resippy/utils/time_utils.py
+++ b/resippy/utils/time_utils.py
@@ -60,7 +60,10 @@ def utc_timestamp_to_gps_timestamp(utc_timestamp    # type: float
 def gps_timestamp_to_utc_timestamp(gps_timestamp    # type: float
                                    ):               # type: (...) -> float
     utc_timestamp_with_leap = gps_timestamp + (_GPS_EPOCH.timestamp() - _UNIX_EPOCH.timestamp())
-    return utc_timestamp_with_leap - _get_gps_leapsecond_offset(utc_timestamp_with_leap).total_seconds()
+    offset = _get_gps_leapsecond_offset(utc_timestamp_with_leap).total_seconds()
+    # the table is in UTC, so a leap second that lies less than the offset ahead must not be counted yet
+    offset = _get_gps_leapsecond_offset(utc_timestamp_with_leap - offset).total_seconds()
+    return utc_timestamp_with_leap - offset
 
 
 def utc_timestamp_to_gps_week_and_seconds(utc_timestamp     # type: float
-- 
2.43.0


From 1891824bbdcf3e233f4d37aebbee26ed8bf428f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:30 +0000
Subject: [PATCH 32/78] fix: write_chips_to_disk raises when the disk refuses a
 chip

---
 resippy/utils/image_utils/image_chipper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/image_utils/image_chipper.py b/resippy/utils/image_utils/image_chipper.py
index 362e0f4..603668e 100644
--- a/resippy/utils/image_utils/image_chipper.py
+++ b/resippy/utils/image_utils/image_chipper.py
@@ -156,7 +156,10 @@ def write_chips_to_disk(image_chips,            # type: ndarray
             chip_fname = fnames_list[i]
         chip_fname = chip_fname + "." + output_format.replace(".", "")
         chip_fullpath = os.path.join(output_dir, chip_fname)
-        imageio.imsave(chip_fullpath, chip)
+        # encoded in memory first: an image writer that writes an array straight to a file may not notice a full disk
+        encoded_chip = imageio.imsave(imageio.RETURN_BYTES, chip, format="." + output_format.replace(".", ""))
+        with open(chip_fullpath, 'wb') as f:
+            f.write(encoded_chip)
 
         per = round(float(i) / float(n_chips) * 100.0)
         if per % 5 == 0:
-- 
2.43.0


From c7dd9663734357f92a297955bcd4eb33d2f4277d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:17 +0000
Subject: [PATCH 33/78] fix: bilinear DEM elevations are weighted towards the
 closest pixels, and exact at pixels

---
 resippy/photogrammetry/dem/geotiff_dem.py | 25 +++++++++++------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 27f66a2..f00f413 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -102,6 +102,9 @@ class GeotiffDem(AbstractDem):
             elevations = self.dem_data[pixel_locs_y, pixel_locs_x]
         elif self.get_interpolation_method() is 'bilinear':
             # Do a bilinear interpolation between closest pixels by taking a weighted average
+            pixel_locs_x = np.clip(pixel_locs_x, a_min=0, a_max=self.gtiff.get_metadata().get_npix_x() - 1)
+            pixel_locs_y = np.clip(pixel_locs_y, a_min=0, a_max=self.gtiff.get_metadata().get_npix_y() - 1)
+
             pixel_locs_x_1 = np.clip(pixel_locs_x.astype(int), a_min=0, a_max=self.gtiff.get_metadata().get_npix_x() - 1)
             pixel_locs_y_1 = np.clip(pixel_locs_y.astype(int), a_min=0, a_max=self.gtiff.get_metadata().get_npix_y() - 1)
 
@@ -113,20 +116,16 @@ class GeotiffDem(AbstractDem):
             elevations_y2x1 = self.dem_data[pixel_locs_y_2, pixel_locs_x_1]
             elevations_y2x2 = self.dem_data[pixel_locs_y_2, pixel_locs_x_2]
 
-            x_distances_1 = pixel_locs_x - pixel_locs_x_1
-            x_distances_2 = pixel_locs_x_2 - pixel_locs_x
-            y_distances_1 = pixel_locs_y - pixel_locs_y_1
-            y_distances_2 = pixel_locs_y_2 - pixel_locs_y
-
-            distances_y1x1 = np.sqrt(np.square(y_distances_1) + np.square(x_distances_1))
-            distances_y1x2 = np.sqrt(np.square(y_distances_1) + np.square(x_distances_2))
-            distances_y2x1 = np.sqrt(np.square(y_distances_2) + np.square(x_distances_1))
-            distances_y2x2 = np.sqrt(np.square(y_distances_2) + np.square(x_distances_2))
-
-            elevations_arr = np.array((elevations_y1x1, elevations_y1x2, elevations_y2x1, elevations_y2x2))
-            weights_arr = np.array((distances_y1x1, distances_y1x2, distances_y2x1, distances_y2x2))
+            x_weights = pixel_locs_x - pixel_locs_x_1
+            y_weights = pixel_locs_y - pixel_locs_y_1
 
-            elevations = np.average(elevations_arr, weights=weights_arr, axis=0,)
+            # a pixel that has no weight must not have a say, even if its elevation is nan
+            elevations_y1 = np.where(x_weights == 0, elevations_y1x1,
+                                     elevations_y1x1 * (1 - x_weights) + elevations_y1x2 * x_weights)
+            elevations_y2 = np.where(x_weights == 0, elevations_y2x1,
+                                     elevations_y2x1 * (1 - x_weights) + elevations_y2x2 * x_weights)
+            elevations = np.where(y_weights == 0, elevations_y1,
+                                  elevations_y1 * (1 - y_weights) + elevations_y2 * y_weights)
 
         else:
             TypeError("interpolation must be set to either 'nearest' or 'bilinear' "
-- 
2.43.0


From 9526d195c00dff71753b0578b89a7b5d95cea0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:17 +0000
Subject: [PATCH 34/78] fix: GeotiffDem looks up its interpolation method once,
 and raises if it is unknown

---
 resippy/photogrammetry/dem/dem_factory.py |  2 +-
 resippy/photogrammetry/dem/geotiff_dem.py | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/resippy/photogrammetry/dem/dem_factory.py b/resippy/photogrammetry/dem/dem_factory.py
index eaf753c..49eec31 100644
--- a/resippy/photogrammetry/dem/dem_factory.py
+++ b/resippy/photogrammetry/dem/dem_factory.py
@@ -25,7 +25,7 @@ class DemFactory:
         elif interpolation_method == 'nearest':
             gtiff_dem.set_interpolation_to_nearest()
         else:
-            TypeError("interpolation method should either be 'bilinear' or 'nearest'")
+            raise TypeError("interpolation method should either be 'bilinear' or 'nearest'")
         return gtiff_dem
 
     @staticmethod
diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index f00f413..62c00f1 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -96,11 +96,13 @@ class GeotiffDem(AbstractDem):
             pixel_locs_y = np.array(pixel_locs_y)
 
         # TODO implement other interpoloation methods, right now we just grab the closest pixels
-        if self.get_interpolation_method() is 'nearest':
+        # looked up once, another thread may change it in between
+        interpolation_method = self.get_interpolation_method()
+        if interpolation_method == 'nearest':
             pixel_locs_x = np.clip(pixel_locs_x.astype(int), a_min=0, a_max=self.gtiff.get_metadata().get_npix_x()-1)
             pixel_locs_y = np.clip(pixel_locs_y.astype(int), a_min=0, a_max=self.gtiff.get_metadata().get_npix_y()-1)
             elevations = self.dem_data[pixel_locs_y, pixel_locs_x]
-        elif self.get_interpolation_method() is 'bilinear':
+        elif interpolation_method == 'bilinear':
             # Do a bilinear interpolation between closest pixels by taking a weighted average
             pixel_locs_x = np.clip(pixel_locs_x, a_min=0, a_max=self.gtiff.get_metadata().get_npix_x() - 1)
             pixel_locs_y = np.clip(pixel_locs_y, a_min=0, a_max=self.gtiff.get_metadata().get_npix_y() - 1)
@@ -128,8 +130,8 @@ class GeotiffDem(AbstractDem):
                                   elevations_y1 * (1 - y_weights) + elevations_y2 * y_weights)
 
         else:
-            TypeError("interpolation must be set to either 'nearest' or 'bilinear' "
-                      "when getting elevations from a GeoTiff DEM")
+            raise TypeError("interpolation must be set to either 'nearest' or 'bilinear' "
+                            "when getting elevations from a GeoTiff DEM")
 
         # unflatten world_xyz arrays if the original inputs were 2d
         if world_xyz_is_2d:
-- 
2.43.0


From 114cef688320296934f770c98b44d1228997c8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:17 +0000
Subject: [PATCH 35/78] fix: DEMs of whole numbers can have nodata values

---
 resippy/photogrammetry/dem/geotiff_dem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 62c00f1..87b71c4 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -64,6 +64,9 @@ class GeotiffDem(AbstractDem):
         self.nodata_value = nodata_value
         if self.nodata_value is not None:
             if self.dem_data is not None:
+                if not np.issubdtype(self.dem_data.dtype, np.floating):
+                    # whole numbers have no nan
+                    self.dem_data = self.dem_data.astype(float)
                 self.dem_data[np.where(self.dem_data == nodata_value)] = np.nan
 
     def set_geotiff_image(self,
-- 
2.43.0


From 789406a0cda59a51d62b7e3682825e50389f20f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:36 +0000
Subject: [PATCH 36/78] fix: rays can be cast onto a flat DEM

---
 .../abstract_earth_overhead_point_calc.py              | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 4314d49..85e6517 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -337,8 +337,12 @@ class AbstractEarthOverheadPointCalc:
         alt_range = max_alt - min_alt
 
         # put the max and min alts at 1 percent above and below the maximum returned by the DEM
-        max_alt = max_alt + alt_range * 0.01
-        min_alt = min_alt - alt_range * 0.01
+        # a flat DEM has no range, the rays still need to start above it and end below it
+        margin = alt_range * 0.01
+        if margin == 0:
+            margin = 1.0
+        max_alt = max_alt + margin
+        min_alt = min_alt - margin
 
         lons_max_alt, lats_max_alt = self.pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, max_alt, band=band)
         lons_min_alt, lats_min_alt = self.pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, min_alt, band=band)
@@ -349,7 +353,7 @@ class AbstractEarthOverheadPointCalc:
 
         ray_horizontal_lens = np.sqrt(
             np.square(lons_max_alt - lons_min_alt) + np.square(lats_max_alt - lats_min_alt))
-        n_steps_per_ray = int(np.ceil(np.max(ray_horizontal_lens) / dem_sample_distance) + 1)
+        n_steps_per_ray = max(int(np.ceil(np.max(ray_horizontal_lens) / dem_sample_distance) + 1), 2)
 
         lons_matrix = np.zeros((n_pixels_to_project, n_steps_per_ray)) + np.linspace(0, 1, n_steps_per_ray)
         lats_matrix = np.zeros((n_pixels_to_project, n_steps_per_ray)) + np.linspace(0, 1, n_steps_per_ray)
-- 
2.43.0


From 1a4987a8669b678e776bfb0ed24d9df7cb43a528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:36 +0000
Subject: [PATCH 37/78] fix: IGMPointCalc keeps an altitude given as a number

---
 .../earth_overhead_point_calculators/igm_point_calc.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
index d5c7729..1ad7dd1 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
@@ -22,7 +22,7 @@ class IGMPointCalc(AbstractEarthOverheadPointCalc):
         self._npix_y, self._npix_x = lon_array.shape
         self.set_projection(projection)
         if isinstance(alt_array, numbers.Number):
-            self._alts = numpy.zeros_like(lon_array)
+            self._alts = numpy.zeros(lon_array.shape) + alt_array
         else:
             self._alts = alt_array
         self._bands_coregistered = True
-- 
2.43.0


From e22021a981c9bcc858e18956c901f5e2a92201c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:10 +0000
Subject: [PATCH 38/78] fix: the step of the iterative pixel location is one
 pixel, not two degrees, where far away points overflow

---
 .../abstract_earth_overhead_point_calc.py     | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 85e6517..36e0f2d 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -240,20 +240,18 @@ class AbstractEarthOverheadPointCalc:
             machine_pixels_lat_x_diff = machine_lat_pixels_x - machine_pixel_lon_lat[0]
             machine_pixels_lat_y_diff = machine_lat_pixels_y - machine_pixel_lon_lat[1]
 
-            # find the first index where a shift in longitude is greater than 1 pixel
-            # TODO: this is broken in some cases.  fix and add unit tests.
-            if np.isnan(machine_pixels_lon_x_diff).max() and np.isnan(machine_pixels_lon_x_diff).max():
+            # find the first shifts in longitude and latitude that move a point by more than 1 pixel.  The largest shifts
+            # can overflow in the point calculator, they are NaN and never picked.
+            lon_gt1_pixel_indices = np.where(np.square(machine_pixels_lon_x_diff) +
+                                             np.square(machine_pixels_lon_y_diff) > np.square(d_pixel))[0]
+            lat_gt1_pixel_indices = np.where(np.square(machine_pixels_lat_x_diff) +
+                                             np.square(machine_pixels_lat_y_diff) > np.square(d_pixel))[0]
+            if len(lon_gt1_pixel_indices) == 0 or len(lat_gt1_pixel_indices) == 0:
                 d_lon = 2
                 d_lat = 2
             else:
-                lon_gt1_pixel_index = (np.where(np.square(machine_pixels_lon_x_diff) +
-                                                np.square(machine_pixels_lon_y_diff) > np.square(d_pixel))[0])[0]
-                d_lon = machine_d_lons[lon_gt1_pixel_index] - approximate_lon
-
-                # find the first index where a shift in longitude is greater than 1 pixel
-                lat_gt1_pixel_index = (np.where(np.square(machine_pixels_lat_x_diff) +
-                                                np.square(machine_pixels_lat_y_diff) > np.square(d_pixel))[0])[0]
-                d_lat = machine_d_lats[lat_gt1_pixel_index] - approximate_lat
+                d_lon = machine_d_lons[lon_gt1_pixel_indices[0]] - approximate_lon
+                d_lat = machine_d_lats[lat_gt1_pixel_indices[0]] - approximate_lat
 
         for i in range(max_iter):
             pixel_x_estimate, pixel_y_estimate = self.lon_lat_alt_to_pixel_x_y(lons, lats, alts, band=band)
-- 
2.43.0


From 9cfc6e070da5c6c761e2475677b95224842bb06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:02 +0000
Subject: [PATCH 39/78] fix: warped images do not share one temporary file, and
 failing to warp raises

---
 .../image_objects/earth_overhead/geotiff/geotiff_image.py  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 9ddf28e..a149bfa 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -1,5 +1,7 @@
 from __future__ import division
 
+from uuid import uuid4
+
 import gdal
 import numpy as np
 import osr
@@ -196,9 +198,12 @@ class GeotiffImage(AbstractEarthOverheadImage):
             src_dataset = image.get_gdal_mem_datset()
 
         if dst_fname is None:
-            dst_fname="/vsimem/tmp_gdalwarp_geotiff.vrt"
+            # every image needs a file of its own, it is read when its pixels are needed
+            dst_fname = "/vsimem/tmp_gdalwarp_geotiff_" + uuid4().hex + ".tif"
 
         dst_dataset = gdal.Warp(dst_fname, src_dataset, options=warp_ops)
+        if dst_dataset is None or dst_dataset.FlushCache():
+            raise IOError("could not warp to " + dst_fname)
         src_dataset = None
         dst_dataset = None
 
-- 
2.43.0


From 2dfa913e9823e0527eb06ee296c286a50fe3c613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:02 +0000
Subject: [PATCH 40/78] fix: reproject_vertical_datum calls the function that
 warps an image

---
 resippy/image_objects/earth_overhead/geotiff/geotiff_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index a149bfa..c4e41bc 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -222,7 +222,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
         dst_epsg = 'EPSG:' + str(srs.GetAuthorityCode(None)) + "+" + str(datum_epsg_code)
 
         ops = gdal.WarpOptions(dstSRS=dst_epsg)
-        return gdalwarp_geoTiffImage(geotiff_image, dst_fname, ops)
+        return GeotiffImage.gdalwarp_geotiff_image(geotiff_image, ops, dst_fname)
 
     def create_map_tiles(self, out_dir, gdalwarp_ops=None):
         # keep this import statement in here until all OS / pip related issues with installing gdal2tiles are resolved.
-- 
2.43.0


From d37ba217a01f3729cd84ac61053e306ca5b4d860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:02 +0000
Subject: [PATCH 41/78] fix: a DEM keeps its elevations and georeference
 together when a conversion fails

---
 resippy/photogrammetry/dem/geotiff_dem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 87b71c4..2245c8f 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -72,8 +72,10 @@ class GeotiffDem(AbstractDem):
     def set_geotiff_image(self,
                           geotiff_image  # type: GeotiffImage
                           ):  # type: (...) -> None
+        # read first, a disk that fails should not leave the elevations of one image with the georeference of another
+        dem_data = np.squeeze(geotiff_image.read_all_image_data_from_disk())
         self.gtiff = geotiff_image
-        self.dem_data = np.squeeze(self.gtiff.read_all_image_data_from_disk())
+        self.dem_data = dem_data
         self.set_projection(self.gtiff.get_point_calculator().get_projection())
         self.remove_nodata_values(self.nodata_value)
 
-- 
2.43.0


From 755588aa7d72d4a11738e6b2ec6c2f834ddda92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:31 +0000
Subject: [PATCH 42/78] fix: warping an image warps its pixels as they are in
 memory

---
 .../image_objects/earth_overhead/geotiff/geotiff_image.py    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index c4e41bc..d4fd8ae 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -196,6 +196,11 @@ class GeotiffImage(AbstractEarthOverheadImage):
         src_dataset = image.get_dset()
         if src_dataset is None:
             src_dataset = image.get_gdal_mem_datset()
+        elif image.get_image_data() is not None:
+            # the pixels in memory are the image, they may have changed since they were read
+            projection_wkt = src_dataset.GetProjection()
+            src_dataset = image.get_gdal_mem_datset()
+            src_dataset.SetProjection(projection_wkt)
 
         if dst_fname is None:
             # every image needs a file of its own, it is read when its pixels are needed
-- 
2.43.0


From 72cc4a8f949f319cdc908c4895d92f0d1fe845c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:31 +0000
Subject: [PATCH 43/78] fix: create_map_tiles warps its own image, into a file
 of its own

---
 .../image_objects/earth_overhead/geotiff/geotiff_image.py    | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index d4fd8ae..321cad2 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -232,10 +232,9 @@ class GeotiffImage(AbstractEarthOverheadImage):
     def create_map_tiles(self, out_dir, gdalwarp_ops=None):
         # keep this import statement in here until all OS / pip related issues with installing gdal2tiles are resolved.
         import gdal2tiles
-        tmp_filename = "/tmp/tmp_gdalwarp.tif"
         gdal_warp_options = gdal.WarpOptions(dstSRS="EPSG:3857")
-        mem_fname = "/vsimem/tmp_gdalwarp_geotiff.vrt"
-        gtiff_3857 = self.gdalwarp_geotiff_image(gdal_warp_options, dst_fname=mem_fname) # type: GeotiffImage
+        mem_fname = "/vsimem/tmp_gdalwarp_geotiff_" + uuid4().hex + ".tif"
+        gtiff_3857 = self.gdalwarp_geotiff_image(self, gdal_warp_options, dst_fname=mem_fname) # type: GeotiffImage
         gdal2tiles.generate_tiles(mem_fname, out_dir)
 
     def close_image(self):  # type: (...) -> None
-- 
2.43.0


From 8fbf5cecd29113bb6dc85e311f11af9c65d9e73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:26 +0000
Subject: [PATCH 44/78] fix: gdalwarp_geotiff_image raises when the warped
 image did not reach the disk

---
 .../earth_overhead/geotiff/geotiff_image.py        | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 321cad2..15f9fc8 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -210,9 +210,19 @@ class GeotiffImage(AbstractEarthOverheadImage):
         if dst_dataset is None or dst_dataset.FlushCache():
             raise IOError("could not warp to " + dst_fname)
         src_dataset = None
-        dst_dataset = None
 
-        return GeotiffImage.init_from_file(dst_fname)
+        # some of the errors that occur when gdal empties its buffers are dropped, look at what arrived in the file
+        is_lossless = dst_dataset.GetMetadataItem('COMPRESSION', 'IMAGE_STRUCTURE') in (None, 'LZW', 'DEFLATE', 'PACKBITS',
+                                                                                      'ZSTD', 'LZMA')
+        expected_bands = [dst_dataset.GetRasterBand(band + 1).ReadAsArray() for band in range(dst_dataset.RasterCount)]
+        dst_dataset = None
+        warped_image = GeotiffImage.init_from_file(dst_fname)
+        for band, expected in enumerate(expected_bands):
+            written = warped_image.read_band_from_disk(band)
+            if expected is None or (is_lossless and not np.all((written == expected) | ((written != written) &
+                                                                                     (expected != expected)))):
+                raise IOError("could not write band " + str(band) + " of " + dst_fname)
+        return warped_image
 
     # for a comprehensive list see: https://vdatum.noaa.gov/docs/datums.html#verticaldatum
     @ staticmethod
-- 
2.43.0


From 68676f85cd02c8f5ca0915fcd7343cd87364f07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:31 +0000
Subject: [PATCH 45/78] fix: a staged drone band whose pixels did not all reach
 the disk raises

---
 .../earth_overhead/micasense/micasense_image_factory.py  | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/micasense/micasense_image_factory.py b/resippy/image_objects/earth_overhead/micasense/micasense_image_factory.py
index 653c2bc..9786602 100644
--- a/resippy/image_objects/earth_overhead/micasense/micasense_image_factory.py
+++ b/resippy/image_objects/earth_overhead/micasense/micasense_image_factory.py
@@ -9,6 +9,7 @@ from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.earth
     import EarthOverheadSensorModel
 
 import os
+from io import BytesIO
 from uuid import uuid4
 from PIL import Image
 import numpy as np
@@ -113,7 +114,13 @@ class MicasenseImageFactory:
                 band_basename = str(uuid4().hex) + ".tif"
             output_fname = os.path.join(output_dir, band_basename)
             out_img = Image.fromarray(band_data)
-            out_img.save(output_fname)
+
+            # Pillow ignores it if the disk takes only a part of the pixels, let python write the file
+            image_format = Image.registered_extensions().get(os.path.splitext(output_fname)[1].lower())
+            contents = BytesIO()
+            out_img.save(contents, format=image_format)
+            with open(output_fname, 'wb') as f:
+                f.write(contents.getvalue())
 
             return output_fname
 
-- 
2.43.0


From dd01dc51bb6d020a87ba0d19f8a7cbb7c5d640c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:22 +0000
Subject: [PATCH 46/78] fix: warping also notices a lost georeference or nodata
 value

---
 .../earth_overhead/geotiff/geotiff_image.py            | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 15f9fc8..a1cd841 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -215,8 +215,18 @@ class GeotiffImage(AbstractEarthOverheadImage):
         is_lossless = dst_dataset.GetMetadataItem('COMPRESSION', 'IMAGE_STRUCTURE') in (None, 'LZW', 'DEFLATE', 'PACKBITS',
                                                                                       'ZSTD', 'LZMA')
         expected_bands = [dst_dataset.GetRasterBand(band + 1).ReadAsArray() for band in range(dst_dataset.RasterCount)]
+        expected_geot, expected_nodata_val = dst_dataset.GetGeoTransform(), dst_dataset.GetRasterBand(1).GetNoDataValue()
         dst_dataset = None
         warped_image = GeotiffImage.init_from_file(dst_fname)
+        for geot, nodata_val in ((warped_image.get_dset().GetGeoTransform(),
+                                  warped_image.get_dset().GetRasterBand(1).GetNoDataValue()),
+                                 (warped_image.get_point_calculator().get_geot(),
+                                  warped_image.get_metadata().get_nodata_val())):
+            if not np.allclose(geot, expected_geot, rtol=1e-6, atol=0):
+                raise IOError("could not write the georeference of " + dst_fname)
+            if (nodata_val is None) != (expected_nodata_val is None) or not np.isclose(
+                    float(nodata_val or 0), float(expected_nodata_val or 0), rtol=1e-6, atol=0, equal_nan=True):
+                raise IOError("could not write the nodata value of " + dst_fname)
         for band, expected in enumerate(expected_bands):
             written = warped_image.read_band_from_disk(band)
             if expected is None or (is_lossless and not np.all((written == expected) | ((written != written) &
-- 
2.43.0


From c81e3691d57e089105e497299536bc0a38b1d3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:52 +0000
Subject: [PATCH 47/78] fix: compute_image_cube_pca does not overwrite the
 image it is given

---
 resippy/spectral/spectral_image_processing_2d.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resippy/spectral/spectral_image_processing_2d.py b/resippy/spectral/spectral_image_processing_2d.py
index ef5c91d..13fe385 100644
--- a/resippy/spectral/spectral_image_processing_2d.py
+++ b/resippy/spectral/spectral_image_processing_2d.py
@@ -21,8 +21,7 @@ def compute_image_cube_pca(spectral_image,      # type: ndarray
     #                      whiten=whiten,
     #                      copy=False)
     pca = PCA(n_components=n_components,
-                         whiten=whiten,
-                         copy=False)
+                         whiten=whiten)
 
     xformed = pca.fit_transform(prepped_cube)
     nsamp, ncomp = xformed.shape
-- 
2.43.0


From 5238f7cbfefc6747ad0f3fd88760960170c9e155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:52 +0000
Subject: [PATCH 48/78] fix: compute_cov_eq_linear_transform_matrix works
 without masks

---
 resippy/spectral/spectral_image_processing_2d.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/resippy/spectral/spectral_image_processing_2d.py b/resippy/spectral/spectral_image_processing_2d.py
index 13fe385..7ecc718 100644
--- a/resippy/spectral/spectral_image_processing_2d.py
+++ b/resippy/spectral/spectral_image_processing_2d.py
@@ -145,10 +145,12 @@ def compute_cov_eq_linear_transform_matrix(input_scene,                 # type:
                                            ):                           # type: (...) -> ndarray
     flattened_1 = spectral_tools.flatten_image_cube(input_scene)
     flattened_2 = spectral_tools.flatten_image_cube(scene_to_match)
-    flattened_mask_1 = image_utils.flatten_image_band(input_scene_mask)
-    flattened_mask_2 = image_utils.flatten_image_band(scene_to_match_mask)
+    if input_scene_mask is not None:
+        input_scene_mask = image_utils.flatten_image_band(input_scene_mask)
+    if scene_to_match_mask is not None:
+        scene_to_match_mask = image_utils.flatten_image_band(scene_to_match_mask)
     big_l = spectral_image_processing_1d.compute_cov_eq_linear_transform_matrix(flattened_1,
                                                                                 flattened_2,
-                                                                                flattened_mask_1,
-                                                                                flattened_mask_2)
+                                                                                input_scene_mask,
+                                                                                scene_to_match_mask)
     return big_l
-- 
2.43.0


From 86e3d00a8d7b88e591d8d7eed436126a527e54a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:05 +0000
Subject: [PATCH 49/78] fix: the spectral angles of images of whole numbers do
 not overflow

---
 resippy/spectral/spectral_image_processing_1d.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resippy/spectral/spectral_image_processing_1d.py b/resippy/spectral/spectral_image_processing_1d.py
index 6569ec7..ba704b0 100644
--- a/resippy/spectral/spectral_image_processing_1d.py
+++ b/resippy/spectral/spectral_image_processing_1d.py
@@ -165,6 +165,12 @@ def ace_demeaned(demeaned_image,            # type: ndarray
 def sam(spectral_image,     # type: ndarray
         target_spectra      # type: ndarray
         ):                  # type: (...) -> ndarray
+    # products and sums of whole numbers do not fit into their own data type
+    if not np.issubdtype(spectral_image.dtype, np.inexact):
+        spectral_image = spectral_image.astype(float)
+    if not np.issubdtype(target_spectra.dtype, np.inexact):
+        target_spectra = target_spectra.astype(float)
+
     # Python 3.5+
     # numerator = target_spectra @ spectral_image.transpose()
     # Python 2.7 - 3.4
-- 
2.43.0


From 1c45a1b92bf9a0d56e03ca0b2abb8443744cadc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:05 +0000
Subject: [PATCH 50/78] fix: colour images with palettes of more than 128
 colours

---
 resippy/utils/image_utils/image_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 6accb45..5133b92 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -205,8 +205,8 @@ def apply_colormap_to_grayscale_image(grayscale_image,  # type: ndarray
         max_clip = min_clip + (max_clip - min_clip) * (n_bins - 1) / n_bins
 
     palette_indices = np.linspace(min_clip, max_clip, n_bins)
-    image_low_index_map = np.zeros(grayscale_image.shape, dtype=np.int8)
-    image_high_index_map = np.zeros(grayscale_image.shape, dtype=np.int8)
+    image_low_index_map = np.zeros(grayscale_image.shape, dtype=np.int32)
+    image_high_index_map = np.zeros(grayscale_image.shape, dtype=np.int32)
     image_low_palette_index = np.zeros(grayscale_image.shape)
     image_high_palette_index = np.zeros(grayscale_image.shape)
 
-- 
2.43.0


From 8625dbc5dd94aace7fafb7b0979327bc03e923d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:05 +0000
Subject: [PATCH 51/78] fix: scale images whose range of values does not fit
 their data type

---
 resippy/utils/image_utils/image_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 5133b92..846c9e2 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -123,6 +123,9 @@ def gdal_grid_image_band(image_to_warp,  # type: ndarray
 
 
 def normalize_grayscale_image(input_image, new_min, new_max, output_dtype=None):
+    if np.issubdtype(input_image.dtype, np.integer):
+        # the difference of two whole numbers may not fit into their data type
+        input_image = input_image.astype(float)
     image_min = np.min(input_image)
     image_max = np.max(input_image)
     image_zero_to_one = (input_image - image_min)/(image_max-image_min)
-- 
2.43.0


From 2cb3082d2bc78d0df4b28a3dfa1ae7a3c46f75eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:27 +0000
Subject: [PATCH 52/78] fix: spectra of whole numbers can have nodata values

---
 resippy/spectral/spectrum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/resippy/spectral/spectrum.py b/resippy/spectral/spectrum.py
index 493a2a4..87c4b55 100644
--- a/resippy/spectral/spectrum.py
+++ b/resippy/spectral/spectrum.py
@@ -39,7 +39,11 @@ class Spectrum:
         spectral_data = copy.deepcopy(self._spectral_data)
         if nodata_to_nan:
             # spectral_data_nodata_replaced = copy.deepcopy(self._spectral_data)
-            spectral_data[np.where(spectral_data == self.get_nodata_val())] = np.nan
+            nodata_inds = np.where(spectral_data == self.get_nodata_val())
+            if len(nodata_inds[0]) > 0 and not np.issubdtype(spectral_data.dtype, np.inexact):
+                # whole numbers have no nan
+                spectral_data = spectral_data.astype(float)
+            spectral_data[nodata_inds] = np.nan
         if with_units:
             spectral_data = spectral_data * self.get_spectrum_units()
         return spectral_data
-- 
2.43.0


From c826c82af7b2ce43e443cf7263330dd1a57cb402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 53/78] fix: colour images whose range of values does not fit
 their data type

---
 resippy/utils/image_utils/image_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 846c9e2..bd40e90 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -189,6 +189,8 @@ def apply_colormap_to_grayscale_image(grayscale_image,  # type: ndarray
             max_clip = np.nanmax(grayscale_image[good_inds])
         else:
             max_clip = np.nanmax(grayscale_image)
+    # the difference of two whole numbers may not fit into their data type
+    min_clip, max_clip = float(min_clip), float(max_clip)
     color_palette = np.asarray(color_palette)
 
     if n_bins is not None:
-- 
2.43.0


From c23166f9abcd7c7874275fa21c7adc655930a57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:34 +0000
Subject: [PATCH 54/78] fix: the georeference of an orthorectified image covers
 the area of its ground grid

---
 resippy/utils/photogrammetry_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index 6d81595..19eee46 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -40,8 +40,8 @@ def world_poly_to_geo_t(world_polygon,      # type: Polygon
                         ):                  # type: (...) -> list
     envelope = world_polygon.envelope
     minx, miny, maxx, maxy = envelope.bounds
-    gsd_x = (maxx - minx)/(npix_x + 1)
-    gsd_y = (maxy - miny)/(npix_y + 1)
+    gsd_x = (maxx - minx)/npix_x
+    gsd_y = (maxy - miny)/npix_y
     geot = [minx, gsd_x, 0, maxy, 0, -1*gsd_y]
     return geot
 
-- 
2.43.0


From 4658a1a516e2c3cde327ee0efc7d5bb2ea36530d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:34 +0000
Subject: [PATCH 55/78] fix: ground grids can be one pixel wide or high

---
 resippy/utils/photogrammetry_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index 19eee46..a85ad87 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -59,8 +59,8 @@ def create_ground_grid(min_x,   # type: float
     ground_y_arr = ground_y_arr/npix_y*(max_y - min_y)
     ground_x_arr = ground_x_arr + min_x
     ground_y_arr = ground_y_arr + min_y
-    x_gsd = np.abs(ground_x_arr[0, 1] - ground_x_arr[0, 0])
-    y_gsd = np.abs(ground_y_arr[0, 0] - ground_y_arr[1, 0])
+    x_gsd = np.abs(max_x - min_x)/npix_x
+    y_gsd = np.abs(max_y - min_y)/npix_y
     return ground_x_arr + x_gsd/2.0, ground_y_arr - y_gsd/2.0
 
 
-- 
2.43.0


From 4ae51b87bf03220c4a1d2d9a7171502923453589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:34 +0000
Subject: [PATCH 56/78] fix: images that are still on disk can be
 orthorectified

---
 resippy/image_objects/abstract_image.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/image_objects/abstract_image.py b/resippy/image_objects/abstract_image.py
index 878506c..55c6fdc 100644
--- a/resippy/image_objects/abstract_image.py
+++ b/resippy/image_objects/abstract_image.py
@@ -87,8 +87,10 @@ class AbstractImage():
         """
         Gets a particular image band of the image object's _image_data class variable.  band_num is zero-based.
         :param band_num: band number to get
-        :return: image band of dimensions (ny, nx)
+        :return: image band of dimensions (ny, nx), None if no image data has been loaded
         """
+        if self._image_data is None:
+            return None
         return self._image_data[:, :, band_num]
 
     def set_image_band(self,
-- 
2.43.0


From 2a72f26c7b73e6b0753223cbaf0e11b3687d4aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 57/78] fix: pixels of an orthorectified image that the camera
 does not see are nodata

---
 resippy/photogrammetry/ortho_tools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index aec6287..a280666 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -212,7 +212,8 @@ def create_ortho_gtiff_image_world_to_sensor(overhead_image,  # type: AbstractEa
             regridded = map_coordinates(image_data,
                                         [image_utils.flatten_image_band(pixels_y),
                                          image_utils.flatten_image_band(pixels_x)],
-                                        order=spline_order)
+                                        order=spline_order,
+                                        cval=nodata_val)
 
             regridded = image_utils.unflatten_image_band(regridded, ortho_nx_pix, ortho_ny_pix)
             regridded = regridded.astype(im_tp)
@@ -229,7 +230,8 @@ def create_ortho_gtiff_image_world_to_sensor(overhead_image,  # type: AbstractEa
             regridded = map_coordinates(image_data,
                                         [image_utils.flatten_image_band(pixels_y),
                                          image_utils.flatten_image_band(pixels_x)],
-                                        order=spline_order)
+                                        order=spline_order,
+                                        cval=nodata_val)
 
             regridded = image_utils.unflatten_image_band(regridded, ortho_nx_pix, ortho_ny_pix)
 
-- 
2.43.0


From a2c69409a740dddf8d5170e6e11de1dc759e1c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 58/78] fix: the extent of an image does not lose corners of
 images that cover less than a thousandth of a degree

---
 resippy/photogrammetry/ortho_tools.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index a280666..88deb75 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -373,9 +373,7 @@ def get_extent(overhead_image,  # type: AbstractEarthOverheadImage
         all_band_lats = np.append(all_band_lats, lats)
 
     extents = [(MultiPoint(list(zip(all_band_lons, all_band_lats))))]
-    # TODO, check into whether we can get rid of this tolerance, also, this isn't a very good approach, since it assumes
-    # TODO a particular CRS (probably 4326)
-    return unary_union(extents).convex_hull.simplify(0.001)
+    return unary_union(extents).convex_hull
 
 
 def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEarthOverheadImage
-- 
2.43.0


From 94c358a447ebd2e3aa3de9d41d3043b751249c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 59/78] fix: igm images can be made of images that are still on
 disk

---
 resippy/photogrammetry/ortho_tools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 88deb75..ab299b7 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -101,11 +101,14 @@ def create_igm_image(overhead_image,    # type: AbstractEarthOverheadImage
                                                                          pixels_y,
                                                                          dem,
                                                                          dem_sample_distance=dem_sample_distance)
-    igm_image = IgmImage.from_params(overhead_image.get_image_data(),
+    image_data = overhead_image.get_image_data()
+    if image_data is None:
+        image_data = overhead_image.read_all_image_data_from_disk()
+    igm_image = IgmImage.from_params(image_data,
                                      lons,
                                      lats,
                                      alts,
-                                     overhead_image.get_image_data().shape[2],
+                                     image_data.shape[2],
                                      overhead_image.pointcalc.get_projection())
     return igm_image
 
-- 
2.43.0


From f2c80eea76c05e4fc96c71bc49c6e6bd46611806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 60/78] fix: the windows around pixel values do not wrap around
 to the other side of the image

---
 resippy/photogrammetry/ortho_tools.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index ab299b7..180f8f8 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -37,16 +37,19 @@ def get_pixel_values(image_object,  # type: AbstractEarthOverheadImage
     wh = np.round(window/2.0).astype(int)
     pix_vals = []
     for band in range(image_object.get_metadata().get_n_bands()):
-        img = image_object.read_band_from_disk(band)
+        img = image_object.get_image_band(band)
+        if img is None:
+            img = image_object.read_band_from_disk(band)
         x, y = image_object.get_point_calculator().lon_lat_alt_to_pixel_x_y(lons, lats, alts, band=band)
         locs = zip(np.round(x).astype(int), np.round(y).astype(int))
         vals = []
         for item in locs:
             try:
-                xmin = item[0] - wh
-                xmax = item[0] + wh
-                ymin = item[1] - wh
-                ymax = item[1] + wh
+                # negative indices count from the other side of the image
+                xmin = max(item[0] - wh, 0)
+                xmax = max(item[0] + wh, 0)
+                ymin = max(item[1] - wh, 0)
+                ymax = max(item[1] + wh, 0)
                 pix_win = img[ymin:ymax, xmin:xmax]
                 good_inds = pix_win != nodata
                 val = np.mean(pix_win[good_inds])
-- 
2.43.0


From c6b2053e455188e1e435ba90809d623f1fab89b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 61/78] fix: obstructions are looked for between the ground and
 the camera

---
 resippy/photogrammetry/ortho_tools.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 180f8f8..ba2f2af 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -395,8 +395,7 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     DEFAULT_DEM_RESOLUTION = 5
     if dem_resolution is None:
         dem_resolution = DEFAULT_DEM_RESOLUTION
-    highest_alts = np.zeros_like(pixels_x)
-    highest_alts[:] = dem.get_highest_alt() + 0.001
+    highest_alts = np.zeros(np.shape(pixels_x)) + dem.get_highest_alt() + 0.001
 
     if alts is None:
         alts = dem.get_elevations(lons, lats)
@@ -406,13 +405,14 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     lons_highest, lats_highest = earth_overhead_image.get_point_calculator().pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, highest_alts, band=band)
     lon_diffs = lons - lons_highest
     lat_diffs = lats - lats_highest
-    horizontal_distances = np.sqrt(np.square(lon_diffs + lat_diffs))
+    horizontal_distances = np.sqrt(np.square(lon_diffs) + np.square(lat_diffs))
     vertical_distances = highest_alts - alts
     max_horizontal_distance = horizontal_distances.max()
     n_dem_steps = max_horizontal_distance / dem_resolution
     for step in np.arange(1, n_dem_steps):
-        test_lons = lons + lon_diffs * (step) / n_dem_steps
-        test_lats = lats + lat_diffs * (step) / n_dem_steps
+        # from the ground towards the camera, the differences point the other way
+        test_lons = lons - lon_diffs * (step) / n_dem_steps
+        test_lats = lats - lat_diffs * (step) / n_dem_steps
         test_alts = dem.get_elevations(test_lons, test_lats)
         obstruction_heights = alts + vertical_distances * step / n_dem_steps
         obstructed_mask[np.where(test_alts > obstruction_heights)] = 1
-- 
2.43.0


From b90bb605e75df3cb5c451c198ebeaa8e0e0cd436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 62/78] fix: full orthorectified images of cameras whose bands
 are not coregistered

---
 resippy/photogrammetry/ortho_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index ba2f2af..2015c75 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -133,9 +133,9 @@ def create_full_ortho_gtiff_image(overhead_image,  # type: AbstractEarthOverhead
         ny = overhead_image.metadata.get_npix_y()
         native_lons, native_lats = get_pixel_lon_lats(overhead_image,
                                                       dem,
-                                                      bands,
-                                                      pixels_x=[0, nx-1, 0],
-                                                      pixels_y=[0, 0, ny-1])
+                                                      band=0 if bands is None else np.ravel(bands)[0],
+                                                      pixels_x=np.array([0, nx-1, 0]),
+                                                      pixels_y=np.array([0, 0, ny-1]))
         local_lons, local_lats = transform(overhead_image.pointcalc.get_projection(), local_proj, native_lons, native_lats)
         distance_along_x = math.sqrt((local_lons[1] - local_lons[0]) ** 2 + (local_lats[1] - local_lats[0]) ** 2)
         distance_along_y = math.sqrt((local_lons[2] - local_lons[0]) ** 2 + (local_lats[2] - local_lats[0]) ** 2)
-- 
2.43.0


From 3c1406268d0aab396f8c1994bfb6c87bb048d74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:27 +0000
Subject: [PATCH 63/78] fix: full orthorectified images of images in degrees,
 or in another projection than the image

---
 resippy/photogrammetry/ortho_tools.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 2015c75..65eba60 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -17,7 +17,7 @@ from resippy.image_objects.earth_overhead.geotiff.geotiff_image import GeotiffIm
 from resippy.image_objects.earth_overhead.igm.igm_image import IgmImage
 from resippy.photogrammetry.dem.abstract_dem import AbstractDem
 from resippy.photogrammetry import crs_defs as crs_defs
-from resippy.utils.photogrammetry_utils import create_ground_grid, world_poly_to_geo_t
+from resippy.utils.photogrammetry_utils import create_ground_grid, reproject_geometry, world_poly_to_geo_t
 from resippy.utils import proj_utils
 from pyproj import transform
 from resippy.photogrammetry.dem.dem_factory import DemFactory
@@ -143,14 +143,18 @@ def create_full_ortho_gtiff_image(overhead_image,  # type: AbstractEarthOverhead
         gsd_y = distance_along_y / ny
         gsd_meters = (gsd_x + gsd_y) / 2.0
 
-    ortho_x_dist = np.abs(extent.bounds[2] - extent.bounds[0])
-    ortho_y_dist = np.abs(extent.bounds[3] - extent.bounds[1])
+    # the extent may be in degrees, the ground sample distance is in meters
+    local_extent = reproject_geometry(extent, overhead_image.pointcalc.get_projection(), local_proj)
+    ortho_x_dist = np.abs(local_extent.bounds[2] - local_extent.bounds[0])
+    ortho_y_dist = np.abs(local_extent.bounds[3] - local_extent.bounds[1])
 
-    ortho_nx = int(ortho_x_dist / gsd_meters)
-    ortho_ny = int(ortho_y_dist / gsd_meters)
+    ortho_nx = max(int(ortho_x_dist / gsd_meters), 1)
+    ortho_ny = max(int(ortho_y_dist / gsd_meters), 1)
 
     if output_proj is None:
         output_proj = overhead_image.pointcalc.get_projection()
+    elif output_proj.srs != overhead_image.pointcalc.get_projection().srs:
+        extent = reproject_geometry(extent, overhead_image.pointcalc.get_projection(), output_proj)
     return create_ortho_gtiff_image_world_to_sensor(overhead_image,
                                                     ortho_nx,
                                                     ortho_ny,
-- 
2.43.0


From c5b9018c90e25e568af3a5151ab822e1d460c6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:55 +0000
Subject: [PATCH 64/78] fix: drone image positions can have fractions of
 degrees and minutes

---
 .../earth_overhead/micasense/micasense_image.py             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/micasense/micasense_image.py b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
index 4d1b970..1f9fb31 100644
--- a/resippy/image_objects/earth_overhead/micasense/micasense_image.py
+++ b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
@@ -71,10 +71,10 @@ class MicasenseImage(AbstractEarthOverheadImage):
         dms = dms_tag.values
         ref = ref_tag.values
 
-        d = dms[0].num
-        m = dms[1].num
+        d = dms[0].num / dms[0].den
+        m = dms[1].num / dms[1].den
         s = dms[2].num / dms[2].den
 
         sign = -1 if ref == 'S' or ref == 'W' else 1
 
-        return sign * (int(d) + float(m) / 60 + float(s) / 3600)
+        return sign * (float(d) + float(m) / 60 + float(s) / 3600)
-- 
2.43.0


From de2954506ca9b2bd7646399fa9c2348fd08f8392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:58 +0000
Subject: [PATCH 65/78] fix: pixels of cameras that are turned by exactly 90
 degrees can be located

---
 .../abstract_earth_overhead_point_calc.py                   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 36e0f2d..0c26a98 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -270,8 +270,10 @@ class AbstractEarthOverheadPointCalc:
             delta_px = pixel_xs - pixel_x_estimate
             delta_py = pixel_ys - pixel_y_estimate
 
-            delta_lat = (delta_py * pxx - pyx * delta_px) / (pyy * pxx - pxy * pyx)
-            delta_lon = (delta_px - delta_lat * pxy) / pxx
+            # pxx itself can be zero, for a camera that is turned by 90 degrees
+            determinant = pyy * pxx - pxy * pyx
+            delta_lat = (delta_py * pxx - pyx * delta_px) / determinant
+            delta_lon = (delta_px * pyy - pxy * delta_py) / determinant
 
             new_lons = lons + delta_lon
             new_lats = lats + delta_lat
-- 
2.43.0


From 1707941b785e3b3909c59183e66413495065fa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:59 +0000
Subject: [PATCH 66/78] fix: the simulated camera's roll, pitch and yaw are in
 external_orientation_rpy_units

---
 resippy/utils/physical_camera_simulator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/utils/physical_camera_simulator.py b/resippy/utils/physical_camera_simulator.py
index 4d2cc6d..127dd37 100644
--- a/resippy/utils/physical_camera_simulator.py
+++ b/resippy/utils/physical_camera_simulator.py
@@ -90,9 +90,9 @@ class PhysicalCameraSimulator:
                                                                              order=self._boresight_rpy_order)
 
         fixtured_camera.set_fixture_orientation_by_roll_pitch_yaw(roll, pitch, yaw,
-                                                                  roll_units=self._boresight_units,
-                                                                  pitch_units=self._boresight_units,
-                                                                  yaw_units=self._boresight_units)
+                                                                  roll_units=self._external_orientation_rpy_units,
+                                                                  pitch_units=self._external_orientation_rpy_units,
+                                                                  yaw_units=self._external_orientation_rpy_units)
 
         camera_1_m_matrix = fixtured_camera.get_camera_absolute_M_matrix()
         omega, phi, kappa = photogrammetry_utils.solve_for_omega_phi_kappa(camera_1_m_matrix)
-- 
2.43.0


From 8b5757b6677e0faddb2527196aedd54174a5c406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:59 +0000
Subject: [PATCH 67/78] fix: simulated frames in another world projection than
 the base image's

---
 resippy/utils/physical_camera_simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/physical_camera_simulator.py b/resippy/utils/physical_camera_simulator.py
index 127dd37..1c2fc03 100644
--- a/resippy/utils/physical_camera_simulator.py
+++ b/resippy/utils/physical_camera_simulator.py
@@ -131,7 +131,8 @@ class PhysicalCameraSimulator:
         gtiff_x_vals, gtiff_y_vals = self._gtiff_image_object.get_point_calculator().lon_lat_alt_to_pixel_x_y(
             pass1_lons,
             pass1_lats,
-            numpy.zeros_like(pass1_lons))
+            numpy.zeros_like(pass1_lons),
+            world_proj=self.world_projection)
 
         if self._gtiff_image_data is None:
             self._gtiff_image_data = self._gtiff_image_object.read_band_from_disk(0)
-- 
2.43.0


From a4ca0d2ed5dbd53f87592e871cd040399695efdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:59 +0000
Subject: [PATCH 68/78] fix: orientation angles of matrices with rounding
 errors

---
 resippy/utils/photogrammetry_utils.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index a85ad87..9cbe044 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -180,18 +180,10 @@ def solve_for_omega_phi_kappa(m_matrix,  # type: ndarray
     m32 = m_matrix[2, 1]
     m21 = m_matrix[1, 0]
 
-    phi = np.arcsin(m31)
-    cos_phi = np.cos(phi)
-    kappa = np.arccos(m11 / cos_phi)
-    omega = np.arccos(m33 / cos_phi)
-    # if np.isnan(kappa):
-    #     kappa = 0
-    # if np.isnan(omega):
-    #     omega = 0
-    if m32 > 0:
-        omega = -omega
-    if m21 > 0:
-        kappa = -kappa
+    # rounding can make an element slightly larger than 1
+    phi = np.arcsin(np.clip(m31, -1.0, 1.0))
+    kappa = np.arctan2(-m21, m11)
+    omega = np.arctan2(-m32, m33)
 
     return omega, phi, kappa
 
-- 
2.43.0


From 54cc44a2b8e151dd030f5fa45dcb30a10386cc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:08 +0000
Subject: [PATCH 69/78] fix: the last line of an ENVI header that ends without
 a newline, and values with an equals sign

---
 resippy/utils/envi_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 9ab5dfd..9f4a1be 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -87,7 +87,8 @@ def read_envi_header(header_fname,      # type: str
     with open(header_fname, 'r') as content_file:
         header_text = content_file.read()
 
-    header_text = string_utils.cleanup_newlines(header_text)
+    # the last line may end with the file
+    header_text = string_utils.cleanup_newlines(header_text) + os.linesep
 
     envi_header_dict = {}
 
@@ -131,7 +132,7 @@ def read_envi_header(header_fname,      # type: str
         elif is_equals_entry(header_text):
             linesep_index = header_text.find(os.linesep)
             entry_text = header_text[0:linesep_index]
-            key, val = entry_text.split('=')
+            key, val = entry_text.split('=', 1)
             header_text = header_text[linesep_index + 1:]
 
         elif entry_has_newline(header_text):
-- 
2.43.0


From 3db03941f332efcd2b4b905de15ac69d26bf8e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:22 +0000
Subject: [PATCH 70/78] fix: ENVI images whose header spells the names of its
 entries in upper case

---
 resippy/utils/envi_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 9f4a1be..21a9dd6 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -142,8 +142,8 @@ def read_envi_header(header_fname,      # type: str
         else:
             header_text = header_text[1:]
 
-        key = str.rstrip(key)
-        key = str.lstrip(key)
+        # the names of entries are not case sensitive
+        key = str.lower(str.strip(key))
         envi_header_dict[key] = str.strip(val)
 
     if "" in envi_header_dict.keys():
-- 
2.43.0


From 190ca0f6a84bd5eeec87d581238469fe24882726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:03 +0000
Subject: [PATCH 71/78] fix: returned wavelengths and bandwidths of a spectrum
 belong to the caller

---
 resippy/spectral/spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/spectral/spectrum.py b/resippy/spectral/spectrum.py
index 87c4b55..2e2c4be 100644
--- a/resippy/spectral/spectrum.py
+++ b/resippy/spectral/spectrum.py
@@ -56,7 +56,7 @@ class Spectrum:
     def get_wavelengths(self,
                         with_units=False    # type: bool
                         ):                  # type: (...) -> ndarray
-        wavelengths = self._wavelengths
+        wavelengths = copy.deepcopy(self._wavelengths)
         if with_units:
             wavelengths = wavelengths * self.get_wavelength_units()
         return wavelengths
@@ -69,7 +69,7 @@ class Spectrum:
     def get_fwhm(self,
                  with_units=False   # type: bool
                  ):                 # type: (...) -> ndarray
-        fwhm = self._fwhm
+        fwhm = copy.deepcopy(self._fwhm)
         if with_units:
             fwhm = fwhm * self.get_wavelength_units()
         return fwhm
-- 
2.43.0


From ea51ddac745e559f908365194a4438c638b7a2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:03 +0000
Subject: [PATCH 72/78] fix: line breaks in quoted fields of a csv table come
 back as they are in the file

---
 resippy/utils/csv_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/csv_utils.py b/resippy/utils/csv_utils.py
index ff125e2..d0a3b33 100644
--- a/resippy/utils/csv_utils.py
+++ b/resippy/utils/csv_utils.py
@@ -10,7 +10,7 @@ class CsvUtils:
                                        ):
         header = None
         data = None
-        with open(fname) as f:
+        with open(fname, newline='') as f:
             reader = csv.reader(f, delimiter=delimiter)
             header = next(reader) # skip header
             data = [row for row in reader]
-- 
2.43.0


From 54d47ac0ba5a31a0ac2b2d03043e3287a496a7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:00 +0000
Subject: [PATCH 73/78] fix: pixels outside of a warped image are nodata for
 the higher interpolation orders

---
 resippy/utils/image_utils/image_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index bd40e90..8216d6d 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -50,6 +50,10 @@ def grid_warp_image_band(image_to_warp,  # type: ndarray
 
     warped_image = sktransform.warp(image_to_warp, coords, preserve_range=True,
                                     mode='constant', cval=nodata_val, order=order)
+    if order > 1:
+        # splines oscillate beyond the edges of the image
+        ny, nx = image_to_warp.shape[0:2]
+        warped_image[(coords[0] <= -1) | (coords[0] >= ny) | (coords[1] <= -1) | (coords[1] >= nx)] = nodata_val
     return warped_image
 
 
-- 
2.43.0


From e25cb79d4d3c25f79ddb9d180337969a2d61dd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:19 +0000
Subject: [PATCH 74/78] fix: a Micasense band file that was cut short is not
 read as several bands

---
 .../image_objects/earth_overhead/micasense/micasense_image.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/micasense/micasense_image.py b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
index 1f9fb31..c4ffc0f 100644
--- a/resippy/image_objects/earth_overhead/micasense/micasense_image.py
+++ b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
@@ -25,7 +25,7 @@ class MicasenseImage(AbstractEarthOverheadImage):
                             band_number     # type: int
                             ):              # type: (...) -> ndarray
         band_data = imread(self.band_fnames[band_number])
-        if band_data.size == 0:
+        if band_data.size == 0 or band_data.ndim != 2:
             # what the tiff reader makes of a file that was cut short
             raise IOError("could not read " + self.band_fnames[band_number])
         return band_data
-- 
2.43.0


From 3bf3de63a3d92b190b494863b020243c2b04f875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:35 +0000
Subject: [PATCH 75/78] fix: a GeoTIFF whose pixels cannot be read is not lost
 when it is written to its own file

---
 .../image_objects/earth_overhead/geotiff/geotiff_image.py    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index a1cd841..0d23420 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -125,6 +125,9 @@ class GeotiffImage(AbstractEarthOverheadImage):
                       fname,  # type: str
                       compression="LZW"  # type: str
                       ):  # type: (...) -> None
+        if self.get_image_data() is None:
+            # creating the file may delete the one that the pixels are in
+            self.set_image_data(self.read_all_image_data_from_disk())
         driver = gdal.GetDriverByName('GTiff')
         dtype = self.get_metadata().get_gdal_datatype()
         ops = ['COMPRESS=' + compression, "INTERLEAVE=BAND", "TILED=YES"]
@@ -139,8 +142,6 @@ class GeotiffImage(AbstractEarthOverheadImage):
             raise IOError("could not create " + fname)
         dataset.SetGeoTransform(self.get_point_calculator().get_geot())
         dataset.SetProjection(self.get_point_calculator().get_gdal_projection_wkt())
-        if self.get_image_data() is None:
-            self.set_image_data(self.read_all_image_data_from_disk())
         for band in range(self.get_metadata().get_n_bands()):
             dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
             self._set_gdal_nodata_val(dataset.GetRasterBand(band + 1))
-- 
2.43.0


From d2872fe372043953cb57541e521d085739ab2bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:35 +0000
Subject: [PATCH 76/78] fix: images are scored without a ledger, and with one
 chip or one label

---
 .../neural_net_model_scoring/keras_image_scoring.py      | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
index 5e04b8e..ad16139 100644
--- a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
+++ b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
@@ -43,10 +43,13 @@ def chip_and_score_image(input_image,               # type: np.ndarray
 
         preds = trained_keras_model.predict(chip)
         scores.append(preds)
-        atk_chain_ledger.set_status('scoring image chips', (i / n_chips) * 100)
+        if atk_chain_ledger is not None:
+            atk_chain_ledger.set_status('scoring image chips', (i / n_chips) * 100)
 
-    scores = np.squeeze(np.array(scores))
+    scores = np.array(scores)
     if labels is not None and thing_to_find is not None:
         thing_to_find_index = labels.index(thing_to_find)
-        scores = scores[:, thing_to_find_index]
+        scores = np.reshape(scores, (n_chips, -1))[:, thing_to_find_index]
+    else:
+        scores = np.squeeze(scores)
     return scores, upper_left_yx_locs
-- 
2.43.0


From fc9699527215a0cb0b110cffde55c2c0bbea1134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:43 +0000
Subject: [PATCH 77/78] fix: extents, pixel positions and obstructed pixels
 look elevations up in the projection of the image

---
 resippy/photogrammetry/ortho_tools.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 65eba60..72651d9 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -83,7 +83,7 @@ def get_pixel_lon_lats(overhead_image,  # type: AbstractEarthOverheadImage
                                                                      pixel_error_threshold=pixel_error_threshold,
                                                                      max_iter=max_iter)
     # get differences from the highest alt using the dem
-    alt_diff = alts - dem.get_elevations(lons_highest, lats_highest)
+    alt_diff = alts - dem.get_elevations(lons_highest, lats_highest, world_proj=point_calc.get_projection())
     new_alts = alts - alt_diff
     lons_low, lats_low = point_calc.pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, new_alts,
                                                              band=band,
@@ -400,9 +400,11 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     if dem_resolution is None:
         dem_resolution = DEFAULT_DEM_RESOLUTION
     highest_alts = np.zeros(np.shape(pixels_x)) + dem.get_highest_alt() + 0.001
+    # the elevation model may have another projection than the image
+    world_proj = earth_overhead_image.get_point_calculator().get_projection()
 
     if alts is None:
-        alts = dem.get_elevations(lons, lats)
+        alts = dem.get_elevations(lons, lats, world_proj=world_proj)
 
     obstructed_mask = np.zeros_like(lons)
 
@@ -417,7 +419,7 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
         # from the ground towards the camera, the differences point the other way
         test_lons = lons - lon_diffs * (step) / n_dem_steps
         test_lats = lats - lat_diffs * (step) / n_dem_steps
-        test_alts = dem.get_elevations(test_lons, test_lats)
+        test_alts = dem.get_elevations(test_lons, test_lats, world_proj=world_proj)
         obstruction_heights = alts + vertical_distances * step / n_dem_steps
         obstructed_mask[np.where(test_alts > obstruction_heights)] = 1
     return obstructed_mask
-- 
2.43.0


From 39934ad69f96cc6cd4424737841eacf0bec42ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:24 +0000
Subject: [PATCH 78/78] fix: orthorectification of images with several cameras
 uses the pixels in memory like other images do

---
 resippy/photogrammetry/ortho_tools.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 72651d9..c8fe639 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -216,7 +216,9 @@ def create_ortho_gtiff_image_world_to_sensor(overhead_image,  # type: AbstractEa
         for band in bands:
             pixels_x, pixels_y = overhead_image.get_point_calculator(). \
                 lon_lat_alt_to_pixel_x_y(image_ground_grid_x, image_ground_grid_y, alts, band=band, world_proj=world_proj)
-            image_data = overhead_image.read_band_from_disk(band)
+            image_data = overhead_image.get_image_band(band)
+            if image_data is None:
+                image_data = overhead_image.read_band_from_disk(band)
             im_tp = image_data.dtype
 
             regridded = map_coordinates(image_data,
@@ -298,7 +300,9 @@ def create_ortho_gtiff_image_world_to_sensor_backup(overhead_image,  # type: Abs
         for band in bands:
             pixels_x, pixels_y = overhead_image.get_point_calculator(). \
                 lon_lat_alt_to_pixel_x_y(image_ground_grid_x, image_ground_grid_y, alts, band=band, world_proj=world_proj)
-            image_data = overhead_image.read_band_from_disk(band)
+            image_data = overhead_image.get_image_band(band)
+            if image_data is None:
+                image_data = overhead_image.read_band_from_disk(band)
             im_tp = image_data.dtype
 
             regridded = image_utils.grid_warp_image_band(image_data, pixels_x, pixels_y,
-- 
2.43.0

