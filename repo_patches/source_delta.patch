From cfcf3df98bf01bae54b012154c3abcec98c2509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 01/96] fix: covariance of a one-band image is a 1x1 matrix
 instead of a 0-d array that cannot be inverted

---
 resippy/spectral/spectral_image_processing_1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/spectral/spectral_image_processing_1d.py b/resippy/spectral/spectral_image_processing_1d.py
index 6569ec7..94e2b3a 100644
--- a/resippy/spectral/spectral_image_processing_1d.py
+++ b/resippy/spectral/spectral_image_processing_1d.py
@@ -30,14 +30,14 @@ def compute_image_cube_spectral_covariance(spectral_image,  # type: ndarray
                                            image_mask=None  # type: ndarray
                                            ):      # type: (...) -> ndarray
     if image_mask is None:
-        return np.cov(np.transpose(spectral_image))
+        return np.atleast_2d(np.cov(np.transpose(spectral_image)))
     else:
         mask = np.zeros(spectral_image.shape)
         for i in range(spectral_image.shape[1]):
             mask[:, i] = image_mask
         spectral_image = np.ma.masked_array(spectral_image, mask)
         masked_covar = np.ma.cov(np.transpose(spectral_image))
-        return masked_covar
+        return np.atleast_2d(masked_covar)
 
 
 # as described in:
-- 
2.43.0


From fc81c40747437fcf3ae54e609733abaeb6eab0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 02/96] fix: spectral angle of integer images overflowed the
 integer type of the pixels

---
 resippy/spectral/spectral_image_processing_1d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resippy/spectral/spectral_image_processing_1d.py b/resippy/spectral/spectral_image_processing_1d.py
index 94e2b3a..6c3bac0 100644
--- a/resippy/spectral/spectral_image_processing_1d.py
+++ b/resippy/spectral/spectral_image_processing_1d.py
@@ -165,6 +165,10 @@ def ace_demeaned(demeaned_image,            # type: ndarray
 def sam(spectral_image,     # type: ndarray
         target_spectra      # type: ndarray
         ):                  # type: (...) -> ndarray
+    # integer sensor counts overflow in the products below
+    target_spectra = np.multiply(target_spectra, 1.0)
+    spectral_image = np.multiply(spectral_image, 1.0)
+
     # Python 3.5+
     # numerator = target_spectra @ spectral_image.transpose()
     # Python 2.7 - 3.4
-- 
2.43.0


From 6d3aaa1176f36682b4b757c0aba5ef6c7d8cb344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 03/96] fix: covariance equalization transform of 2-D cubes
 crashed when no mask was given

---
 resippy/spectral/spectral_image_processing_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/spectral/spectral_image_processing_2d.py b/resippy/spectral/spectral_image_processing_2d.py
index ef5c91d..f8b931f 100644
--- a/resippy/spectral/spectral_image_processing_2d.py
+++ b/resippy/spectral/spectral_image_processing_2d.py
@@ -146,8 +146,8 @@ def compute_cov_eq_linear_transform_matrix(input_scene,                 # type:
                                            ):                           # type: (...) -> ndarray
     flattened_1 = spectral_tools.flatten_image_cube(input_scene)
     flattened_2 = spectral_tools.flatten_image_cube(scene_to_match)
-    flattened_mask_1 = image_utils.flatten_image_band(input_scene_mask)
-    flattened_mask_2 = image_utils.flatten_image_band(scene_to_match_mask)
+    flattened_mask_1 = None if input_scene_mask is None else image_utils.flatten_image_band(input_scene_mask)
+    flattened_mask_2 = None if scene_to_match_mask is None else image_utils.flatten_image_band(scene_to_match_mask)
     big_l = spectral_image_processing_1d.compute_cov_eq_linear_transform_matrix(flattened_1,
                                                                                 flattened_2,
                                                                                 flattened_mask_1,
-- 
2.43.0


From 99419c34556de31a87c2e92bc235bdadd02fa957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 04/96] fix: principal components overwrote the caller's image
 cube

---
 resippy/spectral/spectral_image_processing_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/spectral/spectral_image_processing_2d.py b/resippy/spectral/spectral_image_processing_2d.py
index f8b931f..1f6aff6 100644
--- a/resippy/spectral/spectral_image_processing_2d.py
+++ b/resippy/spectral/spectral_image_processing_2d.py
@@ -22,7 +22,7 @@ def compute_image_cube_pca(spectral_image,      # type: ndarray
     #                      copy=False)
     pca = PCA(n_components=n_components,
                          whiten=whiten,
-                         copy=False)
+                         copy=True)
 
     xformed = pca.fit_transform(prepped_cube)
     nsamp, ncomp = xformed.shape
-- 
2.43.0


From 1dec67d5c74a03bb114e226015db245d13ecc93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 05/96] fix: GPS time depended on the time zone of the process
 (leap second table and epochs were local times)

---
 resippy/utils/time_utils.py | 44 ++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/resippy/utils/time_utils.py b/resippy/utils/time_utils.py
index 167a7cc..f8786e4 100644
--- a/resippy/utils/time_utils.py
+++ b/resippy/utils/time_utils.py
@@ -1,33 +1,33 @@
-from datetime import datetime, timedelta
+from datetime import datetime, timedelta, timezone
 from bisect import bisect_right
 import math
 
 # table of UTC leap second insertions since 1980 (http://hpiers.obspm.fr/eop-pc/index.php?index=TAI-UTC_tab&lang=en)
 _LEAPSECONDS = [
-    (datetime(1980, 1, 1).timestamp(), timedelta(seconds=19)),
-    (datetime(1981, 7, 1).timestamp(), timedelta(seconds=20)),
-    (datetime(1982, 7, 1).timestamp(), timedelta(seconds=21)),
-    (datetime(1983, 7, 1).timestamp(), timedelta(seconds=22)),
-    (datetime(1985, 7, 1).timestamp(), timedelta(seconds=23)),
-    (datetime(1988, 1, 1).timestamp(), timedelta(seconds=24)),
-    (datetime(1990, 1, 1).timestamp(), timedelta(seconds=25)),
-    (datetime(1991, 1, 1).timestamp(), timedelta(seconds=26)),
-    (datetime(1992, 7, 1).timestamp(), timedelta(seconds=27)),
-    (datetime(1993, 7, 1).timestamp(), timedelta(seconds=28)),
-    (datetime(1994, 7, 1).timestamp(), timedelta(seconds=29)),
-    (datetime(1996, 1, 1).timestamp(), timedelta(seconds=30)),
-    (datetime(1997, 7, 1).timestamp(), timedelta(seconds=31)),
-    (datetime(1999, 1, 1).timestamp(), timedelta(seconds=32)),
-    (datetime(2006, 1, 1).timestamp(), timedelta(seconds=33)),
-    (datetime(2009, 1, 1).timestamp(), timedelta(seconds=34)),
-    (datetime(2012, 7, 1).timestamp(), timedelta(seconds=35)),
-    (datetime(2015, 7, 1).timestamp(), timedelta(seconds=36)),
-    (datetime(2017, 1, 1).timestamp(), timedelta(seconds=37))
+    (datetime(1980, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=19)),
+    (datetime(1981, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=20)),
+    (datetime(1982, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=21)),
+    (datetime(1983, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=22)),
+    (datetime(1985, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=23)),
+    (datetime(1988, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=24)),
+    (datetime(1990, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=25)),
+    (datetime(1991, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=26)),
+    (datetime(1992, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=27)),
+    (datetime(1993, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=28)),
+    (datetime(1994, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=29)),
+    (datetime(1996, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=30)),
+    (datetime(1997, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=31)),
+    (datetime(1999, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=32)),
+    (datetime(2006, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=33)),
+    (datetime(2009, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=34)),
+    (datetime(2012, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=35)),
+    (datetime(2015, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=36)),
+    (datetime(2017, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=37))
 ]
 
 # reference epoch for GPS and UTC time
-_GPS_EPOCH = datetime(1980, 1, 6)
-_UNIX_EPOCH = datetime(1970, 1, 1)
+_GPS_EPOCH = datetime(1980, 1, 6, tzinfo=timezone.utc)
+_UNIX_EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
 
 # other constants
 _SECONDS_IN_MINUTE = 60
-- 
2.43.0


From 13c1c780996c3d8714ea87bfeb918c34528f92d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 06/96] fix: GPS to UTC was one second off in the seconds
 before a leap second

---
 resippy/utils/time_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/time_utils.py b/resippy/utils/time_utils.py
index f8786e4..af26e9a 100644
--- a/resippy/utils/time_utils.py
+++ b/resippy/utils/time_utils.py
@@ -60,7 +60,9 @@ def utc_timestamp_to_gps_timestamp(utc_timestamp    # type: float
 def gps_timestamp_to_utc_timestamp(gps_timestamp    # type: float
                                    ):               # type: (...) -> float
     utc_timestamp_with_leap = gps_timestamp + (_GPS_EPOCH.timestamp() - _UNIX_EPOCH.timestamp())
-    return utc_timestamp_with_leap - _get_gps_leapsecond_offset(utc_timestamp_with_leap).total_seconds()
+    utc_timestamp = utc_timestamp_with_leap - _get_gps_leapsecond_offset(utc_timestamp_with_leap).total_seconds()
+    # the first lookup used a time that is ahead of UTC, and may have passed a leap second that UTC has not reached
+    return utc_timestamp_with_leap - _get_gps_leapsecond_offset(utc_timestamp).total_seconds()
 
 
 def utc_timestamp_to_gps_week_and_seconds(utc_timestamp     # type: float
-- 
2.43.0


From dd50f67ebf4dc80f8a7f1c9218cb8f7d53327b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 07/96] fix: chipping without a band selection used numpy.int,
 which numpy has removed

---
 resippy/utils/image_utils/image_chipper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/image_utils/image_chipper.py b/resippy/utils/image_utils/image_chipper.py
index afe9b84..90e6407 100644
--- a/resippy/utils/image_utils/image_chipper.py
+++ b/resippy/utils/image_utils/image_chipper.py
@@ -86,7 +86,7 @@ def chip_images_by_pixel_upper_lefts(input_image,                   # type: ndar
     n_chips = len(pixel_y_ul_list)
 
     if bands is None:
-        bands = np.arange(0, nbands).astype(np.int)
+        bands = np.arange(0, nbands).astype(int)
     else:
         nbands = len(bands)
 
-- 
2.43.0


From 5c1d3c86139c638381a0e71d25935540e0bddafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 08/96] fix: writing grayscale chips to disk crashed

---
 resippy/utils/image_utils/image_chipper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_chipper.py b/resippy/utils/image_utils/image_chipper.py
index 90e6407..362e0f4 100644
--- a/resippy/utils/image_utils/image_chipper.py
+++ b/resippy/utils/image_utils/image_chipper.py
@@ -146,10 +146,10 @@ def write_chips_to_disk(image_chips,            # type: ndarray
         base_chip_fname = os.path.basename(output_dir)
     n_chips = get_nchips(image_chips)
     for i in range(n_chips):
-        chip = image_chips[i, :, :, :]
+        chip = image_chips[i]
         if output_chip_ny is not None:
             chip = image_utils.resize_image(chip, output_chip_ny, output_chip_nx)
-        if remove_alpha is True and chip.shape[-1] == 4:
+        if remove_alpha is True and chip.ndim == 3 and chip.shape[-1] == 4:
             chip = chip[:, :, 0:3]
         chip_fname = base_chip_fname + "_" + str(i).zfill(8)
         if fnames_list is not None:
-- 
2.43.0


From 3a4c8fb7b8439d2ac07162ad98dff9a594646e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 09/96] fix: normalizing signed integer images overflowed

---
 resippy/utils/image_utils/image_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 6accb45..121f848 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -123,8 +123,8 @@ def gdal_grid_image_band(image_to_warp,  # type: ndarray
 
 
 def normalize_grayscale_image(input_image, new_min, new_max, output_dtype=None):
-    image_min = np.min(input_image)
-    image_max = np.max(input_image)
+    image_min = float(np.min(input_image))
+    image_max = float(np.max(input_image))
     image_zero_to_one = (input_image - image_min)/(image_max-image_min)
     normalized_image = image_zero_to_one * (new_max - new_min) + new_min
     if output_dtype is None:
-- 
2.43.0


From ef6da4882261239b297e40d77c3a43236dbc00b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 10/96] fix: colormapping with more than 128 bins overflowed
 the index map

---
 resippy/utils/image_utils/image_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 121f848..284b5be 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -205,8 +205,8 @@ def apply_colormap_to_grayscale_image(grayscale_image,  # type: ndarray
         max_clip = min_clip + (max_clip - min_clip) * (n_bins - 1) / n_bins
 
     palette_indices = np.linspace(min_clip, max_clip, n_bins)
-    image_low_index_map = np.zeros(grayscale_image.shape, dtype=np.int8)
-    image_high_index_map = np.zeros(grayscale_image.shape, dtype=np.int8)
+    image_low_index_map = np.zeros(grayscale_image.shape, dtype=int)
+    image_high_index_map = np.zeros(grayscale_image.shape, dtype=int)
     image_low_palette_index = np.zeros(grayscale_image.shape)
     image_high_palette_index = np.zeros(grayscale_image.shape)
 
-- 
2.43.0


From c45b853ee9dcfe89a868ac72415c1d8bbcf5b72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 11/96] fix: discrete colormapping of signed integer images
 overflowed

---
 resippy/utils/image_utils/image_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 284b5be..8a9a1d7 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -186,6 +186,7 @@ def apply_colormap_to_grayscale_image(grayscale_image,  # type: ndarray
             max_clip = np.nanmax(grayscale_image[good_inds])
         else:
             max_clip = np.nanmax(grayscale_image)
+    min_clip, max_clip = float(min_clip), float(max_clip)
     color_palette = np.asarray(color_palette)
 
     if n_bins is not None:
-- 
2.43.0


From f85b23e69cc14e7d35d6e13dc5cd203726273f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 12/96] fix: higher-order image warping mixed nodata into the
 image and clipped nodata to the image range

---
 resippy/utils/image_utils/image_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 8a9a1d7..c714e29 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -48,8 +48,12 @@ def grid_warp_image_band(image_to_warp,  # type: ndarray
     else:
         raise ValueError("Interpolation not supported: " + interpolation)
 
+    # nodata is filled in afterwards, so that it takes no part in the interpolation and is not clipped to the image range
     warped_image = sktransform.warp(image_to_warp, coords, preserve_range=True,
-                                    mode='constant', cval=nodata_val, order=order)
+                                    mode='edge', order=order)
+    ny, nx = np.shape(image_to_warp)[:2]
+    inside = (coords[0] >= -0.5) & (coords[0] <= ny - 0.5) & (coords[1] >= -0.5) & (coords[1] <= nx - 0.5)
+    warped_image[~inside] = nodata_val
     return warped_image
 
 
-- 
2.43.0


From df19e0baaf914ca780052e13d40bd9b59d435be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 13/96] fix: writing an empty text list crashed and a trailing
 empty entry was lost

---
 resippy/utils/file_utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/resippy/utils/file_utils.py b/resippy/utils/file_utils.py
index 591d780..97609ea 100644
--- a/resippy/utils/file_utils.py
+++ b/resippy/utils/file_utils.py
@@ -78,7 +78,6 @@ def write_text_list_to_file(text_list,  # type: list
                             output_fname,  # type: str
                             ):              # type: (...) -> None
     text_list_with_newlines = [entry + '\n' for entry in text_list]
-    text_list_with_newlines[-1] = text_list[-1]
     with open(output_fname, 'w') as f:
         f.writelines(text_list_with_newlines)
 
-- 
2.43.0


From bc105a54740e98dd7f50b6ca29e79cb2d5f87595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 14/96] fix: files in a directory whose name has wildcard
 characters were not listed

---
 resippy/utils/file_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/file_utils.py b/resippy/utils/file_utils.py
index 97609ea..bcdc13f 100644
--- a/resippy/utils/file_utils.py
+++ b/resippy/utils/file_utils.py
@@ -33,7 +33,7 @@ def get_all_files_in_dir(directory,                     # type: str
 
     files = []
     for extension in sanitized_extensions:
-        fnames = glob.glob(directory + os.path.sep + "*." + extension)
+        fnames = glob.glob(glob.escape(directory) + os.path.sep + "*." + extension)
         files = files + fnames
     if return_fullpaths:
         return files
-- 
2.43.0


From aeb1dd176e7d59a65ebf68472837a07f2bb73485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 15/96] fix: ENVI bip and bsq images were written and read as
 zeros

---
 resippy/utils/envi_utils.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index a6260d9..2456c65 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -182,7 +182,6 @@ def write_envi_header(header_dict,      # type: dict
             f.write("\n")
 
 
-# TODO: add more interleave formats, only BIP is currently supported
 def write_envi_image(image_cube,                    # type: np.ndarray
                      output_fname,                  # type: str
                      output_header_fname=None,      # type: str
@@ -199,6 +198,12 @@ def write_envi_image(image_cube,                    # type: np.ndarray
                 data_chunk = image_cube[l, :, b]
                 raw_data[raw_data_counter:raw_data_counter+nx] = data_chunk
                 raw_data_counter = raw_data_counter+nx
+    elif interleave == 'bip':
+        raw_data[:] = image_cube.ravel()
+    elif interleave == 'bsq':
+        raw_data[:] = np.transpose(image_cube, (2, 0, 1)).ravel()
+    else:
+        raise ValueError("Interleave not supported: " + str(interleave))
     raw_data.tofile(output_fname)
 
     envi_dtype = numpy_dtype_to_envi_dtype(image_cube.dtype)
@@ -256,4 +261,10 @@ def construct_image_cube_from_raw_data(raw_envi_data,       # type: np.ndarray
                 data_chunk = raw_envi_data[raw_data_counter:raw_data_counter+nx]
                 image_cube[l, :, b] = data_chunk
                 raw_data_counter = raw_data_counter+nx
+    elif interleave == 'bip':
+        image_cube[:] = np.reshape(raw_envi_data[0:ny*nx*nbands], (ny, nx, nbands))
+    elif interleave == 'bsq':
+        image_cube[:] = np.transpose(np.reshape(raw_envi_data[0:ny*nx*nbands], (nbands, ny, nx)), (1, 2, 0))
+    else:
+        raise ValueError("Interleave not supported: " + str(interleave))
     return image_cube
-- 
2.43.0


From 03ad8d685902cf2e0a0c008b576b4bff9516b520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 16/96] fix: ENVI data type codes of complex images were wrong
 (6 is complex64, 9 is complex128)

---
 resippy/utils/envi_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 2456c65..3342c7f 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -8,10 +8,10 @@ ENVI_DTYPES_TO_NUMPY = {"1": np.uint8,
                         "3": np.int32,
                         "4": np.float32,
                         "5": np.float64,
-                        "6": None,
+                        "6": np.complex64,
                         "7": None,
                         "8": None,
-                        "9": np.complex64,
+                        "9": np.complex128,
                         "10": None,
                         "11": None,
                         "12": np.uint16,
-- 
2.43.0


From 64020d9902ff2f5bb808a2a908cf358a8b9f19cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 17/96] fix: ENVI header entries were lost without a final
 newline, or refused when the value contains an equals sign

---
 resippy/utils/envi_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 3342c7f..38683b3 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -87,7 +87,8 @@ def read_envi_header(header_fname,      # type: str
     with open(header_fname, 'r') as content_file:
         header_text = content_file.read()
 
-    header_text = string_utils.cleanup_newlines(header_text)
+    # the last entry has to be terminated too
+    header_text = string_utils.cleanup_newlines(header_text) + os.linesep
 
     envi_header_dict = {}
 
@@ -131,7 +132,7 @@ def read_envi_header(header_fname,      # type: str
         elif is_equals_entry(header_text):
             linesep_index = header_text.find(os.linesep)
             entry_text = header_text[0:linesep_index]
-            key, val = entry_text.split('=')
+            key, val = entry_text.split('=', 1)
             header_text = header_text[linesep_index + 1:]
 
         elif entry_has_newline(header_text):
-- 
2.43.0


From dda18432af7b9d31c8886d303d4f07b8c06f0d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 18/96] fix: ENVI byte order and header offset were ignored
 when reading an image

---
 resippy/utils/envi_utils.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 38683b3..7a4efb4 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -235,17 +235,22 @@ def read_envi_image(image_file,             # type: str
     nbands = int(envi_header['bands'])
     envi_dtype = envi_header['data type']
     interleave = envi_header['interleave']
-    envi_image_data = read_all_image_data_to_numpy_array(image_file, envi_dtype)
+    byte_order = envi_header.get('byte order', 0)
+    header_offset = envi_header.get('header offset', 0)
+    envi_image_data = read_all_image_data_to_numpy_array(image_file, envi_dtype, byte_order, header_offset)
     image_cube = construct_image_cube_from_raw_data(envi_image_data, nx, ny, nbands, interleave)
     return image_cube
 
 
 def read_all_image_data_to_numpy_array(envi_image_path,     # type: str
                                        envi_dtype,          # type: int
+                                       byte_order=0,        # type: int
+                                       header_offset=0,     # type: int
                                        ):                   # type: (...) -> np.ndarray
-    numpy_dtype = envi_dtype_to_numpy_dtype(envi_dtype)
-    numpy_data = np.fromfile(envi_image_path, numpy_dtype)
-    return numpy_data
+    numpy_dtype = np.dtype(envi_dtype_to_numpy_dtype(envi_dtype))
+    file_dtype = numpy_dtype.newbyteorder('>' if byte_order == 1 else '<')
+    numpy_data = np.fromfile(envi_image_path, file_dtype, offset=header_offset)
+    return numpy_data.astype(numpy_dtype)
 
 
 def construct_image_cube_from_raw_data(raw_envi_data,       # type: np.ndarray
-- 
2.43.0


From 337044ef59fb6c72f74ddc22b687e7251e5fedb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 19/96] fix: a truncated ENVI image was accepted when a single
 sample of its last row was left

---
 resippy/utils/envi_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 7a4efb4..dcdfe7f 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -259,6 +259,8 @@ def construct_image_cube_from_raw_data(raw_envi_data,       # type: np.ndarray
                                        nbands,              # type: int
                                        interleave,          # type: str
                                        ):                   # type: (...) -> np.ndarray
+    if raw_envi_data.size < ny*nx*nbands:
+        raise ValueError("The image data has fewer samples than lines * samples * bands")
     image_cube = np.zeros((ny, nx, nbands), dtype=raw_envi_data.dtype)
     if interleave == 'bil':
         raw_data_counter = 0
-- 
2.43.0


From b4d1367491cf23b3e32e21b1d05936d3d8b0e3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 20/96] fix: angles recovered from a rotation matrix were NaN
 for angles near zero, imprecise, or wrong beyond 90 degrees of pitch
 composition

---
 resippy/utils/photogrammetry_utils.py | 33 ++++++++-------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index 6d81595..271bc7a 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -167,31 +167,18 @@ def create_M_matrix(omega_radians,      # type: float
 def solve_for_omega_phi_kappa(m_matrix,  # type: ndarray
                               ):  # type: (...) -> tuple
 
-    # m11 = cos(phi) * cos(kappa)
+    # m_matrix = m_kappa @ m_phi @ m_omega, so:
     # m31 = sin(phi)
+    # m32 = -1.0 * sin(omega) * cos(phi)
     # m33 = cos(omega) * cos(phi)
-    # m32 = -1.0 * np.sin(omega) * np.cos(phi)
-    # m21 = -1.0 * np.cos(phi) * np.sin(kappa)
-
-    # 3 equations, 3 unknowns
-    m11 = m_matrix[0, 0]
-    m31 = m_matrix[2, 0]
-    m33 = m_matrix[2, 2]
-    m32 = m_matrix[2, 1]
-    m21 = m_matrix[1, 0]
-
-    phi = np.arcsin(m31)
-    cos_phi = np.cos(phi)
-    kappa = np.arccos(m11 / cos_phi)
-    omega = np.arccos(m33 / cos_phi)
-    # if np.isnan(kappa):
-    #     kappa = 0
-    # if np.isnan(omega):
-    #     omega = 0
-    if m32 > 0:
-        omega = -omega
-    if m21 > 0:
-        kappa = -kappa
+    # and the second column of m_matrix @ m_omega.T is [sin(kappa), cos(kappa), 0]
+    m12, m13 = m_matrix[0, 1], m_matrix[0, 2]
+    m22, m23 = m_matrix[1, 1], m_matrix[1, 2]
+    m31, m32, m33 = m_matrix[2, 0], m_matrix[2, 1], m_matrix[2, 2]
+
+    phi = np.arctan2(m31, np.hypot(m32, m33))
+    omega = np.arctan2(-m32, m33)
+    kappa = np.arctan2(m12 * np.cos(omega) + m13 * np.sin(omega), m22 * np.cos(omega) + m23 * np.sin(omega))
 
     return omega, phi, kappa
 
-- 
2.43.0


From 95ee3b85fadfb7494d6fc898076707d241ca5676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 21/96] fix: an unknown rotation order gave a zero matrix
 instead of an error

---
 resippy/utils/photogrammetry_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index 271bc7a..dfd2366 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -160,6 +160,8 @@ def create_M_matrix(omega_radians,      # type: float
             m_matrix = m_phi @ m_omega @ m_kappa
         elif order == 'ypr':
             m_matrix = m_omega @ m_phi @ m_kappa
+        else:
+            raise ValueError("unknown rotation order: " + str(order))
 
         return m_matrix
 
-- 
2.43.0


From 5064735cf41aeeb82f408ab2cbe3db3c5690fbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 22/96] fix: the local UTM projection of a position was refused
 by PROJ (zone given with its latitude band letter)

---
 resippy/utils/proj_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/utils/proj_utils.py b/resippy/utils/proj_utils.py
index f1d1bb2..e6d5faa 100644
--- a/resippy/utils/proj_utils.py
+++ b/resippy/utils/proj_utils.py
@@ -29,8 +29,8 @@ def decimal_degrees_to_local_utm_proj(lon_decimal_degrees,      # type: float
                                       lat_decimal_degrees,      # type: float
                                       ):                        # type: (...) -> Proj
     zone_info = utm.from_latlon(lat_decimal_degrees, lon_decimal_degrees)
-    zone_string = str(zone_info[2]) + zone_info[3]
-    zone_letter = zone_string[-1]
+    zone_number = zone_info[2]
+    zone_letter = zone_info[3]
     is_south_zone = zone_letter < 'N'
-    local_proj = Proj(proj='utm', ellps='WGS84', zone=zone_string, south=is_south_zone)
+    local_proj = Proj(proj='utm', ellps='WGS84', zone=zone_number, south=is_south_zone)
     return local_proj
-- 
2.43.0


From 6fc6bf8812983be904b96493dca0f98ddac9c4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 23/96] fix: the nineteenth RPC00B term used lat^2*lon instead
 of lat^2*height

---
 .../earth_overhead_point_calculators/rpc_point_calc.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
index 0f27d9d..83bf413 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
@@ -182,7 +182,7 @@ class RPCPointCalc(AbstractEarthOverheadPointCalc):
 
         p = a1 + a2*y + a3*x + a4*z + a5*xy + a6*yz + a7*xz + a8 * y_squared + \
             a9*x_squared + a10*z_squared + a11*x*y*z + a12*y_cubed + a13*y*x_squared + a14*y*z_squared + \
-            a15*y_squared*x + a16*x_cubed + a17*x*z_squared + a18*y_squared*z + a19*x_squared*y + a20*z_cubed
+            a15*y_squared*x + a16*x_cubed + a17*x*z_squared + a18*y_squared*z + a19*x_squared*z + a20*z_cubed
         return p
 
     def _lon_lat_alt_to_pixel_x_y_native(self,
-- 
2.43.0


From 3edd87b281e856c040a94ac3f2132dbd6b5a473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 24/96] fix: the Pix4D camera used the second radial distortion
 coefficient in place of the third

---
 .../earth_overhead_point_calculators/pix4d_point_calc.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
index adc58ea..6931343 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
@@ -100,7 +100,7 @@ class Pix4dPointCalc(AbstractEarthOverheadPointCalc):
         point_calc.tangential_distortion_2 = all_params[image_key_basename]['tangential_distortion'][1]
         point_calc.radial_distortion_1 = all_params[image_key_basename]['radial_distortion'][0]
         point_calc.radial_distortion_2 = all_params[image_key_basename]['radial_distortion'][1]
-        point_calc.radial_distortion_3 = all_params[image_key_basename]['radial_distortion'][1]
+        point_calc.radial_distortion_3 = all_params[image_key_basename]['radial_distortion'][2]
         point_calc.distortion_model = distortion_model
 
         approximate_lon = all_params[image_key_basename]['external_params'][0]
-- 
2.43.0


From 940e9ff35fce8acc03a46ebd998aae892ffb8fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 25/96] fix: pixel to ground conversion failed for cameras
 rotated by 90 degrees (division by a vanishing partial derivative)

---
 .../abstract_earth_overhead_point_calc.py                    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 0266a9b..b93347a 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -272,8 +272,9 @@ class AbstractEarthOverheadPointCalc:
             delta_px = pixel_xs - pixel_x_estimate
             delta_py = pixel_ys - pixel_y_estimate
 
-            delta_lat = (delta_py * pxx - pyx * delta_px) / (pyy * pxx - pxy * pyx)
-            delta_lon = (delta_px - delta_lat * pxy) / pxx
+            determinant = pyy * pxx - pxy * pyx
+            delta_lat = (delta_py * pxx - pyx * delta_px) / determinant
+            delta_lon = (delta_px * pyy - delta_py * pxy) / determinant
 
             new_lons = lons + delta_lon
             new_lats = lats + delta_lat
-- 
2.43.0


From 517c5b4cb0deeef575d558800c1dfed4255724ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 26/96] fix: pixel to ground conversion of RPC sensors returned
 NaN or unconverged positions (step of 2 degrees taken whenever any trial
 shift overflowed)

---
 .../abstract_earth_overhead_point_calc.py     | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index b93347a..7bba6c0 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -240,20 +240,18 @@ class AbstractEarthOverheadPointCalc:
             machine_pixels_lat_x_diff = machine_lat_pixels_x - machine_pixel_lon_lat[0]
             machine_pixels_lat_y_diff = machine_lat_pixels_y - machine_pixel_lon_lat[1]
 
-            # find the first index where a shift in longitude is greater than 1 pixel
-            # TODO: this is broken in some cases.  fix and add unit tests.
-            if np.isnan(machine_pixels_lon_x_diff).max() and np.isnan(machine_pixels_lon_x_diff).max():
+            # find the first indices where a shift in longitude or latitude is greater than 1 pixel, very large shifts
+            # may have no finite pixel location, and are never greater in the comparisons below
+            lon_gt1_pixel_indices = np.where(np.square(machine_pixels_lon_x_diff) +
+                                             np.square(machine_pixels_lon_y_diff) > np.square(d_pixel))[0]
+            lat_gt1_pixel_indices = np.where(np.square(machine_pixels_lat_x_diff) +
+                                             np.square(machine_pixels_lat_y_diff) > np.square(d_pixel))[0]
+            if len(lon_gt1_pixel_indices) == 0 or len(lat_gt1_pixel_indices) == 0:
                 d_lon = 2
                 d_lat = 2
             else:
-                lon_gt1_pixel_index = (np.where(np.square(machine_pixels_lon_x_diff) +
-                                                np.square(machine_pixels_lon_y_diff) > np.square(d_pixel))[0])[0]
-                d_lon = machine_d_lons[lon_gt1_pixel_index] - approximate_lon
-
-                # find the first index where a shift in longitude is greater than 1 pixel
-                lat_gt1_pixel_index = (np.where(np.square(machine_pixels_lat_x_diff) +
-                                                np.square(machine_pixels_lat_y_diff) > np.square(d_pixel))[0])[0]
-                d_lat = machine_d_lats[lat_gt1_pixel_index] - approximate_lat
+                d_lon = machine_d_lons[lon_gt1_pixel_indices[0]] - approximate_lon
+                d_lat = machine_d_lats[lat_gt1_pixel_indices[0]] - approximate_lat
 
         for i in range(max_iter):
             pixel_x_estimate, pixel_y_estimate = self.lon_lat_alt_to_pixel_x_y(lons, lats, alts, band=band)
-- 
2.43.0


From 1fa4395529501f5d47680cf9a85f9f28c79fdcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 27/96] fix: warping an in-memory image without an output name
 crashed, and warped images shared one file

---
 .../image_objects/earth_overhead/geotiff/geotiff_image.py    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 7b6244f..d87a3e3 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -1,5 +1,7 @@
 from __future__ import division
 
+import uuid
+
 import gdal
 import numpy as np
 import osr
@@ -153,7 +155,8 @@ class GeotiffImage(AbstractEarthOverheadImage):
             src_dataset = image.get_gdal_mem_datset()
 
         if dst_fname is None:
-            dst_fname="/vsimem/tmp_gdalwarp_geotiff.vrt"
+            # every image needs its own copy of the warped data
+            dst_fname = "/vsimem/gdalwarp_geotiff_" + uuid.uuid4().hex + ".tif"
 
         dst_dataset = gdal.Warp(dst_fname, src_dataset, options=warp_ops)
         src_dataset = None
-- 
2.43.0


From 61c8d5665d9d6a21c4deee470cc5abaa68382932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 28/96] fix: changing the vertical datum of a GeoTIFF called an
 undefined function, and took None for the EPSG code of the projection

---
 .../earth_overhead/geotiff/geotiff_image.py          | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index d87a3e3..986ab44 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -4,7 +4,6 @@ import uuid
 
 import gdal
 import numpy as np
-import osr
 from numpy import ndarray
 from osgeo import gdal_array
 from pyproj import Proj
@@ -170,14 +169,13 @@ class GeotiffImage(AbstractEarthOverheadImage):
                                  dst_fname,         # type: str
                                  datum_epsg_code    # type: str
                                  ):                 # type: (...) -> GeotiffImage
-        proj4_srs = geotiff_image.get_point_calculator().get_projection().srs
-        srs = osr.SpatialReference()
-        srs.ImportFromProj4(proj4_srs)
-        srs.AutoIdentifyEPSG()
-        dst_epsg = 'EPSG:' + str(srs.GetAuthorityCode(None)) + "+" + str(datum_epsg_code)
+        horizontal_epsg_code = geotiff_image.get_point_calculator().get_projection().crs.to_epsg()
+        if horizontal_epsg_code is None:
+            raise ValueError("the projection of the image has no EPSG code")
+        dst_epsg = 'EPSG:' + str(horizontal_epsg_code) + "+" + str(datum_epsg_code)
 
         ops = gdal.WarpOptions(dstSRS=dst_epsg)
-        return gdalwarp_geoTiffImage(geotiff_image, dst_fname, ops)
+        return GeotiffImage.gdalwarp_geotiff_image(geotiff_image, ops, dst_fname)
 
     def create_map_tiles(self, out_dir, gdalwarp_ops=None):
         # keep this import statement in here until all OS / pip related issues with installing gdal2tiles are resolved.
-- 
2.43.0


From c73ef28140b626e338d1109ca12447692981d096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 29/96] fix: no-data values of GeoTIFF images were truncated to
 integers, and NaN crashed

---
 .../earth_overhead/geotiff/geotiff_image.py          | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 986ab44..1f5dae2 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -7,6 +7,7 @@ import numpy as np
 from numpy import ndarray
 from osgeo import gdal_array
 from pyproj import Proj
+from typing import Union
 
 from resippy.image_objects.earth_overhead.abstract_earth_overhead_image import AbstractEarthOverheadImage
 from resippy.image_objects.earth_overhead.geotiff.geotiff_metadata import GeotiffMetadata
@@ -99,6 +100,13 @@ class GeotiffImage(AbstractEarthOverheadImage):
         band = self._dset.GetRasterBand(band_number + 1)
         return band.ReadAsArray()
 
+    def _get_gdal_nodata_val(self):  # type: (...) -> Union[int, float]
+        nodata_val = float(self.get_metadata().get_nodata_val())
+        # integer bands only take integers
+        if nodata_val.is_integer():
+            return int(self.get_metadata().get_nodata_val())
+        return nodata_val
+
     def get_gdal_mem_datset(self):  # type: (...) -> gdal.Dataset
         driver = gdal.GetDriverByName('MEM')
         dtype = self.get_metadata().get_gdal_datatype()
@@ -116,7 +124,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
         for band in range(self.get_metadata().get_n_bands()):
             dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
             if self.get_metadata().get_nodata_val() is not None:
-                dataset.GetRasterBand(band + 1).SetNoDataValue(int(self.get_metadata().get_nodata_val()))
+                dataset.GetRasterBand(band + 1).SetNoDataValue(self._get_gdal_nodata_val())
         return dataset
 
     def write_to_disk(self,
@@ -140,7 +148,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
         for band in range(self.get_metadata().get_n_bands()):
             dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
             if self.get_metadata().get_nodata_val() is not None:
-                dataset.GetRasterBand(band + 1).SetNoDataValue(int(self.get_metadata().get_nodata_val()))
+                dataset.GetRasterBand(band + 1).SetNoDataValue(self._get_gdal_nodata_val())
         dataset.FlushCache()
         dataset = None
 
-- 
2.43.0


From 272a2a1574266df76c52e99c020c3b8d762d7205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 30/96] fix: map tiles of a GeoTIFF could not be made (the
 image was not handed to the warp, whose output could not hold it)

---
 .../image_objects/earth_overhead/geotiff/geotiff_image.py    | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 1f5dae2..557b62b 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -188,10 +188,9 @@ class GeotiffImage(AbstractEarthOverheadImage):
     def create_map_tiles(self, out_dir, gdalwarp_ops=None):
         # keep this import statement in here until all OS / pip related issues with installing gdal2tiles are resolved.
         import gdal2tiles
-        tmp_filename = "/tmp/tmp_gdalwarp.tif"
         gdal_warp_options = gdal.WarpOptions(dstSRS="EPSG:3857")
-        mem_fname = "/vsimem/tmp_gdalwarp_geotiff.vrt"
-        gtiff_3857 = self.gdalwarp_geotiff_image(gdal_warp_options, dst_fname=mem_fname) # type: GeotiffImage
+        mem_fname = "/vsimem/tmp_gdalwarp_geotiff.tif"
+        gtiff_3857 = self.gdalwarp_geotiff_image(self, gdal_warp_options, dst_fname=mem_fname) # type: GeotiffImage
         gdal2tiles.generate_tiles(mem_fname, out_dir)
 
     def close_image(self):  # type: (...) -> None
-- 
2.43.0


From d573e9d3b4cd58430581127d7e37cf32b3036b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 31/96] fix: the world extent of a rotated GeoTIFF was the box
 of two of its corners

---
 .../geotiff_point_calc.py                                 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/geotiff_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/geotiff_point_calc.py
index 25d1639..7fba3e0 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/geotiff_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/geotiff_point_calc.py
@@ -5,7 +5,7 @@ from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstr
 import gdal
 import osr
 from pyproj import Proj
-from shapely.geometry.geo import box, Polygon
+from shapely.geometry import Polygon
 import numpy as np
 from numpy import ndarray
 
@@ -134,7 +134,7 @@ class GeotiffPointCalc(AbstractEarthOverheadPointCalc):
         return srs.ExportToWkt()
 
     def get_world_extent_native(self):  # type: (...) -> Polygon
-        lon_ul, lat_ul = self._pixel_x_y_alt_to_lon_lat_native(0, 0)
-        lon_br, lat_br = self._pixel_x_y_alt_to_lon_lat_native(self._npix_x, self._npix_y)
-        world_poly = box(lon_ul, lat_br, lon_br, lat_ul)
+        lons, lats = self._pixel_x_y_alt_to_lon_lat_native(np.array([0, self._npix_x, self._npix_x, 0]),
+                                                           np.array([0, 0, self._npix_y, self._npix_y]))
+        world_poly = Polygon(list(zip(lons, lats)))
         return world_poly
-- 
2.43.0


From db230e12a17eb8ec5712d0a3abe3ac4dd560a947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 32/96] fix: bilinear terrain elevations were weighted by the
 distance to each post, so that the farthest post counted most, and points on
 a post divided by zero

---
 resippy/photogrammetry/dem/geotiff_dem.py | 55 ++++++++++-------------
 1 file changed, 24 insertions(+), 31 deletions(-)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 27f66a2..47f15bc 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -91,42 +91,35 @@ class GeotiffDem(AbstractDem):
             pixel_locs_x = np.reshape(pixel_locs_x, nx * ny)
             pixel_locs_y = np.reshape(pixel_locs_y, nx * ny)
 
-        if type(pixel_locs_x) is float:
-            pixel_locs_x = np.array(pixel_locs_x)
-            pixel_locs_y = np.array(pixel_locs_y)
-
-        # TODO implement other interpoloation methods, right now we just grab the closest pixels
-        if self.get_interpolation_method() is 'nearest':
-            pixel_locs_x = np.clip(pixel_locs_x.astype(int), a_min=0, a_max=self.gtiff.get_metadata().get_npix_x()-1)
-            pixel_locs_y = np.clip(pixel_locs_y.astype(int), a_min=0, a_max=self.gtiff.get_metadata().get_npix_y()-1)
+        pixel_locs_x = np.asarray(pixel_locs_x, dtype=float)
+        pixel_locs_y = np.asarray(pixel_locs_y, dtype=float)
+        npix_x = self.gtiff.get_metadata().get_npix_x()
+        npix_y = self.gtiff.get_metadata().get_npix_y()
+
+        # TODO implement other interpoloation methods
+        if self.get_interpolation_method() == 'nearest':
+            pixel_locs_x = np.clip(np.floor(pixel_locs_x), a_min=0, a_max=npix_x - 1).astype(int)
+            pixel_locs_y = np.clip(np.floor(pixel_locs_y), a_min=0, a_max=npix_y - 1).astype(int)
             elevations = self.dem_data[pixel_locs_y, pixel_locs_x]
-        elif self.get_interpolation_method() is 'bilinear':
-            # Do a bilinear interpolation between closest pixels by taking a weighted average
-            pixel_locs_x_1 = np.clip(pixel_locs_x.astype(int), a_min=0, a_max=self.gtiff.get_metadata().get_npix_x() - 1)
-            pixel_locs_y_1 = np.clip(pixel_locs_y.astype(int), a_min=0, a_max=self.gtiff.get_metadata().get_npix_y() - 1)
+        elif self.get_interpolation_method() == 'bilinear':
+            # Do a bilinear interpolation between the four closest posts, which are the centers of the pixels
+            post_locs_x = np.clip(pixel_locs_x - 0.5, a_min=0, a_max=npix_x - 1)
+            post_locs_y = np.clip(pixel_locs_y - 0.5, a_min=0, a_max=npix_y - 1)
 
-            pixel_locs_x_2 = np.clip(np.ceil(pixel_locs_x).astype(int), a_min=0, a_max=self.gtiff.get_metadata().get_npix_x() - 1)
-            pixel_locs_y_2 = np.clip(np.ceil(pixel_locs_y).astype(int), a_min=0, a_max=self.gtiff.get_metadata().get_npix_y() - 1)
+            post_locs_x_1 = np.floor(post_locs_x).astype(int)
+            post_locs_y_1 = np.floor(post_locs_y).astype(int)
 
-            elevations_y1x1 = self.dem_data[pixel_locs_y_1, pixel_locs_x_1]
-            elevations_y1x2 = self.dem_data[pixel_locs_y_1, pixel_locs_x_2]
-            elevations_y2x1 = self.dem_data[pixel_locs_y_2, pixel_locs_x_1]
-            elevations_y2x2 = self.dem_data[pixel_locs_y_2, pixel_locs_x_2]
+            post_locs_x_2 = np.ceil(post_locs_x).astype(int)
+            post_locs_y_2 = np.ceil(post_locs_y).astype(int)
 
-            x_distances_1 = pixel_locs_x - pixel_locs_x_1
-            x_distances_2 = pixel_locs_x_2 - pixel_locs_x
-            y_distances_1 = pixel_locs_y - pixel_locs_y_1
-            y_distances_2 = pixel_locs_y_2 - pixel_locs_y
+            x_weights_2 = post_locs_x - post_locs_x_1
+            y_weights_2 = post_locs_y - post_locs_y_1
 
-            distances_y1x1 = np.sqrt(np.square(y_distances_1) + np.square(x_distances_1))
-            distances_y1x2 = np.sqrt(np.square(y_distances_1) + np.square(x_distances_2))
-            distances_y2x1 = np.sqrt(np.square(y_distances_2) + np.square(x_distances_1))
-            distances_y2x2 = np.sqrt(np.square(y_distances_2) + np.square(x_distances_2))
-
-            elevations_arr = np.array((elevations_y1x1, elevations_y1x2, elevations_y2x1, elevations_y2x2))
-            weights_arr = np.array((distances_y1x1, distances_y1x2, distances_y2x1, distances_y2x2))
-
-            elevations = np.average(elevations_arr, weights=weights_arr, axis=0,)
+            elevations_y1 = self.dem_data[post_locs_y_1, post_locs_x_1] * (1 - x_weights_2) + \
+                self.dem_data[post_locs_y_1, post_locs_x_2] * x_weights_2
+            elevations_y2 = self.dem_data[post_locs_y_2, post_locs_x_1] * (1 - x_weights_2) + \
+                self.dem_data[post_locs_y_2, post_locs_x_2] * x_weights_2
+            elevations = elevations_y1 * (1 - y_weights_2) + elevations_y2 * y_weights_2
 
         else:
             TypeError("interpolation must be set to either 'nearest' or 'bilinear' "
-- 
2.43.0


From 6faaa77aa1c92a7678e1fd0f55e05e6106b7bd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 33/96] fix: unknown terrain interpolation methods were not
 refused

---
 resippy/photogrammetry/dem/dem_factory.py | 2 +-
 resippy/photogrammetry/dem/geotiff_dem.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/photogrammetry/dem/dem_factory.py b/resippy/photogrammetry/dem/dem_factory.py
index eaf753c..49eec31 100644
--- a/resippy/photogrammetry/dem/dem_factory.py
+++ b/resippy/photogrammetry/dem/dem_factory.py
@@ -25,7 +25,7 @@ class DemFactory:
         elif interpolation_method == 'nearest':
             gtiff_dem.set_interpolation_to_nearest()
         else:
-            TypeError("interpolation method should either be 'bilinear' or 'nearest'")
+            raise TypeError("interpolation method should either be 'bilinear' or 'nearest'")
         return gtiff_dem
 
     @staticmethod
diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 47f15bc..e748d10 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -122,8 +122,8 @@ class GeotiffDem(AbstractDem):
             elevations = elevations_y1 * (1 - y_weights_2) + elevations_y2 * y_weights_2
 
         else:
-            TypeError("interpolation must be set to either 'nearest' or 'bilinear' "
-                      "when getting elevations from a GeoTiff DEM")
+            raise TypeError("interpolation must be set to either 'nearest' or 'bilinear' "
+                            "when getting elevations from a GeoTiff DEM")
 
         # unflatten world_xyz arrays if the original inputs were 2d
         if world_xyz_is_2d:
-- 
2.43.0


From bfb5fa8570b0e8a5d0775e0db6e67e1dadaafcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 34/96] fix: points that cannot be projected got the elevation
 of the first post of the terrain model

---
 resippy/photogrammetry/dem/geotiff_dem.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index e748d10..4e601be 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -95,6 +95,9 @@ class GeotiffDem(AbstractDem):
         pixel_locs_y = np.asarray(pixel_locs_y, dtype=float)
         npix_x = self.gtiff.get_metadata().get_npix_x()
         npix_y = self.gtiff.get_metadata().get_npix_y()
+        outside_projection = np.logical_not(np.isfinite(pixel_locs_x) & np.isfinite(pixel_locs_y))
+        pixel_locs_x = np.where(outside_projection, 0, pixel_locs_x)
+        pixel_locs_y = np.where(outside_projection, 0, pixel_locs_y)
 
         # TODO implement other interpoloation methods
         if self.get_interpolation_method() == 'nearest':
@@ -125,6 +128,9 @@ class GeotiffDem(AbstractDem):
             raise TypeError("interpolation must be set to either 'nearest' or 'bilinear' "
                             "when getting elevations from a GeoTiff DEM")
 
+        if np.any(outside_projection):
+            elevations = np.where(outside_projection, np.nan, elevations)
+
         # unflatten world_xyz arrays if the original inputs were 2d
         if world_xyz_is_2d:
             elevations = np.reshape(elevations, (ny, nx))
-- 
2.43.0


From 787374366dd034cd0e83a1c1ca01401a74286c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 35/96] fix: removing no-data posts of an integer terrain model
 crashed

---
 resippy/photogrammetry/dem/geotiff_dem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 4e601be..301526d 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -64,7 +64,11 @@ class GeotiffDem(AbstractDem):
         self.nodata_value = nodata_value
         if self.nodata_value is not None:
             if self.dem_data is not None:
-                self.dem_data[np.where(self.dem_data == nodata_value)] = np.nan
+                nodata_posts = self.dem_data == nodata_value
+                if np.any(nodata_posts):
+                    if not np.issubdtype(self.dem_data.dtype, np.floating):
+                        self.dem_data = self.dem_data.astype(float)
+                    self.dem_data[nodata_posts] = np.nan
 
     def set_geotiff_image(self,
                           geotiff_image  # type: GeotiffImage
-- 
2.43.0


From 592468d4fcc9b71f9a7bb1c2b3c8d130caa55e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 36/96] fix: terrain models of one row or one column crashed

---
 resippy/photogrammetry/dem/geotiff_dem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 301526d..2adecb1 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -74,7 +74,9 @@ class GeotiffDem(AbstractDem):
                           geotiff_image  # type: GeotiffImage
                           ):  # type: (...) -> None
         self.gtiff = geotiff_image
-        self.dem_data = np.squeeze(self.gtiff.read_all_image_data_from_disk())
+        self.dem_data = self.gtiff.read_all_image_data_from_disk()
+        if self.dem_data.ndim == 3 and self.dem_data.shape[2] == 1:
+            self.dem_data = self.dem_data[:, :, 0]
         self.set_projection(self.gtiff.get_point_calculator().get_projection())
         self.remove_nodata_values(self.nodata_value)
 
-- 
2.43.0


From 493d79e838bdced3d55ae4f3bde6fd7176f1f1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 37/96] fix: terrain models had no projection or vertical
 reference to ask for

---
 resippy/photogrammetry/dem/constant_elevation_dem.py | 1 +
 resippy/photogrammetry/dem/geotiff_dem.py            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/resippy/photogrammetry/dem/constant_elevation_dem.py b/resippy/photogrammetry/dem/constant_elevation_dem.py
index ce82fd2..a120947 100644
--- a/resippy/photogrammetry/dem/constant_elevation_dem.py
+++ b/resippy/photogrammetry/dem/constant_elevation_dem.py
@@ -8,6 +8,7 @@ import resippy.photogrammetry.crs_defs as crs_defs
 
 class ConstantElevationDem(AbstractDem):
     def __init__(self, elevation=0):
+        super(ConstantElevationDem, self).__init__()
         self.elevation = elevation
 
     def get_elevations(self,
diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 2adecb1..efd1a99 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -10,6 +10,7 @@ import gdal
 
 class GeotiffDem(AbstractDem):
     def __init__(self):
+        super(GeotiffDem, self).__init__()
         self.dem_data = None
         self.gtiff = GeotiffImage
         self.nodata_value = None
-- 
2.43.0


From df842aea8f3dcd807c3109e955c015b29cbbd39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 38/96] fix: terrain models could not be made from an image
 held in memory

---
 resippy/photogrammetry/dem/geotiff_dem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index efd1a99..651268c 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -75,7 +75,10 @@ class GeotiffDem(AbstractDem):
                           geotiff_image  # type: GeotiffImage
                           ):  # type: (...) -> None
         self.gtiff = geotiff_image
-        self.dem_data = self.gtiff.read_all_image_data_from_disk()
+        if self.gtiff.get_dset() is None:
+            self.dem_data = np.array(self.gtiff.get_image_data())
+        else:
+            self.dem_data = self.gtiff.read_all_image_data_from_disk()
         if self.dem_data.ndim == 3 and self.dem_data.shape[2] == 1:
             self.dem_data = self.dem_data[:, :, 0]
         self.set_projection(self.gtiff.get_point_calculator().get_projection())
-- 
2.43.0


From 81615bcc70e44f04f119fb9ae00bc6babe69a983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 39/96] fix: casting rays onto terrain used numpy.int, which
 numpy has removed

---
 .../abstract_earth_overhead_point_calc.py                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 7bba6c0..5f318e7 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -361,7 +361,7 @@ class AbstractEarthOverheadPointCalc:
         all_elevations = dem.get_elevations(np.array(lons_matrix), np.array(lats_matrix), world_proj=self.get_projection())
 
         ray = np.linspace(max_alt, min_alt, n_steps_per_ray)
-        first_ray_intersect_indices = np.zeros(n_pixels_to_project, dtype=np.int)
+        first_ray_intersect_indices = np.zeros(n_pixels_to_project, dtype=int)
         ray_step_indices = list(range(n_steps_per_ray))
         ray_step_indices.reverse()
         for i in ray_step_indices:
-- 
2.43.0


From 3d290bf193c4f341d7f30f0248eed5bc9db94580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 40/96] fix: casting rays onto flat terrain, or vertical rays,
 crashed

---
 .../abstract_earth_overhead_point_calc.py             | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 5f318e7..90a92b0 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -335,9 +335,11 @@ class AbstractEarthOverheadPointCalc:
             min_alt = dem.get_lowest_alt()
         alt_range = max_alt - min_alt
 
-        # put the max and min alts at 1 percent above and below the maximum returned by the DEM
-        max_alt = max_alt + alt_range * 0.01
-        min_alt = min_alt - alt_range * 0.01
+        # put the max and min alts at 1 percent above and below the maximum returned by the DEM, flat terrain needs a
+        # margin too
+        alt_margin = alt_range * 0.01 if alt_range > 0 else 1.0
+        max_alt = max_alt + alt_margin
+        min_alt = min_alt - alt_margin
 
         lons_max_alt, lats_max_alt = self.pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, max_alt, band=band)
         lons_min_alt, lats_min_alt = self.pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, min_alt, band=band)
@@ -348,7 +350,8 @@ class AbstractEarthOverheadPointCalc:
 
         ray_horizontal_lens = np.sqrt(
             np.square(lons_max_alt - lons_min_alt) + np.square(lats_max_alt - lats_min_alt))
-        n_steps_per_ray = int(np.ceil(np.max(ray_horizontal_lens) / dem_sample_distance) + 1)
+        # vertical rays have no horizontal length, and need a sample at each of their ends
+        n_steps_per_ray = max(int(np.ceil(np.max(ray_horizontal_lens) / dem_sample_distance) + 1), 2)
 
         lons_matrix = np.zeros((n_pixels_to_project, n_steps_per_ray)) + np.linspace(0, 1, n_steps_per_ray)
         lats_matrix = np.zeros((n_pixels_to_project, n_steps_per_ray)) + np.linspace(0, 1, n_steps_per_ray)
-- 
2.43.0


From 45cbc133d4f3da02341a28ca7daa2339846de11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 41/96] fix: rays of sensors with longitude / latitude
 coordinates were sampled at their two ends only (sample distance in meters
 taken as degrees)

---
 .../abstract_earth_overhead_point_calc.py              | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 90a92b0..375e31e 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -348,8 +348,14 @@ class AbstractEarthOverheadPointCalc:
         # TODO create implementation for a raster DEM that works faster
         # TODO the time consuming operations are obtaining lon/lats for many points as the DEM resolution becomes finer
 
-        ray_horizontal_lens = np.sqrt(
-            np.square(lons_max_alt - lons_min_alt) + np.square(lats_max_alt - lats_min_alt))
+        ray_lons = lons_max_alt - lons_min_alt
+        ray_lats = lats_max_alt - lats_min_alt
+        if self.get_projection().crs.is_geographic:
+            # the native units are degrees, and the DEM sample distance is in meters
+            meters_per_degree = 111320.0
+            ray_lons = ray_lons * meters_per_degree * np.cos(np.deg2rad(lats_max_alt))
+            ray_lats = ray_lats * meters_per_degree
+        ray_horizontal_lens = np.sqrt(np.square(ray_lons) + np.square(ray_lats))
         # vertical rays have no horizontal length, and need a sample at each of their ends
         n_steps_per_ray = max(int(np.ceil(np.max(ray_horizontal_lens) / dem_sample_distance) + 1), 2)
 
-- 
2.43.0


From bb9254447d77b1dea8ba53cfb7bc84f19824d225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 42/96] fix: rays that do not meet the terrain got made-up
 ground points

---
 .../abstract_earth_overhead_point_calc.py                   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 375e31e..60e488e 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -398,6 +398,12 @@ class AbstractEarthOverheadPointCalc:
                             all_elevations[all_pixel_indices, first_ray_intersect_indices]) * xs + \
                            all_elevations[all_pixel_indices, first_ray_intersect_indices]
 
+        # rays that never go below the terrain do not intersect it
+        no_intersection = second_ray_intersect_indices == 0
+        intersected_lons[no_intersection] = np.nan
+        intersected_lats[no_intersection] = np.nan
+        intersected_alts[no_intersection] = np.nan
+
         if is2d:
             intersected_lons = image_utils.unflatten_image_band(intersected_lons, nx, ny)
             intersected_lats = image_utils.unflatten_image_band(intersected_lats, nx, ny)
-- 
2.43.0


From 6d2771bd54818574f7dc41335cea31f0514195ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 43/96] fix: rays cast onto unsigned integer terrain overflowed
 in elevation differences

---
 .../abstract_earth_overhead_point_calc.py                        | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 60e488e..b18fc9c 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -368,6 +368,7 @@ class AbstractEarthOverheadPointCalc:
                       lats_matrix + np.tile(lats_max_alt, (n_steps_per_ray, 1)).transpose()
 
         all_elevations = dem.get_elevations(np.array(lons_matrix), np.array(lats_matrix), world_proj=self.get_projection())
+        all_elevations = np.asarray(all_elevations, dtype=float)
 
         ray = np.linspace(max_alt, min_alt, n_steps_per_ray)
         first_ray_intersect_indices = np.zeros(n_pixels_to_project, dtype=int)
-- 
2.43.0


From e6bbe25e67f5bc2b1e67361634edd09fef1fd32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 44/96] fix: orthorectified images were georeferenced with one
 pixel too many (pixel size divided by the pixel count plus one)

---
 resippy/utils/photogrammetry_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index dfd2366..6674381 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -40,8 +40,8 @@ def world_poly_to_geo_t(world_polygon,      # type: Polygon
                         ):                  # type: (...) -> list
     envelope = world_polygon.envelope
     minx, miny, maxx, maxy = envelope.bounds
-    gsd_x = (maxx - minx)/(npix_x + 1)
-    gsd_y = (maxy - miny)/(npix_y + 1)
+    gsd_x = (maxx - minx)/npix_x
+    gsd_y = (maxy - miny)/npix_y
     geot = [minx, gsd_x, 0, maxy, 0, -1*gsd_y]
     return geot
 
-- 
2.43.0


From 066fd40b0fa8e965a1e115ede7317d8095528673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 45/96] fix: ground grids of a single row or column crashed

---
 resippy/utils/photogrammetry_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index 6674381..125a1e3 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -59,8 +59,8 @@ def create_ground_grid(min_x,   # type: float
     ground_y_arr = ground_y_arr/npix_y*(max_y - min_y)
     ground_x_arr = ground_x_arr + min_x
     ground_y_arr = ground_y_arr + min_y
-    x_gsd = np.abs(ground_x_arr[0, 1] - ground_x_arr[0, 0])
-    y_gsd = np.abs(ground_y_arr[0, 0] - ground_y_arr[1, 0])
+    x_gsd = np.abs(max_x - min_x)/npix_x
+    y_gsd = np.abs(max_y - min_y)/npix_y
     return ground_x_arr + x_gsd/2.0, ground_y_arr - y_gsd/2.0
 
 
-- 
2.43.0


From 8bbff2f057e54386a69333c3c7597ffdcecdc71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 46/96] fix: asking an image whose data is not loaded for a
 band crashed, so that images opened from files could not be orthorectified

---
 resippy/image_objects/abstract_image.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/image_objects/abstract_image.py b/resippy/image_objects/abstract_image.py
index 878506c..e32a8db 100644
--- a/resippy/image_objects/abstract_image.py
+++ b/resippy/image_objects/abstract_image.py
@@ -87,8 +87,10 @@ class AbstractImage():
         """
         Gets a particular image band of the image object's _image_data class variable.  band_num is zero-based.
         :param band_num: band number to get
-        :return: image band of dimensions (ny, nx)
+        :return: image band of dimensions (ny, nx), or None if no image data has been loaded
         """
+        if self._image_data is None:
+            return None
         return self._image_data[:, :, band_num]
 
     def set_image_band(self,
-- 
2.43.0


From 84ac9d3d3b8f23c3680e4e4f3de7b944f36a20b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 47/96] fix: orthorectified images of cameras with separate
 bands held zero, not the no-data value, where the camera does not see

---
 resippy/photogrammetry/ortho_tools.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 6c5443b..2ee780c 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -216,6 +216,12 @@ def create_ortho_gtiff_image_world_to_sensor(overhead_image,  # type: AbstractEa
 
             regridded = image_utils.unflatten_image_band(regridded, ortho_nx_pix, ortho_ny_pix)
             regridded = regridded.astype(im_tp)
+
+            regridded[np.where(pixels_x <= 0)] = nodata_val
+            regridded[np.where(pixels_x >= overhead_image.metadata.get_npix_x() - 2)] = nodata_val
+
+            regridded[np.where(pixels_y <= 0)] = nodata_val
+            regridded[np.where(pixels_y >= overhead_image.metadata.get_npix_y() - 2)] = nodata_val
             images.append(regridded)
     else:
         pixels_x, pixels_y = overhead_image.get_point_calculator(). \
-- 
2.43.0


From 6fbd0e7d4bcfbbfdee00e0984b8ef57b63295cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 48/96] fix: ground positions of pixels looked up the terrain
 as if it had the coordinate system of the image

---
 resippy/photogrammetry/ortho_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 2ee780c..d64db6f 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -80,7 +80,7 @@ def get_pixel_lon_lats(overhead_image,  # type: AbstractEarthOverheadImage
                                                                      pixel_error_threshold=pixel_error_threshold,
                                                                      max_iter=max_iter)
     # get differences from the highest alt using the dem
-    alt_diff = alts - dem.get_elevations(lons_highest, lats_highest)
+    alt_diff = alts - dem.get_elevations(lons_highest, lats_highest, world_proj=point_calc.get_projection())
     new_alts = alts - alt_diff
     lons_low, lats_low = point_calc.pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, new_alts,
                                                              band=band,
-- 
2.43.0


From b0e67234dd71b4ec00ef03751a3a7ea763612f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 49/96] fix: ground positions of pixels were not on the terrain
 (altitude looked up once, away from the ground point)

---
 resippy/photogrammetry/ortho_tools.py | 32 +++++++++++++++++----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index d64db6f..8f89473 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -75,18 +75,26 @@ def get_pixel_lon_lats(overhead_image,  # type: AbstractEarthOverheadImage
         pixels_x, pixels_y = image_utils.create_pixel_grid(overhead_image.get_metadata().get_npix_x(),
                                                            overhead_image.get_metadata().get_npix_y())
     alts = dem.get_highest_alt()
-    lons_highest, lats_highest = point_calc.pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, alts,
-                                                                     band=band,
-                                                                     pixel_error_threshold=pixel_error_threshold,
-                                                                     max_iter=max_iter)
-    # get differences from the highest alt using the dem
-    alt_diff = alts - dem.get_elevations(lons_highest, lats_highest, world_proj=point_calc.get_projection())
-    new_alts = alts - alt_diff
-    lons_low, lats_low = point_calc.pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, new_alts,
-                                                             band=band,
-                                                             pixel_error_threshold=pixel_error_threshold,
-                                                             max_iter=max_iter)
-    return lons_low, lats_low
+    lons, lats = point_calc.pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, alts,
+                                                     band=band,
+                                                     pixel_error_threshold=pixel_error_threshold,
+                                                     max_iter=max_iter)
+    # follow the lines of sight down to the dem, starting at the highest alt
+    max_alt_change = 0.01
+    max_dem_lookups = 20
+    for i in range(max_dem_lookups):
+        new_alts = dem.get_elevations(lons, lats, world_proj=point_calc.get_projection())
+        alt_changes = np.abs(new_alts - alts)
+        alts = new_alts
+        if not np.any(alt_changes > 0):
+            break
+        lons, lats = point_calc.pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, alts,
+                                                         band=band,
+                                                         pixel_error_threshold=pixel_error_threshold,
+                                                         max_iter=max_iter)
+        if not np.any(alt_changes > max_alt_change):
+            break
+    return lons, lats
 
 
 def create_igm_image(overhead_image,    # type: AbstractEarthOverheadImage
-- 
2.43.0


From 29d942615ed6edf200ce59010f3860e1c9d7bc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 50/96] fix: the extent of an image did not contain its pixels
 (simplified by 0.001 in any units, which is 111 m in degrees)

---
 resippy/photogrammetry/ortho_tools.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 8f89473..456e4da 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -385,9 +385,7 @@ def get_extent(overhead_image,  # type: AbstractEarthOverheadImage
         all_band_lats = np.append(all_band_lats, lats)
 
     extents = [(MultiPoint(list(zip(all_band_lons, all_band_lats))))]
-    # TODO, check into whether we can get rid of this tolerance, also, this isn't a very good approach, since it assumes
-    # TODO a particular CRS (probably 4326)
-    return unary_union(extents).convex_hull.simplify(0.001)
+    return unary_union(extents).convex_hull
 
 
 def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEarthOverheadImage
-- 
2.43.0


From 38370c181de5b8dffed999e9b07b9ee7cfda46fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 51/96] fix: coordinate grid images could not be made from
 images whose data is not loaded

---
 resippy/photogrammetry/ortho_tools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 456e4da..82ed19c 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -109,11 +109,14 @@ def create_igm_image(overhead_image,    # type: AbstractEarthOverheadImage
                                                                          pixels_y,
                                                                          dem,
                                                                          dem_sample_distance=dem_sample_distance)
-    igm_image = IgmImage.from_params(overhead_image.get_image_data(),
+    image_data = overhead_image.get_image_data()
+    if image_data is None:
+        image_data = overhead_image.read_all_image_data_from_disk()
+    igm_image = IgmImage.from_params(image_data,
                                      lons,
                                      lats,
                                      alts,
-                                     overhead_image.get_image_data().shape[2],
+                                     image_data.shape[2],
                                      overhead_image.pointcalc.get_projection())
     return igm_image
 
-- 
2.43.0


From 6dba72f0cc22783bda1d1c10ef898ba7a660bbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 52/96] fix: a coordinate grid with one altitude for all pixels
 reported altitude zero

---
 .../earth_overhead_point_calculators/igm_point_calc.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
index d5c7729..1ad7dd1 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
@@ -22,7 +22,7 @@ class IGMPointCalc(AbstractEarthOverheadPointCalc):
         self._npix_y, self._npix_x = lon_array.shape
         self.set_projection(projection)
         if isinstance(alt_array, numbers.Number):
-            self._alts = numpy.zeros_like(lon_array)
+            self._alts = numpy.zeros(lon_array.shape) + alt_array
         else:
             self._alts = alt_array
         self._bands_coregistered = True
-- 
2.43.0


From 15dee551f663b68c39633c3e8bba6230ca248309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 53/96] fix: a full ortho image of an image with several bands
 not coregistered, or with a map grid, crashed (band list taken for a band,
 pixel lists for arrays)

---
 resippy/photogrammetry/ortho_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 82ed19c..c10d798 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -138,9 +138,9 @@ def create_full_ortho_gtiff_image(overhead_image,  # type: AbstractEarthOverhead
         ny = overhead_image.metadata.get_npix_y()
         native_lons, native_lats = get_pixel_lon_lats(overhead_image,
                                                       dem,
-                                                      bands,
-                                                      pixels_x=[0, nx-1, 0],
-                                                      pixels_y=[0, 0, ny-1])
+                                                      0 if bands is None else bands[0],
+                                                      pixels_x=np.array([0, nx-1, 0]),
+                                                      pixels_y=np.array([0, 0, ny-1]))
         local_lons, local_lats = transform(overhead_image.pointcalc.get_projection(), local_proj, native_lons, native_lats)
         distance_along_x = math.sqrt((local_lons[1] - local_lons[0]) ** 2 + (local_lats[1] - local_lats[0]) ** 2)
         distance_along_y = math.sqrt((local_lons[2] - local_lons[0]) ** 2 + (local_lats[2] - local_lats[0]) ** 2)
-- 
2.43.0


From 6bb3c77c15f025b8bf5d0e6100ec56778d34f28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 54/96] fix: a full ortho image was empty for sensors with
 longitude / latitude coordinates, and showed another place in any output
 projection but the native one

---
 resippy/photogrammetry/ortho_tools.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index c10d798..12fbc27 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -17,7 +17,7 @@ from resippy.image_objects.earth_overhead.geotiff.geotiff_image import GeotiffIm
 from resippy.image_objects.earth_overhead.igm.igm_image import IgmImage
 from resippy.photogrammetry.dem.abstract_dem import AbstractDem
 from resippy.photogrammetry import crs_defs as crs_defs
-from resippy.utils.photogrammetry_utils import create_ground_grid, world_poly_to_geo_t
+from resippy.utils.photogrammetry_utils import create_ground_grid, reproject_geometry, world_poly_to_geo_t
 from resippy.utils import proj_utils
 from pyproj import transform
 from resippy.photogrammetry.dem.dem_factory import DemFactory
@@ -148,14 +148,21 @@ def create_full_ortho_gtiff_image(overhead_image,  # type: AbstractEarthOverhead
         gsd_y = distance_along_y / ny
         gsd_meters = (gsd_x + gsd_y) / 2.0
 
-    ortho_x_dist = np.abs(extent.bounds[2] - extent.bounds[0])
-    ortho_y_dist = np.abs(extent.bounds[3] - extent.bounds[1])
+    native_proj = overhead_image.pointcalc.get_projection()
+    if output_proj is None:
+        output_proj = native_proj
+    if output_proj.srs != native_proj.srs:
+        extent = reproject_geometry(extent, native_proj, output_proj)
 
-    ortho_nx = int(ortho_x_dist / gsd_meters)
-    ortho_ny = int(ortho_y_dist / gsd_meters)
+    # the gsd is in meters, whatever the units of the output projection are
+    min_x, min_y, max_x, max_y = extent.bounds
+    corner_xs, corner_ys = transform(output_proj, local_proj, [min_x, max_x, min_x], [min_y, min_y, max_y])
+    ortho_x_dist = math.sqrt((corner_xs[1] - corner_xs[0]) ** 2 + (corner_ys[1] - corner_ys[0]) ** 2)
+    ortho_y_dist = math.sqrt((corner_xs[2] - corner_xs[0]) ** 2 + (corner_ys[2] - corner_ys[0]) ** 2)
+
+    ortho_nx = max(int(ortho_x_dist / gsd_meters), 1)
+    ortho_ny = max(int(ortho_y_dist / gsd_meters), 1)
 
-    if output_proj is None:
-        output_proj = overhead_image.pointcalc.get_projection()
     return create_ortho_gtiff_image_world_to_sensor(overhead_image,
                                                     ortho_nx,
                                                     ortho_ny,
-- 
2.43.0


From 2e7135d97d5da440c167b1a3ce640adfd9fd8717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 55/96] fix: looking up pixel values used numpy.int, which
 numpy has removed

---
 resippy/photogrammetry/ortho_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 12fbc27..297a64a 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -34,12 +34,12 @@ def get_pixel_values(image_object,  # type: AbstractEarthOverheadImage
                      ):  # type: (...) -> ndarray
 
     nodata = image_object.get_metadata().get_nodata_val()
-    wh = np.round(window/2.0).astype(np.int)
+    wh = np.round(window/2.0).astype(int)
     pix_vals = []
     for band in range(image_object.get_metadata().get_n_bands()):
         img = image_object.read_band_from_disk(band)
         x, y = image_object.get_point_calculator().lon_lat_alt_to_pixel_x_y(lons, lats, alts, band=band)
-        locs = zip(np.round(x).astype(np.int), np.round(y).astype(np.int))
+        locs = zip(np.round(x).astype(int), np.round(y).astype(int))
         vals = []
         for item in locs:
             try:
-- 
2.43.0


From ff9e11df4208fcff3b78f4d70528b1bc9f8605e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 56/96] fix: pixel values of locations outside the image were
 taken from its opposite side, and odd windows had the wrong size

---
 resippy/photogrammetry/ortho_tools.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 297a64a..50a2aac 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -34,7 +34,6 @@ def get_pixel_values(image_object,  # type: AbstractEarthOverheadImage
                      ):  # type: (...) -> ndarray
 
     nodata = image_object.get_metadata().get_nodata_val()
-    wh = np.round(window/2.0).astype(int)
     pix_vals = []
     for band in range(image_object.get_metadata().get_n_bands()):
         img = image_object.read_band_from_disk(band)
@@ -42,16 +41,14 @@ def get_pixel_values(image_object,  # type: AbstractEarthOverheadImage
         locs = zip(np.round(x).astype(int), np.round(y).astype(int))
         vals = []
         for item in locs:
-            try:
-                xmin = item[0] - wh
-                xmax = item[0] + wh
-                ymin = item[1] - wh
-                ymax = item[1] + wh
-                pix_win = img[ymin:ymax, xmin:xmax]
-                good_inds = pix_win != nodata
-                val = np.mean(pix_win[good_inds])
-            except IndexError:
-                val = np.NaN
+            val = np.nan
+            if 0 <= item[0] < img.shape[1] and 0 <= item[1] < img.shape[0]:
+                xmin = item[0] - window // 2
+                ymin = item[1] - window // 2
+                pix_win = img[max(ymin, 0):ymin + window, max(xmin, 0):xmin + window]
+                good_pixels = pix_win[pix_win != nodata]
+                if good_pixels.size > 0:
+                    val = np.mean(good_pixels)
             vals.append(val)
         pix_vals.append(vals)
 
-- 
2.43.0


From 6539b3d28bdd720bffed5798786b609d33f0784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 57/96] fix: pixel values could not be looked up in images held
 in memory

---
 resippy/photogrammetry/ortho_tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 50a2aac..88fd20c 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -36,7 +36,9 @@ def get_pixel_values(image_object,  # type: AbstractEarthOverheadImage
     nodata = image_object.get_metadata().get_nodata_val()
     pix_vals = []
     for band in range(image_object.get_metadata().get_n_bands()):
-        img = image_object.read_band_from_disk(band)
+        img = image_object.get_image_band(band)
+        if img is None:
+            img = image_object.read_band_from_disk(band)
         x, y = image_object.get_point_calculator().lon_lat_alt_to_pixel_x_y(lons, lats, alts, band=band)
         locs = zip(np.round(x).astype(int), np.round(y).astype(int))
         vals = []
-- 
2.43.0


From 9b42c9f002e9b7599c577c44c011a4bfb6ef368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 58/96] fix: terrain obstruction was looked for on the far side
 of the pixels, over distances of no meaning (square root of the square of the
 sum of the components)

---
 resippy/photogrammetry/ortho_tools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 88fd20c..26862d2 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -419,9 +419,10 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     obstructed_mask = np.zeros_like(lons)
 
     lons_highest, lats_highest = earth_overhead_image.get_point_calculator().pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, highest_alts, band=band)
-    lon_diffs = lons - lons_highest
-    lat_diffs = lats - lats_highest
-    horizontal_distances = np.sqrt(np.square(lon_diffs + lat_diffs))
+    # march from the ground towards the sensor
+    lon_diffs = lons_highest - lons
+    lat_diffs = lats_highest - lats
+    horizontal_distances = np.sqrt(np.square(lon_diffs) + np.square(lat_diffs))
     vertical_distances = highest_alts - alts
     max_horizontal_distance = horizontal_distances.max()
     n_dem_steps = max_horizontal_distance / dem_resolution
-- 
2.43.0


From bd03a0bc95f40f5f7164f5e6295bbc0e03d117e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 59/96] fix: terrain obstruction looked up the terrain as if it
 had the coordinate system of the image

---
 resippy/photogrammetry/ortho_tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 26862d2..2a5f0fe 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -413,8 +413,9 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     highest_alts = np.zeros_like(pixels_x)
     highest_alts[:] = dem.get_highest_alt() + 0.001
 
+    native_proj = earth_overhead_image.get_point_calculator().get_projection()
     if alts is None:
-        alts = dem.get_elevations(lons, lats)
+        alts = dem.get_elevations(lons, lats, world_proj=native_proj)
 
     obstructed_mask = np.zeros_like(lons)
 
@@ -429,7 +430,7 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     for step in np.arange(1, n_dem_steps):
         test_lons = lons + lon_diffs * (step) / n_dem_steps
         test_lats = lats + lat_diffs * (step) / n_dem_steps
-        test_alts = dem.get_elevations(test_lons, test_lats)
+        test_alts = dem.get_elevations(test_lons, test_lats, world_proj=native_proj)
         obstruction_heights = alts + vertical_distances * step / n_dem_steps
         obstructed_mask[np.where(test_alts > obstruction_heights)] = 1
     return obstructed_mask
-- 
2.43.0


From 2c0e997ae8ec3eaedd5f2894d2bd8e896090a479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 60/96] fix: terrain obstruction truncated the altitude of the
 highest terrain when pixels were integers

---
 resippy/photogrammetry/ortho_tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 2a5f0fe..ff525d4 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -410,8 +410,7 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     DEFAULT_DEM_RESOLUTION = 5
     if dem_resolution is None:
         dem_resolution = DEFAULT_DEM_RESOLUTION
-    highest_alts = np.zeros_like(pixels_x)
-    highest_alts[:] = dem.get_highest_alt() + 0.001
+    highest_alts = np.zeros(np.shape(pixels_x)) + dem.get_highest_alt() + 0.001
 
     native_proj = earth_overhead_image.get_point_calculator().get_projection()
     if alts is None:
-- 
2.43.0


From 8f40f073989ce3b4c32a0cb50c9f8deb301ef3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 61/96] fix: terrain obstruction tested no terrain for sensors
 with longitude / latitude coordinates (terrain resolution in meters taken as
 degrees)

---
 resippy/photogrammetry/ortho_tools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index ff525d4..e32fb03 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -422,7 +422,12 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     # march from the ground towards the sensor
     lon_diffs = lons_highest - lons
     lat_diffs = lats_highest - lats
-    horizontal_distances = np.sqrt(np.square(lon_diffs) + np.square(lat_diffs))
+    if native_proj.crs.is_geographic:
+        meters_per_degree = 111320.0
+        horizontal_distances = meters_per_degree * np.sqrt(np.square(lon_diffs * np.cos(np.deg2rad(lats))) +
+                                                           np.square(lat_diffs))
+    else:
+        horizontal_distances = np.sqrt(np.square(lon_diffs) + np.square(lat_diffs))
     vertical_distances = highest_alts - alts
     max_horizontal_distance = horizontal_distances.max()
     n_dem_steps = max_horizontal_distance / dem_resolution
-- 
2.43.0


From 3fb18105234920e0604e1d2b3e690b3a348c9f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 62/96] fix: the camera simulator took the units of the
 boresight for the attitude of the platform

---
 resippy/utils/physical_camera_simulator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/utils/physical_camera_simulator.py b/resippy/utils/physical_camera_simulator.py
index 4d2cc6d..127dd37 100644
--- a/resippy/utils/physical_camera_simulator.py
+++ b/resippy/utils/physical_camera_simulator.py
@@ -90,9 +90,9 @@ class PhysicalCameraSimulator:
                                                                              order=self._boresight_rpy_order)
 
         fixtured_camera.set_fixture_orientation_by_roll_pitch_yaw(roll, pitch, yaw,
-                                                                  roll_units=self._boresight_units,
-                                                                  pitch_units=self._boresight_units,
-                                                                  yaw_units=self._boresight_units)
+                                                                  roll_units=self._external_orientation_rpy_units,
+                                                                  pitch_units=self._external_orientation_rpy_units,
+                                                                  yaw_units=self._external_orientation_rpy_units)
 
         camera_1_m_matrix = fixtured_camera.get_camera_absolute_M_matrix()
         omega, phi, kappa = photogrammetry_utils.solve_for_omega_phi_kappa(camera_1_m_matrix)
-- 
2.43.0


From 6165143269eff5b3f17fb22ef3ddd11c4fd593f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 63/96] fix: the camera simulator looked up the map as if its
 world projection were that of the map

---
 resippy/utils/physical_camera_simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/physical_camera_simulator.py b/resippy/utils/physical_camera_simulator.py
index 127dd37..1c2fc03 100644
--- a/resippy/utils/physical_camera_simulator.py
+++ b/resippy/utils/physical_camera_simulator.py
@@ -131,7 +131,8 @@ class PhysicalCameraSimulator:
         gtiff_x_vals, gtiff_y_vals = self._gtiff_image_object.get_point_calculator().lon_lat_alt_to_pixel_x_y(
             pass1_lons,
             pass1_lats,
-            numpy.zeros_like(pass1_lons))
+            numpy.zeros_like(pass1_lons),
+            world_proj=self.world_projection)
 
         if self._gtiff_image_data is None:
             self._gtiff_image_data = self._gtiff_image_object.read_band_from_disk(0)
-- 
2.43.0


From 1e878a789e44a6049f278cb11181a763c8d38637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 64/96] fix: ground positions of all pixels of a
 coordinate-grid image (IndexError: the pixel grid holds whole floats)

---
 .../earth_overhead_point_calculators/igm_point_calc.py          | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
index 1ad7dd1..dc24d60 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
@@ -46,6 +46,8 @@ class IGMPointCalc(AbstractEarthOverheadPointCalc):
         return self._alts
 
     def _pixel_x_y_alt_to_lon_lat_native(self, pixel_xs, pixel_ys, alts=None, band=None):
+        pixel_xs = numpy.round(pixel_xs).astype(int)
+        pixel_ys = numpy.round(pixel_ys).astype(int)
         return self._lons[pixel_ys, pixel_xs], self._lats[pixel_ys, pixel_xs]
 
     def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
-- 
2.43.0


From a7fb26f2b96e91850570a658a7a9889494909abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:48 +0000
Subject: [PATCH 65/96] fix: warping a file image whose pixels were replaced in
 memory warped the pixels of the file

---
 resippy/image_objects/earth_overhead/geotiff/geotiff_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 557b62b..d61bd4a 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -158,7 +158,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
                                dst_fname=None,  # type: str
                                ):               # type: (...) -> GeotiffImage
         src_dataset = image.get_dset()
-        if src_dataset is None:
+        if src_dataset is None or image.get_image_data() is not None:
             src_dataset = image.get_gdal_mem_datset()
 
         if dst_fname is None:
-- 
2.43.0


From 4ca96b949c0b6a3facc30bf831870f88836ab30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 66/96] fix: the last line of a Pix4D internal parameters file
 (the last distortion coefficient) was dropped unless a blank line follows

---
 .../earth_overhead_point_calculators/pix4d_point_calc.py        | 2 +-
 resippy/utils/pix4d_utils.py                                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
index 6931343..75bec1c 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
@@ -201,7 +201,7 @@ class Pix4dPointCalc(AbstractEarthOverheadPointCalc):
                 new_camera_param_start_locations.append(i)
 
         new_camera_param_end_locations = new_camera_param_start_locations[1:]
-        new_camera_param_end_locations.append(i)
+        new_camera_param_end_locations.append(len(lines))
 
         camera_params_list = []
 
diff --git a/resippy/utils/pix4d_utils.py b/resippy/utils/pix4d_utils.py
index 90acab2..ea57875 100644
--- a/resippy/utils/pix4d_utils.py
+++ b/resippy/utils/pix4d_utils.py
@@ -235,7 +235,7 @@ def read_pix4d_calibrated_internal_camera_parameters(internal_params_cam_file,
             new_camera_param_start_locations.append(i)
 
     new_camera_param_end_locations = new_camera_param_start_locations[1:]
-    new_camera_param_end_locations.append(i)
+    new_camera_param_end_locations.append(len(lines))
 
     camera_params_list = []
 
-- 
2.43.0


From 5185e830baa12d3a0d9ac36f87167a8eed4f28f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 67/96] fix: blank lines, repeated spaces and trailing spaces
 in Pix4D external, calibrated and projection matrix files were taken for
 records

---
 .../pix4d_point_calc.py                         |  8 +++++---
 resippy/utils/pix4d_utils.py                    | 17 ++++++++++-------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
index 75bec1c..f5760ff 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
@@ -182,7 +182,9 @@ class Pix4dPointCalc(AbstractEarthOverheadPointCalc):
             lines = f.readlines()
         cleaned_up_lines = [string_utils.remove_newlines(x) for x in lines][1:]
         for file_params in cleaned_up_lines:
-            fname, x, y, z, omega, phi, kappa = file_params.split(" ")
+            if file_params.strip() == '':
+                continue
+            fname, x, y, z, omega, phi, kappa = file_params.split()
             external_params[fname] = [float(x), float(y), float(z), float(omega), float(phi), float(kappa)]
         return external_params
 
@@ -208,7 +210,7 @@ class Pix4dPointCalc(AbstractEarthOverheadPointCalc):
         for i in range(len(new_camera_param_start_locations)):
             internal_params_dict = {}
             text_block = lines[new_camera_param_start_locations[i] + 1:new_camera_param_end_locations[i]]
-            text_block = list(filter(lambda a: a != '', text_block))
+            text_block = list(filter(lambda a: a != '', [txt.strip() for txt in text_block]))
             for txt in text_block:
                 if txt.startswith("#"):
                     if "Focal Length mm" in txt:
@@ -218,7 +220,7 @@ class Pix4dPointCalc(AbstractEarthOverheadPointCalc):
                     else:
                         pass
                 else:
-                    key, val = txt.split(" ")
+                    key, val = txt.split()
                     internal_params_dict[key] = float(val)
             camera_params_list.append(internal_params_dict)
         return camera_params_list
diff --git a/resippy/utils/pix4d_utils.py b/resippy/utils/pix4d_utils.py
index ea57875..ca2310b 100644
--- a/resippy/utils/pix4d_utils.py
+++ b/resippy/utils/pix4d_utils.py
@@ -15,8 +15,9 @@ def read_p_matrices(pmatrix_txt_file    # type: str
     with open(pmatrix_txt_file, 'r') as f:
         lines = f.readlines()
     for line in lines:
-        line_no_linesep = string_utils.remove_newlines(line.strip())
-        line_fields = line_no_linesep.split(' ')
+        line_fields = line.split()
+        if not line_fields:
+            continue
         params = np.asarray(line_fields[1:], dtype=float)
         fname = line_fields[0]
         p_matricies[fname] = params
@@ -43,10 +44,10 @@ def read_calibrated_camera_parameters(calibrated_params_file    # type: str
     with open(calibrated_params_file, 'r') as f:
         lines = f.readlines()
     cleaned_up_lines = [string_utils.remove_newlines(x) for x in lines]
-    params = cleaned_up_lines[8:]
+    params = [line for line in cleaned_up_lines[8:] if line.strip() != '']
     per_file_params = [params[x:x + 10] for x in range(0, len(params), 10)]
     for file_params in per_file_params:
-        fname, image_w, image_h = file_params[0].split(" ")
+        fname, image_w, image_h = file_params[0].split()
         tmp_list = np.array(file_params[1:4])
         camera_matrix_k = np.array([list(map(float, row.split())) for row in tmp_list])
         tmp_list = np.array(file_params[4:5])
@@ -83,7 +84,9 @@ def read_calibrated_external_camera_parameters(calibrated_external_params_file
         lines = f.readlines()
     cleaned_up_lines = [string_utils.remove_newlines(x) for x in lines][1:]
     for file_params in cleaned_up_lines:
-        fname, x, y, z, omega, phi, kappa = file_params.split(" ")
+        if file_params.strip() == '':
+            continue
+        fname, x, y, z, omega, phi, kappa = file_params.split()
         external_params[fname] = [float(x), float(y), float(z), float(omega), float(phi), float(kappa)]
     return external_params
 
@@ -242,7 +245,7 @@ def read_pix4d_calibrated_internal_camera_parameters(internal_params_cam_file,
     for i in range(len(new_camera_param_start_locations)):
         internal_params_dict = {}
         text_block = lines[new_camera_param_start_locations[i] + 1:new_camera_param_end_locations[i]]
-        text_block = list(filter(lambda a: a != '', text_block))
+        text_block = list(filter(lambda a: a != '', [txt.strip() for txt in text_block]))
         for txt in text_block:
             if txt.startswith("#"):
                 if "Focal Length mm" in txt:
@@ -252,7 +255,7 @@ def read_pix4d_calibrated_internal_camera_parameters(internal_params_cam_file,
                 else:
                     pass
             else:
-                key, val = txt.split(" ")
+                key, val = txt.split()
                 internal_params_dict[key] = float(val)
         camera_params_list.append(internal_params_dict)
     return camera_params_list
-- 
2.43.0


From f6ace44f943ef709ddaee28a3a642e8333994218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 68/96] fix: the rotation matrices computed for all images of a
 Pix4D collect overwrote each other

---
 resippy/utils/pix4d_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/pix4d_utils.py b/resippy/utils/pix4d_utils.py
index ca2310b..68fb166 100644
--- a/resippy/utils/pix4d_utils.py
+++ b/resippy/utils/pix4d_utils.py
@@ -143,6 +143,7 @@ def make_master_dict(base_path,                     # type: str
     'n_y_pixels': number of y pixels for the given camera
     'radial_distortion': numpy array containing 3 radial distortion parameters
     'tangential_distortion': numpy array containing 2 tangential distortion parameters
+    'r_matrix_computed': 3x3 numpy array containing the rotation matrix of the external orientation parameters
     :param base_path: base path of the collect.  This method will attempt to find all of the files for the collect
     starting at the base path if this is the only parameter specified.
     :param external_params_fname: external parameters file, defaults to None
@@ -203,7 +204,7 @@ def make_master_dict(base_path,                     # type: str
         cam_index = int(cam_index_str) - 1
         entry_dict["internal_params"] = internal_list[cam_index]
         master_dict[key] = entry_dict
-        master_dict["r_matrix_computed"] = create_r_matrix(external_dict[key])
+        entry_dict["r_matrix_computed"] = create_r_matrix(external_dict[key])
     return master_dict
 
 
-- 
2.43.0


From eb07c7ec3dc6ae85291984c6835d3506f97f97e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 69/96] fix: coordinates in systems whose official axis order
 is latitude or northing first, such as Proj('EPSG:4326') or
 Proj('EPSG:2193'), came out with their axes swapped

---
 .../abstract_earth_overhead_point_calc.py                | 9 ++++++---
 .../ideal_pinhole_fpa_local_utm_point_calc.py            | 3 ++-
 resippy/photogrammetry/ortho_tools.py                    | 9 ++++++---
 resippy/utils/photogrammetry_utils.py                    | 6 +++---
 4 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index b18fc9c..135185f 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -122,7 +122,8 @@ class AbstractEarthOverheadPointCalc:
         if world_proj is None:
             world_proj = self.get_projection()
         if world_proj.srs != self.get_projection().srs:
-            lons, lats, alts = proj_transform(world_proj, self.get_projection(), lons, lats, alts)
+            lons, lats, alts = proj_transform(world_proj, self.get_projection(), lons, lats, alts,
+                                              always_xy=True)
         pixel_coords = self._lon_lat_alt_to_pixel_x_y_native(lons, lats, alts, band)
 
         if lons_is_number or lats_is_number:
@@ -174,7 +175,8 @@ class AbstractEarthOverheadPointCalc:
                                                              max_pixel_error=pixel_error_threshold,
                                                              max_iter=max_iter)
         if world_proj.srs != self.get_projection().srs:
-            lons, lats = proj_transform(self.get_projection(), world_proj, native_lons, native_lats)
+            lons, lats = proj_transform(self.get_projection(), world_proj, native_lons, native_lats,
+                                        always_xy=True)
             return lons, lats
         else:
             return native_lons, native_lats
@@ -453,7 +455,8 @@ class AbstractEarthOverheadPointCalc:
                                                                                              band=band)
 
         if world_proj.srs != self.get_projection().srs:
-            lons, lats = proj_transform(self.get_projection(), world_proj, native_lons, native_lats)
+            lons, lats = proj_transform(self.get_projection(), world_proj, native_lons, native_lats,
+                                        always_xy=True)
             return lons, lats, native_alts
         else:
             return native_lons, native_lats, native_alts
diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/ideal_pinhole_fpa_local_utm_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/ideal_pinhole_fpa_local_utm_point_calc.py
index d5fc78f..32063dc 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/ideal_pinhole_fpa_local_utm_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/ideal_pinhole_fpa_local_utm_point_calc.py
@@ -100,7 +100,8 @@ class IdealPinholeFpaLocalUtmPointCalc(AbstractEarthOverheadPointCalc):
         sensor_x_local, sensor_y_local = transform(proj_4326,
                                                    native_proj,
                                                    sensor_lon_decimal_degrees,
-                                                   sensor_lat_decimal_degrees)
+                                                   sensor_lat_decimal_degrees,
+                                                   always_xy=True)
 
         utm_point_calc = IdealPinholeFpaLocalUtmPointCalc()
 
diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index e32fb03..1399e6c 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -130,7 +130,8 @@ def create_full_ortho_gtiff_image(overhead_image,  # type: AbstractEarthOverhead
                                   ):  # type: (...) -> GeotiffImage
     extent = get_extent(overhead_image, dem, bands=bands)
     native_lon, native_lat = extent.bounds[0], extent.bounds[1]
-    lon_4326, lat_4326 = transform(overhead_image.pointcalc.get_projection(), crs_defs.PROJ_4326, native_lon, native_lat)
+    lon_4326, lat_4326 = transform(overhead_image.pointcalc.get_projection(), crs_defs.PROJ_4326, native_lon, native_lat,
+                                   always_xy=True)
     local_proj = proj_utils.decimal_degrees_to_local_utm_proj(lon_4326, lat_4326)
     if gsd_meters is None:
         nx = overhead_image.metadata.get_npix_x()
@@ -140,7 +141,8 @@ def create_full_ortho_gtiff_image(overhead_image,  # type: AbstractEarthOverhead
                                                       0 if bands is None else bands[0],
                                                       pixels_x=np.array([0, nx-1, 0]),
                                                       pixels_y=np.array([0, 0, ny-1]))
-        local_lons, local_lats = transform(overhead_image.pointcalc.get_projection(), local_proj, native_lons, native_lats)
+        local_lons, local_lats = transform(overhead_image.pointcalc.get_projection(), local_proj, native_lons, native_lats,
+                                           always_xy=True)
         distance_along_x = math.sqrt((local_lons[1] - local_lons[0]) ** 2 + (local_lats[1] - local_lats[0]) ** 2)
         distance_along_y = math.sqrt((local_lons[2] - local_lons[0]) ** 2 + (local_lats[2] - local_lats[0]) ** 2)
         gsd_x = distance_along_x / nx
@@ -155,7 +157,8 @@ def create_full_ortho_gtiff_image(overhead_image,  # type: AbstractEarthOverhead
 
     # the gsd is in meters, whatever the units of the output projection are
     min_x, min_y, max_x, max_y = extent.bounds
-    corner_xs, corner_ys = transform(output_proj, local_proj, [min_x, max_x, min_x], [min_y, min_y, max_y])
+    corner_xs, corner_ys = transform(output_proj, local_proj, [min_x, max_x, min_x], [min_y, min_y, max_y],
+                                       always_xy=True)
     ortho_x_dist = math.sqrt((corner_xs[1] - corner_xs[0]) ** 2 + (corner_ys[1] - corner_ys[0]) ** 2)
     ortho_y_dist = math.sqrt((corner_xs[2] - corner_xs[0]) ** 2 + (corner_ys[2] - corner_ys[0]) ** 2)
 
diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index 125a1e3..fad7b14 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -16,7 +16,7 @@ def reproject_geometry(geom,            # type: BaseGeometry
                        source_proj,     # type: str
                        dest_proj        # type: str
                        ):               # type: (...) -> BaseGeometry
-    partial_transform = partial(transform, source_proj, dest_proj)
+    partial_transform = partial(transform, source_proj, dest_proj, always_xy=True)
     return shapely_transform(partial_transform, geom)
 
 
@@ -27,10 +27,10 @@ def shift_points_by_meters(meters_east,     # type: float
                            points_x,        # type: ndarray
                            points_y         # type: ndarray
                            ):               # type: (...) -> (ndarray, ndarray)
-    points_x_meters, points_y_meters = transform(source_proj, crs_defs.PROJ_3857, points_x, points_y)
+    points_x_meters, points_y_meters = transform(source_proj, crs_defs.PROJ_3857, points_x, points_y, always_xy=True)
     shifted_x = points_x_meters + meters_east
     shifted_y = points_y_meters + meters_north
-    shifted_x_native, shifted_y_native = transform(crs_defs.PROJ_3857, source_proj, shifted_x, shifted_y)
+    shifted_x_native, shifted_y_native = transform(crs_defs.PROJ_3857, source_proj, shifted_x, shifted_y, always_xy=True)
     return shifted_x_native, shifted_y_native
 
 
-- 
2.43.0


From abb7757af5dff486025a8c76dd23e3bc87ca8382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:57 +0000
Subject: [PATCH 70/96] fix: pixel values of windows touching no-data were NaN
 for images whose no-data value is NaN

---
 resippy/photogrammetry/ortho_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 1399e6c..6e534b9 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -49,6 +49,8 @@ def get_pixel_values(image_object,  # type: AbstractEarthOverheadImage
                 ymin = item[1] - window // 2
                 pix_win = img[max(ymin, 0):ymin + window, max(xmin, 0):xmin + window]
                 good_pixels = pix_win[pix_win != nodata]
+                if nodata is not None and np.isnan(nodata):
+                    good_pixels = pix_win[np.logical_not(np.isnan(pix_win))]
                 if good_pixels.size > 0:
                     val = np.mean(good_pixels)
             vals.append(val)
-- 
2.43.0


From 6e6a7154cef5af73ff94547e63ffed326b633d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:08 +0000
Subject: [PATCH 71/96] fix: lines of an Applanix EO file that are not complete
 records (comments with a number, truncated lines) put the values of some
 channels out of step with the times

---
 resippy/photogrammetry/nav/applanix_eo_nav.py | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/resippy/photogrammetry/nav/applanix_eo_nav.py b/resippy/photogrammetry/nav/applanix_eo_nav.py
index 0d0c715..8aa190e 100644
--- a/resippy/photogrammetry/nav/applanix_eo_nav.py
+++ b/resippy/photogrammetry/nav/applanix_eo_nav.py
@@ -27,17 +27,23 @@ class ApplanixEONav(AbstractNav):
                 line_parts = line.split()
 
                 try:
-                    gps_time.append(float(line_parts[1]))
-                    easting.append(float(line_parts[2]))
-                    northing.append(float(line_parts[3]))
-                    height.append(float(line_parts[4]))
-                    omega.append(float(line_parts[5]))
-                    phi.append(float(line_parts[6]))
-                    kappa.append(float(line_parts[7]))
-                    lat.append(float(line_parts[8]))
-                    lon.append(float(line_parts[9]))
-                except (IndexError, ValueError):
-                    pass
+                    record = [float(part) for part in line_parts[1:10]]
+                except ValueError:
+                    continue
+                if len(record) < 7:
+                    continue
+                # the latitude and longitude are not needed for a position and an orientation
+                record = record + [np.nan] * (9 - len(record))
+
+                gps_time.append(record[0])
+                easting.append(record[1])
+                northing.append(record[2])
+                height.append(record[3])
+                omega.append(record[4])
+                phi.append(record[5])
+                kappa.append(record[6])
+                lat.append(record[7])
+                lon.append(record[8])
 
         self._nav_data = {
             'gps_time': np.array(gps_time),
-- 
2.43.0


From 276f785af46e62226cd5c319605f10eff6b45deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:08 +0000
Subject: [PATCH 72/96] fix: a navigation solution of a single record returned
 NaN for the time of that record

---
 resippy/photogrammetry/nav/applanix_eo_nav.py   | 8 ++++++--
 resippy/photogrammetry/nav/applanix_sbet_nav.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/resippy/photogrammetry/nav/applanix_eo_nav.py b/resippy/photogrammetry/nav/applanix_eo_nav.py
index 8aa190e..179c927 100644
--- a/resippy/photogrammetry/nav/applanix_eo_nav.py
+++ b/resippy/photogrammetry/nav/applanix_eo_nav.py
@@ -78,13 +78,17 @@ class ApplanixEONav(AbstractNav):
                        xs,  # type: np.ndarray
                        ys   # type: np.ndarray
                        ):   # type: (...) -> np.ndarray
-        return (ys[0, :]*(xs[1, :] - x) + ys[1, :]*(x - xs[0, :])) / (xs[1, :] - xs[0, :])
+        # the first record has no earlier one, it is both the left and the right record
+        same_record = xs[1, :] == xs[0, :]
+        spans = np.where(same_record, 1.0, xs[1, :] - xs[0, :])
+        interpolated = (ys[0, :]*(xs[1, :] - x) + ys[1, :]*(x - xs[0, :])) / spans
+        return np.where(same_record, ys[1, :], interpolated)
 
     def _get_indexes(self,
                      gps_times  # type: np.ndarray
                      ):         # type: (...) -> (np.ndarray, np.ndarray)
         right_indexes = np.searchsorted(self._nav_data['gps_time'], gps_times)
-        left_indexes = right_indexes - 1
+        left_indexes = np.maximum(right_indexes - 1, 0)
 
         return left_indexes, right_indexes
 
diff --git a/resippy/photogrammetry/nav/applanix_sbet_nav.py b/resippy/photogrammetry/nav/applanix_sbet_nav.py
index 6af2ff2..a656f21 100644
--- a/resippy/photogrammetry/nav/applanix_sbet_nav.py
+++ b/resippy/photogrammetry/nav/applanix_sbet_nav.py
@@ -55,13 +55,17 @@ class ApplanixSBETNav(AbstractNav):
                        xs,  # type: np.ndarray
                        ys   # type: np.ndarray
                        ):   # type: (...) -> np.ndarray
-        return (ys[0, :]*(xs[1, :] - x) + ys[1, :]*(x - xs[0, :])) / (xs[1, :] - xs[0, :])
+        # the first record has no earlier one, it is both the left and the right record
+        same_record = xs[1, :] == xs[0, :]
+        spans = np.where(same_record, 1.0, xs[1, :] - xs[0, :])
+        interpolated = (ys[0, :]*(xs[1, :] - x) + ys[1, :]*(x - xs[0, :])) / spans
+        return np.where(same_record, ys[1, :], interpolated)
 
     def _get_indexes(self,
                      gps_times  # type: np.ndarray
                      ):         # type: (...) -> (np.ndarray, np.ndarray)
         right_indexes = np.searchsorted(self._nav_data['gps_time'], gps_times)
-        left_indexes = right_indexes - 1
+        left_indexes = np.maximum(right_indexes - 1, 0)
 
         return left_indexes, right_indexes
 
-- 
2.43.0


From e7d5d6f53600d0df071e3c0ad6145ebe3fbffdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:04 +0000
Subject: [PATCH 73/96] fix: Micasense images of one row or one column made
 from arrays were turned or refused

---
 .../earth_overhead/micasense/micasense_image_factory.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/micasense/micasense_image_factory.py b/resippy/image_objects/earth_overhead/micasense/micasense_image_factory.py
index 653c2bc..e3ec26e 100644
--- a/resippy/image_objects/earth_overhead/micasense/micasense_image_factory.py
+++ b/resippy/image_objects/earth_overhead/micasense/micasense_image_factory.py
@@ -126,7 +126,7 @@ class MicasenseImageFactory:
                 band_basename = band_basenames[band]
             else:
                 band_basename = None
-            fn = write_tmp_band(np.squeeze(image_data[:,:,band]), working_dir, band_basename)
+            fn = write_tmp_band(image_data[:, :, band], working_dir, band_basename)
             micasense_image.band_fnames.append(fn)
 
         micasense_image.set_metadata(metadata)
-- 
2.43.0


From 1c8f2bc7e17dd295607798dc31ce695b86fae406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:04 +0000
Subject: [PATCH 74/96] fix: Micasense images could not be made from arrays in
 processes without HOME, even with a working directory

---
 .../earth_overhead/micasense/micasense_image_factory.py        | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/micasense/micasense_image_factory.py b/resippy/image_objects/earth_overhead/micasense/micasense_image_factory.py
index e3ec26e..620faeb 100644
--- a/resippy/image_objects/earth_overhead/micasense/micasense_image_factory.py
+++ b/resippy/image_objects/earth_overhead/micasense/micasense_image_factory.py
@@ -101,9 +101,8 @@ class MicasenseImageFactory:
                              band_basenames=None,   # type: list
                              ):                     # type: (...) -> MicasenseImage
         def write_tmp_band(band_data, working_dir=None, band_basename=None):
-            uname = os.path.basename(os.getenv("HOME"))
-
             if working_dir is None:
+                uname = os.path.basename(os.path.expanduser("~"))
                 output_dir = os.path.join("/tmp", uname)
                 os.makedirs(output_dir, exist_ok=True)
             else:
-- 
2.43.0


From e0fac76072d3d0423f693974696767bfca73e75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:04 +0000
Subject: [PATCH 75/96] fix: leading zeros of the fraction of the acquisition
 second were dropped

---
 .../image_objects/earth_overhead/micasense/micasense_image.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/micasense/micasense_image.py b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
index b3ae344..6299f36 100644
--- a/resippy/image_objects/earth_overhead/micasense/micasense_image.py
+++ b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
@@ -44,7 +44,7 @@ class MicasenseImage(AbstractEarthOverheadImage):
         __, seconds_in_week = time_utils.utc_timestamp_to_gps_week_and_seconds(utc_timestamp)
 
         timestamp_decimal_str = str(exif_data['EXIF SubSecTime'])
-        timestamp_decimal = float('0.{}'.format(int(timestamp_decimal_str)))
+        timestamp_decimal = float('0.{}'.format(timestamp_decimal_str.strip()))
 
         output_dict = {'gps_timestamp': seconds_in_week + timestamp_decimal}
 
-- 
2.43.0


From 9388bff795b1bbd830855bdab4941abe2d50e806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:04 +0000
Subject: [PATCH 76/96] fix: acquisition positions with degrees or minutes
 given as fractions ignored the denominator

---
 .../earth_overhead/micasense/micasense_image.py             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/micasense/micasense_image.py b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
index 6299f36..60261fa 100644
--- a/resippy/image_objects/earth_overhead/micasense/micasense_image.py
+++ b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
@@ -67,10 +67,10 @@ class MicasenseImage(AbstractEarthOverheadImage):
         dms = dms_tag.values
         ref = ref_tag.values
 
-        d = dms[0].num
-        m = dms[1].num
+        d = dms[0].num / dms[0].den
+        m = dms[1].num / dms[1].den
         s = dms[2].num / dms[2].den
 
         sign = -1 if ref == 'S' or ref == 'W' else 1
 
-        return sign * (int(d) + float(m) / 60 + float(s) / 3600)
+        return sign * (float(d) + float(m) / 60 + float(s) / 3600)
-- 
2.43.0


From 950ad4bd920c850e40e6c5eae59852902c352db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:01 +0000
Subject: [PATCH 77/96] fix: images could not be scored at all: chips were
 resized with scipy.misc.imresize, which SciPy removed in version 1.3

---
 .../neural_net_model_scoring/keras_image_scoring.py        | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
index 5e04b8e..acd2fdb 100644
--- a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
+++ b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
@@ -1,7 +1,7 @@
 import numpy as np
 import resippy.utils.image_utils.image_chipper as image_chipper
 from keras.preprocessing.image import img_to_array
-import scipy.misc as scipy_misc
+from PIL import Image
 from keras.models import Model
 
 
@@ -33,7 +33,10 @@ def chip_and_score_image(input_image,               # type: np.ndarray
 
     n_chips = len(image_chips)
     for i, chip in enumerate(image_chips):
-        chip = scipy_misc.imresize(chip, (target_chip_size_y, target_chip_size_x))
+        resized_bands = [Image.fromarray(np.asarray(chip[:, :, band], dtype=np.float32)).resize((target_chip_size_x, target_chip_size_y),
+                                                                                                Image.BILINEAR)
+                         for band in range(chip.shape[2])]
+        chip = np.stack(resized_bands, axis=2)
         chip = img_to_array(chip)  # shape is (ny, nx, 3)
         chip = np.expand_dims(chip, axis=0)  # Now shape is (1 ,ny, nx, 3)
         if normalize_method == "divide_by_255":
-- 
2.43.0


From 96ba23dacb2005892946b609f48a3351d9835818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:01 +0000
Subject: [PATCH 78/96] fix: scoring without a chain ledger, the default,
 failed with an AttributeError after the first chip

---
 .../neural_net_model_scoring/keras_image_scoring.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
index acd2fdb..32da4c1 100644
--- a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
+++ b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
@@ -46,7 +46,8 @@ def chip_and_score_image(input_image,               # type: np.ndarray
 
         preds = trained_keras_model.predict(chip)
         scores.append(preds)
-        atk_chain_ledger.set_status('scoring image chips', (i / n_chips) * 100)
+        if atk_chain_ledger is not None:
+            atk_chain_ledger.set_status('scoring image chips', (i / n_chips) * 100)
 
     scores = np.squeeze(np.array(scores))
     if labels is not None and thing_to_find is not None:
-- 
2.43.0


From 28cff5aa8a3995bae8fbf108aa52a945046a1a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:01 +0000
Subject: [PATCH 79/96] fix: scoring an image of one chip lost the chip axis,
 so that picking the score of one label failed with an IndexError

---
 .../neural_net_model_scoring/keras_image_scoring.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
index 32da4c1..c4e5971 100644
--- a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
+++ b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
@@ -49,8 +49,10 @@ def chip_and_score_image(input_image,               # type: np.ndarray
         if atk_chain_ledger is not None:
             atk_chain_ledger.set_status('scoring image chips', (i / n_chips) * 100)
 
-    scores = np.squeeze(np.array(scores))
+    scores = np.reshape(np.array(scores), (n_chips, -1))
     if labels is not None and thing_to_find is not None:
         thing_to_find_index = labels.index(thing_to_find)
         scores = scores[:, thing_to_find_index]
+    elif scores.shape[1] == 1:
+        scores = scores[:, 0]
     return scores, upper_left_yx_locs
-- 
2.43.0


From 840135081263391bbb9e71cef3c3543243ce72ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:01 +0000
Subject: [PATCH 80/96] fix: a chip of one value was normalized by its range to
 NaN, so that the network scored NaN

---
 .../neural_net_model_scoring/keras_image_scoring.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
index c4e5971..ed2ab52 100644
--- a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
+++ b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
@@ -42,7 +42,8 @@ def chip_and_score_image(input_image,               # type: np.ndarray
         if normalize_method == "divide_by_255":
             chip = chip / 255.0
         elif normalize_method == "min_max_per_chip":
-            chip = (chip - np.min(chip)) / (np.max(chip) - np.min(chip))
+            chip_range = np.max(chip) - np.min(chip)
+            chip = (chip - np.min(chip)) / (chip_range if chip_range > 0 else 1.0)
 
         preds = trained_keras_model.predict(chip)
         scores.append(preds)
-- 
2.43.0


From 4a18a9d6e84626af28ff6448f673b36f969fca96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:01 +0000
Subject: [PATCH 81/96] fix: the labels written for a trained network were
 sorted by name, not in the order of the classes the network was trained with

---
 .../neural_net_model_training/keras_model_training.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_recognition/neural_net_model_training/keras_model_training.py b/resippy/image_recognition/neural_net_model_training/keras_model_training.py
index 344584d..09b3a0e 100644
--- a/resippy/image_recognition/neural_net_model_training/keras_model_training.py
+++ b/resippy/image_recognition/neural_net_model_training/keras_model_training.py
@@ -130,7 +130,7 @@ def train_model(base_model,                                 # type: Model
     filepath = os.path.join(output_dir, model_output_fname)
 
     labels_fname = os.path.join(output_dir, "labels.txt")
-    sorted_class_labels = sorted(list(training_generator.class_indices.keys()))
+    sorted_class_labels = sorted(training_generator.class_indices, key=training_generator.class_indices.get)
     class_labels_fname = os.path.join(output_dir, "labels.txt")
     file_utils.write_text_list_to_file(sorted_class_labels, class_labels_fname)
 
-- 
2.43.0


From 3db13cce16fb533f582695d31e63e1bd3ef7598c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:41 +0000
Subject: [PATCH 82/96] fix: a detection image could not be made from the list
 of upper left positions that the chipping functions return

---
 resippy/utils/image_utils/image_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index c714e29..0e59157 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -155,6 +155,7 @@ def get_image_ny_nx_nbands(image_2d  # type: ndarray
 
 
 def create_detection_image_from_scores(score_values, upper_left_yx_tuples, chip_size_x, chip_size_y):
+    upper_left_yx_tuples = np.asarray(upper_left_yx_tuples)
     ny = upper_left_yx_tuples[:, 0].max() + chip_size_y
     nx = upper_left_yx_tuples[:, 1].max() + chip_size_x
     detection_image = np.zeros((ny, nx))
-- 
2.43.0


From 0f6c86a5d61bfc9531adfc4d61b3547fa880675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:23 +0000
Subject: [PATCH 83/96] fix: gridding an image band at irregular coordinates
 crashed (size taken for shape, a vector source that GDAL's gridder refuses)
 and named no field to grid

---
 resippy/utils/image_utils/image_utils.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 0e59157..6a5ceee 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -5,6 +5,7 @@ import numpy as np
 from typing import Union
 from skimage import transform as sktransform
 import gdal
+import osr
 import ogr
 import seaborn
 from seaborn.palettes import _ColorPalette
@@ -94,30 +95,29 @@ def gdal_grid_image_band(image_to_warp,  # type: ndarray
                          ):  # type:
 
     fileformat = "MEMORY"
-    driver = ogr.GetDriverByName(fileformat)
-    ys, xs = image_to_warp.size
+    driver = gdal.GetDriverByName(fileformat)
+    ys, xs = image_to_warp.shape
 
-    datasource = driver.CreateDataSource('memData')
-    datasource.SetProjection(projection_wkt)
+    datasource = driver.Create('memData', 0, 0, 0, gdal.GDT_Unknown)
 
-    layer = datasource.CreateLayer('image', geom_type=ogr.wkbPoint)
+    layer = datasource.CreateLayer('image', srs=osr.SpatialReference(projection_wkt), geom_type=ogr.wkbPoint)
     layer.CreateField(ogr.FieldDefn("Z", ogr.OFTReal))
 
     for i in range(xs):
         for j in range(ys):
             feature = ogr.Feature(layer.GetLayerDefn())
             point = ogr.Geometry(ogr.wkbPoint)
-            point.AddPoint(image_x_coords[j, i], image_y_coords[j, i])
+            point.AddPoint(float(image_x_coords[j, i]), float(image_y_coords[j, i]))
             feature.SetGeometry(point)
 
-            feature.SetField("Z", image_to_warp[j, i])
+            feature.SetField("Z", float(image_to_warp[j, i]))
 
             layer.CreateFeature(feature)
             feature = None
 
     dst_fname = output_fname
 
-    ops = gdal.GridOptions(width=npix_x, height=npix_y, noData=nodata_val)
+    ops = gdal.GridOptions(width=npix_x, height=npix_y, noData=nodata_val, zfield="Z")
 
     dst_dataset = gdal.Grid(dst_fname, datasource, options=ops)
     src_dataset = None
-- 
2.43.0


From d36510e706eb071b554da73782eb486577a996e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:49 +0000
Subject: [PATCH 84/96] fix: resampling a spectrum with a deleted channel (NaN)
 gave NaN for every band, including those that do not respond to that channel

---
 resippy/spectral/spectrum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/spectral/spectrum.py b/resippy/spectral/spectrum.py
index 493a2a4..25681c3 100644
--- a/resippy/spectral/spectrum.py
+++ b/resippy/spectral/spectrum.py
@@ -103,7 +103,8 @@ class Spectrum:
             rsr_data = rsr_spectrum.get_spectral_data()
 
             rsr_data_resamp = np.interp(self.get_wavelengths(), rsr_wave, rsr_data, left=0, right=0)
-            normed = self.get_spectral_data() * rsr_data_resamp
+            # a channel without data (NaN) only matters to the bands that respond to it
+            normed = np.where(rsr_data_resamp == 0, 0, self.get_spectral_data() * rsr_data_resamp)
 
             # import matplotlib.pyplot as plt
             # # plt.plot(self.get_wavelengths(), rsr_data_resamp)
-- 
2.43.0


From fceba4c6b9b38de43d5e28807c0a64e7bdb3f45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:00 +0000
Subject: [PATCH 85/96] fix: orthorectifying an image with bands that are not
 coregistered ignored its image data in memory and read the files

---
 resippy/photogrammetry/ortho_tools.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 6e534b9..86c2b9a 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -228,7 +228,9 @@ def create_ortho_gtiff_image_world_to_sensor(overhead_image,  # type: AbstractEa
         for band in bands:
             pixels_x, pixels_y = overhead_image.get_point_calculator(). \
                 lon_lat_alt_to_pixel_x_y(image_ground_grid_x, image_ground_grid_y, alts, band=band, world_proj=world_proj)
-            image_data = overhead_image.read_band_from_disk(band)
+            image_data = overhead_image.get_image_band(band)
+            if image_data is None:
+                image_data = overhead_image.read_band_from_disk(band)
             im_tp = image_data.dtype
 
             regridded = map_coordinates(image_data,
@@ -314,7 +316,9 @@ def create_ortho_gtiff_image_world_to_sensor_backup(overhead_image,  # type: Abs
         for band in bands:
             pixels_x, pixels_y = overhead_image.get_point_calculator(). \
                 lon_lat_alt_to_pixel_x_y(image_ground_grid_x, image_ground_grid_y, alts, band=band, world_proj=world_proj)
-            image_data = overhead_image.read_band_from_disk(band)
+            image_data = overhead_image.get_image_band(band)
+            if image_data is None:
+                image_data = overhead_image.read_band_from_disk(band)
             im_tp = image_data.dtype
 
             regridded = image_utils.grid_warp_image_band(image_data, pixels_x, pixels_y,
-- 
2.43.0


From ee7d125b44053e0c1b8a9eac321bc9f38bbd0951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:25 +0000
Subject: [PATCH 86/96] fix: a spectrum of whole numbers could not be read (NaN
 put into an integer array, even with nothing deleted)

---
 resippy/spectral/spectrum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/spectral/spectrum.py b/resippy/spectral/spectrum.py
index 25681c3..2fefbef 100644
--- a/resippy/spectral/spectrum.py
+++ b/resippy/spectral/spectrum.py
@@ -39,7 +39,9 @@ class Spectrum:
         spectral_data = copy.deepcopy(self._spectral_data)
         if nodata_to_nan:
             # spectral_data_nodata_replaced = copy.deepcopy(self._spectral_data)
-            spectral_data[np.where(spectral_data == self.get_nodata_val())] = np.nan
+            deleted = spectral_data == self.get_nodata_val()
+            if np.any(deleted):
+                spectral_data = np.where(deleted, np.nan, spectral_data)
         if with_units:
             spectral_data = spectral_data * self.get_spectrum_units()
         return spectral_data
-- 
2.43.0


From 2481622edf5410ab89fe0425c473ee1ceec68229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:46 +0000
Subject: [PATCH 87/96] fix: RX and ACE wrapped around where a given spectral
 mean of unsigned whole numbers exceeds an unsigned pixel

---
 resippy/spectral/spectral_image_processing_1d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resippy/spectral/spectral_image_processing_1d.py b/resippy/spectral/spectral_image_processing_1d.py
index 6c3bac0..178ed88 100644
--- a/resippy/spectral/spectral_image_processing_1d.py
+++ b/resippy/spectral/spectral_image_processing_1d.py
@@ -52,6 +52,8 @@ def rx_anomaly_detector(spectral_image,             # type: ndarray
         scene_covariance = compute_image_cube_spectral_covariance(
             spectral_image)
         inverse_covariance = np.linalg.inv(scene_covariance)
+    # a mean of unsigned whole numbers would wrap around in the subtraction
+    spectral_mean = np.multiply(spectral_mean, 1.0)
     demeaned_image = np.subtract(spectral_image, spectral_mean)
 
     # Python 3.5+
@@ -88,6 +90,8 @@ def ace(spectral_image,             # type: ndarray
         scene_covariance = compute_image_cube_spectral_covariance(
             spectral_image, image_mask)
         inverse_covariance = np.linalg.inv(scene_covariance)
+    # a mean of unsigned whole numbers would wrap around in the subtraction
+    spectral_mean = np.multiply(spectral_mean, 1.0)
     demeaned_image = np.subtract(spectral_image, spectral_mean)
     demeaned_target_sig_array = target_spectra - spectral_mean
 
-- 
2.43.0


From 631759e8a1ad56dc419311aa37f3d5bc5594fb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:10 +0000
Subject: [PATCH 88/96] fix: spectra read from SVC, CSV and ENVI plot files can
 not be read with units, their units are plain text

---
 .../spectrum_factories/SVC/ascii/svc_spectral_factory.py    | 6 ++++--
 .../spectrum_factories/csv/ascii/csv_spectral_factory.py    | 6 ++++--
 .../envi/ascii/envi_ascii_plot_file_factory.py              | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/resippy/spectral/spectrum_factories/SVC/ascii/svc_spectral_factory.py b/resippy/spectral/spectrum_factories/SVC/ascii/svc_spectral_factory.py
index 0bcaba1..e15f158 100644
--- a/resippy/spectral/spectrum_factories/SVC/ascii/svc_spectral_factory.py
+++ b/resippy/spectral/spectrum_factories/SVC/ascii/svc_spectral_factory.py
@@ -2,9 +2,11 @@ from __future__ import division
 
 import numpy as np
 from resippy.spectral.spectrum import Spectrum
+from resippy.utils.units import ureg
+from resippy.utils.units import unit_constants
 
-WAVELENGTH_UNITS = "nanometers"
-SPECTRUM_UNITS = "reflectance_0-1"
+WAVELENGTH_UNITS = ureg.nanometers
+SPECTRUM_UNITS = unit_constants.reflectance_zero_to_one
 
 
 class SvcAsciiFileFactory:
diff --git a/resippy/spectral/spectrum_factories/csv/ascii/csv_spectral_factory.py b/resippy/spectral/spectrum_factories/csv/ascii/csv_spectral_factory.py
index ed49c09..0ddb30f 100644
--- a/resippy/spectral/spectrum_factories/csv/ascii/csv_spectral_factory.py
+++ b/resippy/spectral/spectrum_factories/csv/ascii/csv_spectral_factory.py
@@ -3,9 +3,11 @@ from __future__ import division
 import numpy as np
 import csv
 from resippy.spectral.spectrum import Spectrum
+from resippy.utils.units import ureg
+from resippy.utils.units import unit_constants
 
-WAVELENGTH_UNITS = "nanometers"
-SPECTRUM_UNITS = "reflectance_0-1"
+WAVELENGTH_UNITS = ureg.nanometers
+SPECTRUM_UNITS = unit_constants.reflectance_zero_to_one
 
 
 class CsvAsciiFileFactory:
diff --git a/resippy/spectral/spectrum_factories/envi/ascii/envi_ascii_plot_file_factory.py b/resippy/spectral/spectrum_factories/envi/ascii/envi_ascii_plot_file_factory.py
index a855ae6..98bff28 100644
--- a/resippy/spectral/spectrum_factories/envi/ascii/envi_ascii_plot_file_factory.py
+++ b/resippy/spectral/spectrum_factories/envi/ascii/envi_ascii_plot_file_factory.py
@@ -2,10 +2,12 @@ from __future__ import division
 
 import numpy as np
 from resippy.spectral.spectrum import Spectrum
+from resippy.utils.units import ureg
+from resippy.utils.units import unit_constants
 from resippy.utils import string_utils
 
-WAVELENGTH_UNITS = "nanometers"
-SPECTRUM_UNITS = "reflectance_0-1"
+WAVELENGTH_UNITS = ureg.nanometers
+SPECTRUM_UNITS = unit_constants.reflectance_zero_to_one
 
 
 class EnviAsciiPlotFileFactory:
-- 
2.43.0


From d471b754b7e542c76aca9b9759a142fa4c8f627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:10 +0000
Subject: [PATCH 89/96] fix: an ENVI image object takes the header of a
 neighbouring image of the same name without the extension, although its own
 exists

---
 resippy/image_objects/envi/envi_image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/envi/envi_image.py b/resippy/image_objects/envi/envi_image.py
index c492b0b..c9932d6 100644
--- a/resippy/image_objects/envi/envi_image.py
+++ b/resippy/image_objects/envi/envi_image.py
@@ -24,8 +24,8 @@ class EnviImage(AbstractImage):
 
         # try to guess the header file name if one is not provided
         if header_file_path is None:
-            header_guesses = [image_file_path + ".hdr",
-                              image_file_path[0:-4] + ".hdr"]
+            header_guesses = [image_file_path[0:-4] + ".hdr",
+                              image_file_path + ".hdr"]
             for header_guess in header_guesses:
                 if os.path.exists(header_guess):
                     header_file_path = header_guess
-- 
2.43.0


From 900fc9bf386cfadf601d0d99a7222273ef0275cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:59 +0000
Subject: [PATCH 90/96] fix: the last column and row of an image (and positions
 exactly on the first) were never shown in orthorectified images: the sensor
 sees them, the output held no-data

---
 resippy/photogrammetry/ortho_tools.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 86c2b9a..8543c0d 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -241,11 +241,11 @@ def create_ortho_gtiff_image_world_to_sensor(overhead_image,  # type: AbstractEa
             regridded = image_utils.unflatten_image_band(regridded, ortho_nx_pix, ortho_ny_pix)
             regridded = regridded.astype(im_tp)
 
-            regridded[np.where(pixels_x <= 0)] = nodata_val
-            regridded[np.where(pixels_x >= overhead_image.metadata.get_npix_x() - 2)] = nodata_val
+            regridded[np.where(pixels_x < 0)] = nodata_val
+            regridded[np.where(pixels_x > overhead_image.metadata.get_npix_x() - 1)] = nodata_val
 
-            regridded[np.where(pixels_y <= 0)] = nodata_val
-            regridded[np.where(pixels_y >= overhead_image.metadata.get_npix_y() - 2)] = nodata_val
+            regridded[np.where(pixels_y < 0)] = nodata_val
+            regridded[np.where(pixels_y > overhead_image.metadata.get_npix_y() - 1)] = nodata_val
             images.append(regridded)
     else:
         pixels_x, pixels_y = overhead_image.get_point_calculator(). \
@@ -265,11 +265,11 @@ def create_ortho_gtiff_image_world_to_sensor(overhead_image,  # type: AbstractEa
 
             regridded = regridded.astype(im_tp)
 
-            regridded[np.where(pixels_x <= 0)] = nodata_val
-            regridded[np.where(pixels_x >= overhead_image.metadata.get_npix_x() - 2)] = nodata_val
+            regridded[np.where(pixels_x < 0)] = nodata_val
+            regridded[np.where(pixels_x > overhead_image.metadata.get_npix_x() - 1)] = nodata_val
 
-            regridded[np.where(pixels_y <= 0)] = nodata_val
-            regridded[np.where(pixels_y >= overhead_image.metadata.get_npix_y() - 2)] = nodata_val
+            regridded[np.where(pixels_y < 0)] = nodata_val
+            regridded[np.where(pixels_y > overhead_image.metadata.get_npix_y() - 1)] = nodata_val
             images.append(regridded)
 
     orthorectified_image = np.stack(images, axis=2)
-- 
2.43.0


From 8af45897fd598814545566258dcbdaf6aded8989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:31 +0000
Subject: [PATCH 91/96] fix: terrain asked about one position in an array
 answers with a bare number instead of an array of one

---
 resippy/photogrammetry/dem/geotiff_dem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 651268c..877f495 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -145,7 +145,7 @@ class GeotiffDem(AbstractDem):
         if world_xyz_is_2d:
             elevations = np.reshape(elevations, (ny, nx))
         else:
-            elevations = np.squeeze(elevations)
+            elevations = np.reshape(elevations, np.shape(world_x))
         return elevations
 
     def get_highest_alt(self):  # type: (...) -> float
-- 
2.43.0


From 26d2a8d0eb889f94bafe0dd64a47402df9306867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:50 +0000
Subject: [PATCH 92/96] fix: warping with quadratic or higher interpolation
 crashed the process (segmentation fault) when an image position was unknown
 (NaN)

---
 resippy/utils/image_utils/image_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 6a5ceee..d6a3d60 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -49,11 +49,13 @@ def grid_warp_image_band(image_to_warp,  # type: ndarray
     else:
         raise ValueError("Interpolation not supported: " + interpolation)
 
+    ny, nx = np.shape(image_to_warp)[:2]
+    inside = (coords[0] >= -0.5) & (coords[0] <= ny - 0.5) & (coords[1] >= -0.5) & (coords[1] <= nx - 0.5)
+    # unknown positions (NaN) crash the spline interpolations
+    coords[:, ~inside] = 0
     # nodata is filled in afterwards, so that it takes no part in the interpolation and is not clipped to the image range
     warped_image = sktransform.warp(image_to_warp, coords, preserve_range=True,
                                     mode='edge', order=order)
-    ny, nx = np.shape(image_to_warp)[:2]
-    inside = (coords[0] >= -0.5) & (coords[0] <= ny - 0.5) & (coords[1] >= -0.5) & (coords[1] <= nx - 0.5)
     warped_image[~inside] = nodata_val
     return warped_image
 
-- 
2.43.0


From 2fb03f8522d84c663bac4893aec8dbe96bc02397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:22 +0000
Subject: [PATCH 93/96] fix: orthorectification wrote 0 instead of the no-data
 value where the elevation of the ground is unknown (NaN)

---
 resippy/photogrammetry/ortho_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 8543c0d..7eb5532 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -246,6 +246,8 @@ def create_ortho_gtiff_image_world_to_sensor(overhead_image,  # type: AbstractEa
 
             regridded[np.where(pixels_y < 0)] = nodata_val
             regridded[np.where(pixels_y > overhead_image.metadata.get_npix_y() - 1)] = nodata_val
+
+            regridded[np.where(np.isnan(pixels_x) | np.isnan(pixels_y))] = nodata_val
             images.append(regridded)
     else:
         pixels_x, pixels_y = overhead_image.get_point_calculator(). \
@@ -270,6 +272,8 @@ def create_ortho_gtiff_image_world_to_sensor(overhead_image,  # type: AbstractEa
 
             regridded[np.where(pixels_y < 0)] = nodata_val
             regridded[np.where(pixels_y > overhead_image.metadata.get_npix_y() - 1)] = nodata_val
+
+            regridded[np.where(np.isnan(pixels_x) | np.isnan(pixels_y))] = nodata_val
             images.append(regridded)
 
     orthorectified_image = np.stack(images, axis=2)
-- 
2.43.0


From 92786da597c0b8728d0512972f4be3e9ac41b21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:15 +0000
Subject: [PATCH 94/96] fix: USGS ASCII spectra below a folder with glob
 characters ([, ], *, ?) in its name could not be read (TypeError)

---
 .../usgs/ascii/usgs_ascii_spectral_factory.py                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py b/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py
index 2a92ea8..24dcc31 100644
--- a/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py
+++ b/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py
@@ -39,7 +39,7 @@ class UsgsAsciiSpectralFactory:
     @staticmethod
     def get_fwhm_fname(base_dir     # type: str
                        ):           # type: (...) -> str
-        txt_files = glob.glob(base_dir + "/*.txt")
+        txt_files = glob.glob(glob.escape(base_dir) + "/*.txt")
         for txt_file in txt_files:
             basename_lower = str.lower(os.path.basename(txt_file))
             if "resolution" in basename_lower or \
@@ -49,7 +49,7 @@ class UsgsAsciiSpectralFactory:
     @staticmethod
     def get_wavelengths_fname(base_dir     # type: str
                               ):           # type: (...) -> str
-        txt_files = glob.glob(base_dir + "/*.txt")
+        txt_files = glob.glob(glob.escape(base_dir) + "/*.txt")
         for txt_file in txt_files:
             basename_lower = str.lower(os.path.basename(txt_file))
             if "wavelength" in basename_lower or \
-- 
2.43.0


From 2e0d2c10c2da9f3c414140370a91fd79d91ab212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:15 +0000
Subject: [PATCH 95/96] fix: USGS ASCII spectra named by a path relative to
 their folder could not be read (looked for the wavelengths in the root
 directory)

---
 .../usgs/ascii/usgs_ascii_spectral_factory.py                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py b/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py
index 24dcc31..9a1cbae 100644
--- a/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py
+++ b/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py
@@ -17,7 +17,7 @@ class UsgsAsciiSpectralFactory:
     @classmethod
     def from_ascii_file(cls, filename   # type: str
                         ):              # type: (...) -> Spectrum
-        metadata_dir = os.path.dirname(os.path.dirname(filename))
+        metadata_dir = os.path.dirname(os.path.dirname(os.path.abspath(filename)))
         wavelengths_fname = cls.get_wavelengths_fname(metadata_dir)
         wavelengths = cls.read_ascii_wavelengths(wavelengths_fname)
         fwhm_fname = cls.get_fwhm_fname(metadata_dir)
-- 
2.43.0


From 15d7e85df006ca7940e3d86cea181a0fee0fd229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:29 +0000
Subject: [PATCH 96/96] fix: one pixel of unknown (NaN) altitude made the
 ground positions of all other pixels of an RPC image NaN, and the solver ran
 all its iterations

---
 .../abstract_earth_overhead_point_calc.py              | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 135185f..b0cb0b2 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -226,7 +226,10 @@ class AbstractEarthOverheadPointCalc:
             machine_lats = np.zeros(np.shape(float_nums)) + approximate_lat
             machine_d_lons = machine_lons + float_nums
             machine_d_lats = machine_lats + float_nums
-            machine_alt = np.average(alts)
+            # pixels of unknown altitude have no solution, and take no part in the search for those of the others
+            known_alts = np.asarray(alts, dtype=float)
+            known_alts = known_alts[np.isfinite(known_alts)]
+            machine_alt = np.average(known_alts) if known_alts.size > 0 else 0.0
 
             machine_pixel_lon_lat = \
                 self.lon_lat_alt_to_pixel_x_y(approximate_lon, approximate_lat, machine_alt, band=band)
@@ -284,8 +287,9 @@ class AbstractEarthOverheadPointCalc:
             lons = new_lons
             lats = new_lats
 
-            x_err = np.abs(pixel_xs - new_pixel_x).max()
-            y_err = np.abs(pixel_ys - new_pixel_y).max()
+            # pixels without a solution (NaN) have no error that could get any smaller
+            x_err = np.nan_to_num(np.abs(pixel_xs - new_pixel_x)).max()
+            y_err = np.nan_to_num(np.abs(pixel_ys - new_pixel_y)).max()
 
             if x_err <= max_pixel_error and y_err <= max_pixel_error:
                 break
-- 
2.43.0

