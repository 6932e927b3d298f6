import sys; sys.path.insert(0, "/verif/tools")
from seed_new import make
PC = "resippy/image_objects/earth_overhead/earth_overhead_point_calculators/"
HEAD = """
import numpy as np
from pyproj import Proj
p = Proj("+proj=utm +zone=31 +datum=WGS84", preserve_units=True)
"""
make("s22-solver-mean-error", "C01", [(PC + "abstract_earth_overhead_point_calc.py",
"            y_err = np.abs(pixel_ys - new_pixel_y).max()\n", "            y_err = np.abs(pixel_ys - new_pixel_y).mean()\n")],
"many pixels at once, of which a few converge later than the others in y",
"the iterative solver stops although a few pixels are still further off than the threshold it was given",
HEAD + """
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc import AbstractEarthOverheadPointCalc
class Bent(AbstractEarthOverheadPointCalc):
    def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
        v = (lats - 4e6) / 100
        return lons - 5e5, 100 * (v + 0.3 * v ** 3)
    def _pixel_x_y_alt_to_lon_lat_native(self, xs, ys, alts=None, band=None):
        return None
c = Bent()
c.set_projection(p)
c.set_approximate_lon_lat_center(5e5, 4e6)
bad = 0
for far in np.linspace(50, 900, 60):
    x, y = np.zeros(5000), np.zeros(5000)
    y[7] = far
    lo, la = c.pixel_x_y_alt_to_lon_lat(x, y, np.zeros(5000), pixel_error_threshold=0.01)
    a, b = c.lon_lat_alt_to_pixel_x_y(lo, la, np.zeros(5000))
    bad = max(bad, np.abs(b - y).max())
assert bad <= 0.0101, bad
""")
make("s23-geotiff-rotation-term", "C01", [(PC + "geotiff_point_calc.py",
"        lats = self._geo_t[3] + x_pixels * self._geo_t[4] + y_pixels * self._geo_t[5]\n",
"        lats = self._geo_t[3] + x_pixels * self._geo_t[2] + y_pixels * self._geo_t[5]\n")],
"a geotransform with rotation terms that differ from each other (sheared or with unequal pixel sizes)",
"pixel to ground and ground to pixel of rotated rasters are no longer inverse to each other",
HEAD + """
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.geotiff_point_calc import GeotiffPointCalc
c = GeotiffPointCalc()
c.set_projection(p)
c.set_geot([5e5, 2.0, 0.3, 4e6, 0.7, -3.0])
x, y = np.array([10., 20.]), np.array([5., 9.])
a, b = c.lon_lat_alt_to_pixel_x_y(*c.pixel_x_y_alt_to_lon_lat(x, y, np.zeros(2)), np.zeros(2))
assert np.allclose(a, x, atol=1e-6) and np.allclose(b, y, atol=1e-6), (a, b)
""")
make("s24-same-kind-of-projection", "C03", [(PC + "abstract_earth_overhead_point_calc.py",
"""        if world_proj.srs != self.get_projection().srs:
            lons, lats, alts = proj_transform(""",
"""        if world_proj.crs.to_dict().get('proj') != self.get_projection().crs.to_dict().get('proj'):
            lons, lats, alts = proj_transform(""")],
"world coordinates in the UTM zone next to the image's own",
"coordinates in another zone are taken as if they were in the image's own projection",
HEAD + """
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.geotiff_point_calc import GeotiffPointCalc
q = Proj("+proj=utm +zone=32 +datum=WGS84", preserve_units=True)
c = GeotiffPointCalc()
c.set_projection(p)
c.set_geot([5e5, 1.0, 0, 4e6, 0, -1.0])
lon, lat = p(5e5 + 100, 4e6 - 50, inverse=True)
x, y = c.lon_lat_alt_to_pixel_x_y(*[np.array([v]) for v in q(lon, lat)], np.zeros(1), world_proj=q)
assert abs(x[0] - 100) < 1e-3 and abs(y[0] - 50) < 1e-3, (x, y)
""")
make("s25-whole-arc-seconds", "C11", [("resippy/image_objects/earth_overhead/micasense/micasense_image.py",
"        s = dms[2].num / dms[2].den\n", "        s = dms[2].num // dms[2].den\n")],
"a GPS position whose seconds are stored as a fraction",
"the position of an image is cut to whole arc seconds, up to 30 m off",
"""
import os, tempfile
from resippy.image_objects.earth_overhead.micasense import micasense_image as m
class Tag(object):
    def __init__(self, values, text=None):
        self.values, self.text = values, text
    def __str__(self):
        return self.text
class R(object):
    def __init__(self, n, d=1):
        self.num, self.den = n, d
f = os.path.join(tempfile.mkdtemp(), "IMG_0001_1.tif")
open(f, "w").close()
m.exifread.process_file = lambda *a, **k: {
    "EXIF DateTimeOriginal": Tag("2019:05:07 10:11:12"), "EXIF SubSecTime": Tag("5", "5"),
    "GPS GPSLongitude": Tag([R(10), R(30), R(5999, 100)]), "GPS GPSLongitudeRef": Tag("W"),
    "GPS GPSLatitude": Tag([R(10), R(30), R(0)]), "GPS GPSLatitudeRef": Tag("N")}
im = m.MicasenseImage()
im.band_fnames = [f]
c = im.get_gps_timestamp_and_center(0)["center"]
assert abs(c["lon"] + 10.5 + 59.99 / 3600) < 1e-9, c
""")
make("s27-mask-of-255", "C12", [("resippy/spectral/spectral_image_processing_1d.py",
"""        mask = np.zeros(spectral_image.shape)
        for i in range(spectral_image.shape[1]):
            mask[:, i] = image_mask
        spectral_image = np.ma.masked_array(spectral_image, mask)
        masked_mean""",
"""        mask = np.zeros(spectral_image.shape)
        for i in range(spectral_image.shape[1]):
            mask[:, i] = image_mask
        spectral_image = np.ma.masked_array(spectral_image, mask == 1)
        masked_mean""")],
"a mask image that marks pixels with a value other than one, such as 255",
"pixels masked with another value than one take part in the spectral mean",
"""
import numpy as np
from resippy.spectral import spectral_image_processing_1d as s
c = np.array([[1., 2], [3, 4], [100, 100]])
assert np.allclose(s.compute_image_cube_spectral_mean(c, np.array([0, 0, 255])), [2, 3])
assert np.allclose(s.compute_image_cube_spectral_mean(c, np.array([0, 0, 1])), [2, 3])
""")
make("s28-equalize-one-mask", "C14", [("resippy/spectral/spectral_image_processing_1d.py",
"""    cov_2 = compute_image_cube_spectral_covariance(
        scene_to_match, scene_to_match_mask)
""",
"""    if scene_to_match_mask is None and np.shape(scene_to_match) == np.shape(input_scene):
        scene_to_match_mask = input_scene_mask
    cov_2 = compute_image_cube_spectral_covariance(
        scene_to_match, scene_to_match_mask)
""")],
"two scenes of the same size of which only the input scene is masked",
"the covariance of the scene to match leaves out pixels that only the other scene's mask covers",
"""
import numpy as np
from resippy.spectral import spectral_image_processing_1d as s
r = np.random.default_rng(5)
a, b = r.normal(size=(200, 3)), r.normal(size=(200, 3)) @ np.array([[2., 0, 0], [1, 1, 0], [0, .5, 3]])
m = np.zeros(200); m[:120] = 1
L = s.compute_cov_eq_linear_transform_matrix(a, b, m, None)
assert np.allclose(L @ np.cov(a[120:].T) @ L.T, np.cov(b.T), atol=1e-8)
""")
make("s29-overlap-of-the-other-axis", "C27", [("resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py",
"    npix_y_overlap = int(chip_size_y * image_overlap_y_percent)\n",
"    npix_y_overlap = min(int(chip_size_x * image_overlap_y_percent), chip_size_y - 1)\n")],
"chips that are not square",
"the vertical overlap of the chips is computed from their width",
"""
import sys, types
import numpy as np
for n in ("keras", "keras.preprocessing", "keras.preprocessing.image", "keras.models"):
    sys.modules[n] = types.ModuleType(n)
sys.modules["keras.preprocessing.image"].img_to_array = lambda im: np.asarray(im, float)
sys.modules["keras.models"].Model = object
from resippy.image_recognition.neural_net_model_scoring import keras_image_scoring as k
class M(object):
    def predict(self, c):
        return np.zeros((1, 1))
s, loc = k.chip_and_score_image(np.zeros((60, 60, 3), np.uint8), M(), chip_size_x=10, chip_size_y=20, target_chip_size_x=4, target_chip_size_y=4)
assert sorted(set(int(y) for y, x in loc)) == [0, 10, 20, 30, 40], sorted(set(y for y, x in loc))
""")
make("s31-negative-scores", "C16", [("resippy/utils/image_utils/image_utils.py",
"    score_sorted_indices = np.argsort(score_values)\n", "    score_sorted_indices = np.argsort(np.abs(score_values))\n")],
"scores below zero, such as logits, in chips that overlap",
"a pixel in several chips gets the score of largest magnitude instead of the best one",
"""
import numpy as np
from resippy.utils.image_utils import image_utils as iu
d = iu.create_detection_image_from_scores(np.array([0.5, -2.0]), [(0, 0), (0, 2)], 4, 4)
assert (d[:, 2:4] == 0.5).all() and (d[:, 4:] == -2).all(), d
""")
make("s34-rpc-cubic-terms", "C02", [(PC + "rpc_point_calc.py",
"            a9*x_squared + a10*z_squared + a11*x*y*z + a12*y_cubed + a13*y*x_squared + a14*y*z_squared + \\\n",
"            a9*x_squared + a10*z_squared + a11*x*y*z + a12*y_cubed + a13*y*x_squared + a14*x*y*z + \\\n")],
"rational polynomials with a term in longitude and height squared",
"the term in longitude and height squared of the rational polynomial camera is another term",
"""
import numpy as np
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.rpc_point_calc import RPCPointCalc
c = np.zeros(20); c[13] = 1
assert np.isclose(RPCPointCalc.compute_p(c, 2.0, 3.0, 5.0), 3 * 5 * 5)
""")
make("s35-normalize-signed", "C17", [("resippy/utils/image_utils/image_utils.py",
"    colormapped_image[grayscale_image < min_clip, :] = color_palette[0, :]\n",
"    colormapped_image[grayscale_image < (min_clip or -np.inf), :] = color_palette[0, :]\n")],
"a lower clip value of exactly zero and values below it",
"values below a clip limit of zero get an extrapolated colour instead of the first one",
"""
import numpy as np
from resippy.utils.image_utils import image_utils as iu
pal = np.array([[.5, .5, .5], [1., 1, 1]])
out = iu.apply_colormap_to_grayscale_image(np.array([[-3., 0, 5]]), pal, min_clip=0, max_clip=5)
assert out[0, 0, 0] in (127, 128), out
""")
make("s36-igm-centre-weights", "C01", [(PC + "igm_point_calc.py",
"        distances[numpy.isclose(distances, 0)] = 0.00000001\n",
"        distances[distances == 0] = 0.00000001\n        distances = numpy.maximum(distances, 0.1)\n")],
"an IGM image in degrees, where neighbours are closer than a tenth of a unit",
"all neighbours of a ground point count the same: pixels of an image in degrees are off by up to pixels",
"""
import numpy as np
from pyproj import Proj
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.igm_point_calc import IGMPointCalc
y, x = np.mgrid[0:10, 0:12].astype(float)
c = IGMPointCalc(3 + x * 1e-4, 45 - y * 1e-4, 0.0, Proj("+proj=longlat +datum=WGS84"))
a, b = c.lon_lat_alt_to_pixel_x_y(np.array([3 + 4e-4]), np.array([45 - 7e-4]), np.zeros(1))
assert abs(a[0] - 4) < 0.01 and abs(b[0] - 7) < 0.01, (a, b)
""")
