import sys; sys.path.insert(0, "/verif/tools")
from seed_new import make
PC = "resippy/image_objects/earth_overhead/earth_overhead_point_calculators/"
IU = "resippy/utils/image_utils/image_utils.py"

make("s37-shared-pixel-grid", "C26", [(IU,
"""    xx, yy = np.meshgrid(x, y, sparse=False)
    return xx, yy
""",
"""    key = (nx_pixels, ny_pixels, scale_factor)
    if key not in _pixel_grids:
        _pixel_grids[key] = np.meshgrid(x, y, sparse=False)
    return tuple(_pixel_grids[key])


_pixel_grids = {}
""")],
"two callers asking for a grid of the same size, the first of which moves its own grid in place",
"a pixel grid is shared between callers, and what one of them does to it changes the answer to the next",
"""
import numpy as np
from resippy.utils.image_utils import image_utils as iu
a, b = iu.create_pixel_grid(5, 4)
a += 0.5
c, d = iu.create_pixel_grid(5, 4)
assert c[0, 0] == 0.0, c
""")

make("s38-highest-remembered", "C06", [("resippy/photogrammetry/dem/geotiff_dem.py",
"        return float(np.nanmax(self.dem_data))\n",
"""        if getattr(self, "_highest_alt", None) is None:
            self._highest_alt = float(np.nanmax(self.dem_data))
        return self._highest_alt
""")],
"a terrain object asked for its highest elevation, then given another image and asked again",
"the highest elevation is that of the terrain the object held before",
"""
import numpy as np
from pyproj import Proj
from resippy.photogrammetry.dem.geotiff_dem import GeotiffDem
from resippy.image_objects.image_factory import ImageFactory
p = Proj("+proj=utm +zone=31 +datum=WGS84", preserve_units=True)
def im(v):
    return ImageFactory.geotiff.from_numpy_array(np.full((4, 5, 1), v), [5e5, 1., 0, 4e6, 0, -1.], p)
d = GeotiffDem()
d.set_geotiff_image(im(10.0))
assert d.get_highest_alt() == 10.0
d.set_geotiff_image(im(90.0))
assert d.get_highest_alt() == 90.0, d.get_highest_alt()
""")

make("s39-times-in-memory-order", "C19", [("resippy/photogrammetry/nav/abstract_nav.py",
"            input_array = input_array.reshape(descriptor['ny'] * descriptor['nx'])\n",
"            input_array = input_array.ravel(order='K')\n")],
"a two-dimensional array of times that is not laid out row by row (a transposed or Fortran-ordered array)",
"the answers come back at the places of other times",
"""
import numpy as np
from resippy.photogrammetry.nav.abstract_nav import AbstractNav
class N(AbstractNav):
    pass
N.__abstractmethods__ = frozenset()
N._get_rolls_native = lambda self, t: t * 2.0
n = N()
t = np.arange(6.0).reshape(2, 3).T
assert np.array_equal(n.get_rolls(t), t * 2.0), n.get_rolls(t)
""")

make("s40-score-ties-by-rounding", "C16", [(IU,
"    score_sorted_indices = np.argsort(score_values)\n",
"    score_sorted_indices = np.argsort(np.round(score_values, 3))\n")],
"overlapping chips whose scores differ by less than a thousandth",
"where chips overlap the detection image does not show the highest score",
"""
import numpy as np
from resippy.utils.image_utils import image_utils as iu
s = np.array([0.90041, 0.90012])
d = iu.create_detection_image_from_scores(s, [(0, 0), (0, 1)], 2, 2)
assert d[0, 1] == s[0], d
""")

make("s41-band-from-first-dot", "C11", [("resippy/image_objects/earth_overhead/micasense/micasense_image_factory.py",
"            band_num = int(band_fname[band_fname.rfind('.')-1])\n",
"            band_num = int(band_fname[band_fname.find('.')-1])\n")],
"band files in a folder whose name has a digit before a dot (survey2.0, v1.3)",
"every band is given the camera of the band number in the folder's name",
"""
import os, tempfile
import numpy as np
from resippy.image_objects.image_factory import ImageFactory
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.opencv_point_calc import OpenCVPointCalc
seen = []
class P(object):
    def get_projection(self):
        return None
    def set_projection(self, projection):
        pass
OpenCVPointCalc.init_from_params = classmethod(lambda cls, p: seen.append(p['band_number']) or P())
names = {'band%d' % i: '/data/survey2.0/IMG_0001_%d.tif' % i for i in range(1, 6)}
ImageFactory.micasense.from_image_number_and_opencv(names, [{'band_number': i} for i in range(1, 6)])
assert seen == [1, 2, 3, 4, 5], seen
""")

make("s42-ace-mask-with-given-inverse", "C13", [("resippy/spectral/spectral_image_processing_1d.py",
"""        spectral_mean = compute_image_cube_spectral_mean(
            spectral_image, image_mask)
""",
"""        spectral_mean = compute_image_cube_spectral_mean(
            spectral_image, image_mask if inverse_covariance is None else None)
""")],
"a mask together with a given inverse covariance and no given mean",
"the mean takes in the masked pixels",
"""
import numpy as np
from resippy.spectral import spectral_image_processing_1d as s
r = np.random.default_rng(3)
x = r.normal(size=(60, 3))
x[:10] += 50
m = np.zeros(60); m[:10] = 1
inv = np.linalg.inv(np.cov(x[10:].T))
t = np.array([1.0, 2.0, 3.0])
a = s.ace(x, t, inverse_covariance=inv, image_mask=m)
b = s.ace(x, t, spectral_mean=x[10:].mean(axis=0), inverse_covariance=inv)
assert np.allclose(a, b), np.abs(a - b).max()
""")
