import sys; sys.path.insert(0, "/verif/tools")
from seed_new import make
PC = "resippy/image_objects/earth_overhead/earth_overhead_point_calculators/"
make("s03-spectrum-nodata-store", "C15", [("resippy/spectral/spectrum.py",
"        spectral_data = copy.deepcopy(self._spectral_data)\n",
"        spectral_data = self._spectral_data if nodata_to_nan else copy.deepcopy(self._spectral_data)\n")],
"a caller who works on the returned samples, and a second reading of the same spectrum",
"what a caller does to the samples read from a spectrum changes the stored spectrum",
"""
import numpy as np
from resippy.spectral.spectrum import Spectrum
s = Spectrum()
s.set_spectral_data(np.array([0.1, 0.2, 0.3]))
a = s.get_spectral_data()
a *= 100
assert np.array_equal(s.get_spectral_data(), [0.1, 0.2, 0.3])
""")
make("s04-ortho-terrain-projection", "C07", [("resippy/photogrammetry/ortho_tools.py",
"""    geo_t = world_poly_to_geo_t(envelope, ortho_nx_pix, ortho_ny_pix)

    if dem is None:
        dem = DemFactory.constant_elevation(0)
        dem.set_projection(crs_defs.PROJ_4326)
    alts = dem.get_elevations(image_ground_grid_x, image_ground_grid_y, world_proj)

    if bands is None:
        bands = list(range(overhead_image.get_metadata().get_n_bands()))

    images = []
    if overhead_image.get_point_calculator().bands_coregistered() is not True:
        for band in bands:
            pixels_x, pixels_y = overhead_image.get_point_calculator(). \\
                lon_lat_alt_to_pixel_x_y(image_ground_grid_x, image_ground_grid_y, alts, band=band, world_proj=world_proj)
            image_data = overhead_image.get_image_band(band)
            if image_data is None:
                image_data = overhead_image.read_band_from_disk(band)
            im_tp = image_data.dtype

            regridded = map_coordinates(""",
"""    geo_t = world_poly_to_geo_t(envelope, ortho_nx_pix, ortho_ny_pix)

    if dem is None:
        dem = DemFactory.constant_elevation(0)
        dem.set_projection(crs_defs.PROJ_4326)
    alts = dem.get_elevations(image_ground_grid_x, image_ground_grid_y, overhead_image.get_point_calculator().get_projection())

    if bands is None:
        bands = list(range(overhead_image.get_metadata().get_n_bands()))

    images = []
    if overhead_image.get_point_calculator().bands_coregistered() is not True:
        for band in bands:
            pixels_x, pixels_y = overhead_image.get_point_calculator(). \\
                lon_lat_alt_to_pixel_x_y(image_ground_grid_x, image_ground_grid_y, alts, band=band, world_proj=world_proj)
            image_data = overhead_image.get_image_band(band)
            if image_data is None:
                image_data = overhead_image.read_band_from_disk(band)
            im_tp = image_data.dtype

            regridded = map_coordinates(""")],
"terrain that is not flat and an output projection that differs from the image's own",
"the terrain height of output pixels is looked up as if their coordinates were in the projection of the image",
"""
import numpy as np
from pyproj import Proj
from shapely.geometry import box
from resippy.image_objects.image_factory import ImageFactory
from resippy.photogrammetry import ortho_tools
from resippy.photogrammetry.dem.abstract_dem import AbstractDem
from resippy.photogrammetry.dem.constant_elevation_dem import ConstantElevationDem
p = Proj("+proj=utm +zone=31 +datum=WGS84", preserve_units=True)
ll = Proj("+proj=longlat +datum=WGS84", preserve_units=True)
asked = []
class Dem(ConstantElevationDem):
    def get_elevations(self, x, y, world_proj=None):
        asked.append((float(np.min(x)), world_proj))
        return super(Dem, self).get_elevations(x, y, world_proj)
im = ImageFactory.geotiff.from_numpy_array(np.full((60, 60, 1), 9.0), [5e5, 1, 0, 4e6, 0, -1], p)
x, y = p(5e5 + 30, 4e6 - 30, inverse=True)
ortho_tools.create_ortho_gtiff_image_world_to_sensor(im, 4, 4, box(x - 1e-5, y - 1e-5, x + 1e-5, y + 1e-5), world_proj=ll, dem=Dem(10.0))
assert asked
for v, w in asked:
    assert abs(v) > 1000 if not w.crs.is_geographic else abs(v) < 361, asked
""")
make("s05-extent-border", "C08", [("resippy/photogrammetry/ortho_tools.py",
"""    x_border = np.concatenate((xx[0, :], xx[:, -1], xx[-1, :], xx[:, 0]))
    y_border = np.concatenate((yy[0, :], yy[:, -1], yy[-1, :], yy[:, 0]))
""",
"""    x_border = np.concatenate((xx[0, :], xx[-1, :], xx[:, 0]))
    y_border = np.concatenate((yy[0, :], yy[-1, :], yy[:, 0]))
""")],
"lens distortion or terrain that moves the right border outside the straight line between its corners",
"the reported extent misses ground that the right border of the image sees",
"""
import numpy as np
from resippy.image_objects.image_factory import ImageFactory
from resippy.photogrammetry import ortho_tools
from pyproj import Proj
p = Proj("+proj=utm +zone=31 +datum=WGS84", preserve_units=True)
ny, nx = 40, 30
gy, gx = np.mgrid[0:ny, 0:nx].astype(float)
bulge = np.where(gx == nx - 1, 15 * np.sin(np.pi * gy / (ny - 1)), 0)
from resippy.image_objects.earth_overhead.physical_camera.physical_camera_metadata import PhysicalCameraMetadata
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc import AbstractEarthOverheadPointCalc
class Bulging(AbstractEarthOverheadPointCalc):
    def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
        raise NotImplementedError
    def _pixel_x_y_alt_to_lon_lat_native(self, xs, ys, alts=None, band=None):
        return 5e5 + xs + np.where(xs == nx - 1, 15 * np.sin(np.pi * ys / (ny - 1.0)), 0), 4e6 - ys
c = Bulging()
c.set_projection(p)
c._bands_coregistered = True
m = PhysicalCameraMetadata()
m.set_npix_x(nx), m.set_npix_y(ny), m.set_n_bands(1)
im = ImageFactory.physical_camera.from_numpy_array_metadata_and_single_point_calc(np.zeros((ny, nx, 1)), m, c)
e = ortho_tools.get_extent(im)
assert e.bounds[2] > 5e5 + nx - 1 + 14, e.bounds
""")
make("s06-ray-last-hit", "C05", [(PC + "abstract_earth_overhead_point_calc.py",
"        ray_step_indices.reverse()\n", "")],
"terrain with a ridge that an oblique ray passes through and leaves again behind",
"a ray cast to terrain goes through the ridge that it meets first and ends on the last crossing",
"""
import numpy as np
from pyproj import Proj
from resippy.image_objects.image_factory import ImageFactory
from resippy.photogrammetry.dem.geotiff_dem import GeotiffDem
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc import AbstractEarthOverheadPointCalc
p = Proj("+proj=utm +zone=31 +datum=WGS84", preserve_units=True)
z = np.zeros((40, 200)); z[:, 90:110] = 50
dem = GeotiffDem()
dem.set_geotiff_image(ImageFactory.geotiff.from_numpy_array(z[:, :, None], [5e5, 1, 0, 4e6, 0, -1], p))
dem.set_interpolation_to_bilinear()
class Oblique(AbstractEarthOverheadPointCalc):
    def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
        return lons - 5e5 - alts, 4e6 - lats
    def _pixel_x_y_alt_to_lon_lat_native(self, xs, ys, alts=None, band=None):
        return 5e5 + xs + alts, 4e6 - ys
c = Oblique()
c.set_projection(p)
x, y, a = c.pixel_x_y_to_lon_lat_alt(np.array([60., 75.]), np.array([20., 20.]), dem, dem_sample_distance=1)
# both rays come down from the east: x = pixel + altitude, the ridge is 90 to 110
assert np.all(a > 20), a
""")
make("s07-envi-header-guess", "C10", [("resippy/utils/envi_utils.py",
"            header_guesses = [image_file[:-4] + \".hdr\", image_file + \".hdr\"]\n",
"            header_guesses = [image_file + \".hdr\", os.path.splitext(image_file)[0] + \".hdr\"]\n")],
"an image and a second one in the same folder whose name is the first one's without its extension",
"an image is read by the header of its neighbour",
"""
import os, tempfile
import numpy as np
from resippy.utils import envi_utils as e
d = tempfile.mkdtemp()
a = np.arange(24, dtype=np.uint8).reshape(2, 3, 4)
b = np.arange(12, dtype=np.uint8).reshape(3, 2, 2)
e.write_envi_image(b, os.path.join(d, "scene"))
e.write_envi_image(a, os.path.join(d, "scene.dat"))
assert np.array_equal(e.read_envi_image(os.path.join(d, "scene.dat")), a)
assert np.array_equal(e.read_envi_image(os.path.join(d, "scene")), b)
""")
make("s08-opencv-tangential", "C02", [(PC + "opencv_point_calc.py",
"        x_double_prime = (x_prime * radial_distortion) + (2.0 * self._p1 * x_prime * y_prime) + \\\n",
"        x_double_prime = (x_prime * radial_distortion) + (2.0 * self._p2 * x_prime * y_prime) + \\\n")],
"tangential distortion with p1 different from p2",
"lens-distorted cameras image points off their Brown-Conrady position",
"""
import numpy as np
from pyproj import Proj
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.opencv_point_calc import OpenCVPointCalc
c = OpenCVPointCalc.init_from_params(dict(fx_pixels=1000, fy_pixels=1000, cx_pixels=500, cy_pixels=400, k1=0, k2=0, k3=0, p1=0.02, p2=0,
    pixel_pitch_microns=4, x_offset_meters=0, y_offset_meters=0, z_offset_meters=0, omega_offset_radians=0, phi_offset_radians=0, kappa_offset_radians=0))
c.set_projection(Proj("+proj=utm +zone=31 +datum=WGS84", preserve_units=True))
c.init_extrinsic(5e5, 4e6, 1000, 0, 0, 0)
x, y = c.lon_lat_alt_to_pixel_x_y(np.array([5e5 + 300.]), np.array([4e6 + 200.]), np.array([0.]))
a, b = -0.3, -0.2
assert abs(x[0] - (1000 * (a + 2 * 0.02 * a * b) + 500)) < 1e-6, x
""")
make("s09-ortho-nodata-geotiff-bands", "C09", [("resippy/image_objects/earth_overhead/geotiff/geotiff_image.py",
"""        if self.get_image_data() is None:
            self.set_image_data(self.read_all_image_data_from_disk())
        for band in range(self.get_metadata().get_n_bands()):
            dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
            if self.get_metadata().get_nodata_val() is not None:
                dataset.GetRasterBand(band + 1).SetNoDataValue(self._get_gdal_nodata_val())
        dataset.FlushCache()
""",
"""        if self.get_image_data() is None:
            self.set_image_data(self.read_all_image_data_from_disk())
        for band in range(self.get_metadata().get_n_bands()):
            dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
        if self.get_metadata().get_nodata_val():
            for band in range(self.get_metadata().get_n_bands()):
                dataset.GetRasterBand(band + 1).SetNoDataValue(self._get_gdal_nodata_val())
        dataset.FlushCache()
""")],
"a no-data value of zero",
"a no-data value of zero is lost when an image is written",
"""
import os, tempfile
import numpy as np
from osgeo import gdal
from pyproj import Proj
from resippy.image_objects.image_factory import ImageFactory
p = Proj("+proj=utm +zone=31 +datum=WGS84", preserve_units=True)
im = ImageFactory.geotiff.from_numpy_array(np.ones((5, 6, 2)), [5e5, 1, 0, 4e6, 0, -1], p, 0)
f = os.path.join(tempfile.mkdtemp(), "a.tif")
im.write_to_disk(f)
d = gdal.Open(f)
assert d.GetRasterBand(2).GetNoDataValue() == 0
""")
make("s10-chip-edge", "C16", [("resippy/utils/image_utils/image_chipper.py",
"    y_idxs[np.where(y_idxs >= ny - chip_ny_pixels)] = ny - chip_ny_pixels\n",
"    y_idxs = y_idxs[y_idxs + chip_ny_pixels - npix_overlap_y <= ny]\n    y_idxs[np.where(y_idxs >= ny - chip_ny_pixels)] = ny - chip_ny_pixels\n")],
"an image height that the chip step does not divide",
"the last rows of the image are in no chip",
"""
import numpy as np
from resippy.utils.image_utils import image_chipper as c
img = np.arange(23 * 17).reshape(23, 17)
chips, uls = c.chip_entire_image_to_memory(img, 8, 8, 2, 1)
seen = np.zeros(img.shape, bool)
for y, x in uls:
    seen[y:y + 8, x:x + 8] = True
assert seen.all()
""")
make("s11-obstruction-mean-distance", "C21", [("resippy/photogrammetry/ortho_tools.py",
"    for step in np.arange(1, n_dem_steps):\n", "    for step in np.arange(1, n_dem_steps, 2):\n")],
"terrain only one or two samples wide across the line of sight",
"narrow ridges between ground and sensor are stepped over, the pixels behind them count as visible",
"""
import numpy as np
from pyproj import Proj
from resippy.image_objects.image_factory import ImageFactory
from resippy.photogrammetry import ortho_tools
from resippy.photogrammetry.dem.geotiff_dem import GeotiffDem
from resippy.image_objects.earth_overhead.physical_camera.physical_camera_metadata import PhysicalCameraMetadata
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc import AbstractEarthOverheadPointCalc
p = Proj("+proj=utm +zone=31 +datum=WGS84", preserve_units=True)
class Oblique(AbstractEarthOverheadPointCalc):
    def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
        return lons - 5e5 - alts, 4e6 - lats
    def _pixel_x_y_alt_to_lon_lat_native(self, xs, ys, alts=None, band=None):
        return 5e5 + xs + alts, 4e6 - ys
c = Oblique()
c.set_projection(p)
m = PhysicalCameraMetadata()
m.set_npix_x(50), m.set_npix_y(10), m.set_n_bands(1)
im = ImageFactory.physical_camera.from_numpy_array_metadata_and_single_point_calc(np.zeros((10, 50, 1)), m, c)
for k in range(20, 40):
    z = np.zeros((40, 200)); z[:, k] = 60
    dem = GeotiffDem()
    dem.set_geotiff_image(ImageFactory.geotiff.from_numpy_array(z[:, :, None], [5e5, 1, 0, 4e6, 0, -1], p))
    dem.set_interpolation_to_nearest()
    x, y = np.array([0.5]), np.array([5.0])
    got = ortho_tools.are_pixels_obstructed_by_dem(im, x, y, 5e5 + x, 4e6 - y, dem, alts=np.zeros(1), dem_resolution=1.0)
    assert got[0] == 1, k
""")
make("s13-gps-week-round", "C18", [("resippy/utils/time_utils.py",
"    return math.floor(weeks), seconds_in_week", "    return math.floor(weeks - 1e-6), seconds_in_week")],
"the first half second of a GPS week",
"the GPS week of an instant right after the start of a week is the one before, with seconds of week near zero",
"""
from resippy.utils import time_utils as t
u = 315964800 + 5 * 604800 + 0.25
w, s = t.utc_timestamp_to_gps_week_and_seconds(u)
assert w == 5 and s < 60, (w, s)
""")
make("s14-colormap-top", "C17", [("resippy/utils/image_utils/image_utils.py",
"    colormapped_image[grayscale_image > max_clip, :] = color_palette[-1, :]\n",
"    colormapped_image[grayscale_image >= palette_indices[-1], :] = color_palette[-1, :]\n    colormapped_image[grayscale_image > max_clip, :] = color_palette[n_bins - 2 if continuous is not True else -1, :]\n")],
"discrete colour bins and values inside the last bin",
"pixels of the last discrete bin get the colour of the bin before",
"""
import numpy as np
from resippy.utils.image_utils import image_utils as iu
pal = np.array([[0., 0, 0], [.2, 0, 0], [.4, 0, 0], [.6, 0, 0]])
im = np.linspace(0, 8, 41)[None]
out = iu.apply_colormap_to_grayscale_image(im, pal, continuous=False, min_clip=0, max_clip=8)
assert abs(int(out[0, 37, 0]) - 153) <= 1, out[0, :, 0]
""")
make("s15-pyr-order", "C04", [("resippy/utils/photogrammetry_utils.py",
"            m_matrix = m_omega @ m_kappa @ m_phi\n", "            m_matrix = m_omega @ m_phi @ m_kappa\n")],
"rotation order pyr with both a heading and a pitch",
"the rotation order pyr gives the product of another order",
"""
import numpy as np
from resippy.utils.photogrammetry_utils import create_M_matrix as m
o, p, k = 0.3, -0.2, 0.7
want = m(o, 0, 0) @ m(0, 0, k) @ m(0, p, 0)
assert np.allclose(m(o, p, k, order="pyr"), want)
""")
make("s16-nav-bracket", "C19", [("resippy/photogrammetry/nav/applanix_sbet_nav.py",
"        right_indexes = np.searchsorted(self._nav_data['gps_time'], gps_times)\n",
"        right_indexes = np.searchsorted(self._nav_data['gps_time'], np.sort(gps_times))\n")],
"several times asked at once that are not in ascending order",
"answers to unsorted times are taken from the records around other times",
"""
import sys, types
sys.modules.setdefault('pdal', types.ModuleType('pdal'))
import numpy as np
from resippy.photogrammetry.nav.applanix_sbet_nav import ApplanixSBETNav
n = ApplanixSBETNav()
t = np.array([0., 1., 2., 4.])
n._nav_data = {"gps_time": t, "x": t ** 2, "y": t, "z": t}
n._num_records = 4
q = np.array([3.0, 0.5, 1.5])
assert np.allclose(n.get_world_xs(q), [10, 0.5, 2.5])
""")
make("s17-pix4d-blank", "C20", [("resippy/utils/pix4d_utils.py",
"    for i in range(len(new_camera_param_start_locations)):\n        internal_params_dict = {}\n",
"    internal_params_dict = {}\n    for i in range(len(new_camera_param_start_locations)):\n        internal_params_dict = dict(internal_params_dict)\n")],
"a camera whose section leaves an entry out that an earlier camera has",
"parameters of one camera leak into the next",
"""
import os, tempfile
from resippy.utils import pix4d_utils as p
f = os.path.join(tempfile.mkdtemp(), "a.cam")
open(f, "w").write("Pix4D camera 0\\n#Focal Length mm assuming a sensor width of 4.8x3.6mm\\nF 5.5\\nPx 2.4\\nPy 1.8\\nK1 0.1\\nK2 0.2\\n"
                   "Pix4D camera 1\\n#Focal Length mm assuming a sensor width of 4.8x3.6mm\\nF 5.6\\nPx 2.5\\nPy 1.9\\nK1 0.3\\n")
a, b = p.read_pix4d_calibrated_internal_camera_parameters(f)
assert "K2" not in b, b
""")
make("s19-files-prefix", "C24", [("resippy/utils/file_utils.py",
"""    for starts_with_text in starts_with:
        for basename in all_basenames:
            if basename.startswith(starts_with_text):
                filtered_basenames.append(basename)
""",
"""    for starts_with_text in starts_with:
        for basename in all_basenames:
            if os.path.splitext(basename)[0].startswith(starts_with_text):
                filtered_basenames.append(basename)
""")],
"a prefix that reaches into the extension",
"files whose name starts with the text are not listed when the text includes their extension",
"""
import os, tempfile
from resippy.utils import file_utils as f
d = tempfile.mkdtemp()
for n in ("scene.tif", "scene.txt", "other.tif"):
    open(os.path.join(d, n), "w").close()
assert f.get_files_in_dir_that_start_with(d, "scene.t", return_fullpaths=False) != []
assert f.get_files_in_dir_that_start_with(d, "scene.tif", return_fullpaths=False) == ["scene.tif"]
""")

make("s12-dem-nodata-order", "C06", [("resippy/photogrammetry/dem/dem_factory.py",
"        gtiff_dem.remove_nodata_values(nodata_value)\n", "        if nodata_value:\n            gtiff_dem.remove_nodata_values(nodata_value)\n")],
"a terrain file whose no-data value is zero",
"no-data posts of value zero are elevations of the terrain",
"""
import os, tempfile
import numpy as np
from osgeo import gdal
from pyproj import Proj
from resippy.image_objects.image_factory import ImageFactory
from resippy.photogrammetry.dem.dem_factory import DemFactory
p = Proj("+proj=utm +zone=31 +datum=WGS84", preserve_units=True)
z = np.full((5, 5, 1), 10.0); z[2, 2] = 0
f = os.path.join(tempfile.mkdtemp(), "a.tif")
ImageFactory.geotiff.from_numpy_array(z, [5e5, 1, 0, 4e6, 0, -1], p, 0).write_to_disk(f)
assert DemFactory.from_gtiff_file(f).get_lowest_alt() == 10
""")
make("s18-values-band", "C22", [("resippy/photogrammetry/ortho_tools.py",
"""        x, y = image_object.get_point_calculator().lon_lat_alt_to_pixel_x_y(lons, lats, alts, band=band)
""", """        if band == 0 or image_object.get_metadata().get_nodata_val() is None:
            x, y = image_object.get_point_calculator().lon_lat_alt_to_pixel_x_y(lons, lats, alts, band=band)
""")],
"an image whose bands are not coregistered and that has a no-data value",
"the values of all bands are taken at the pixel of the first band",
"""
import numpy as np
from pyproj import Proj
from resippy.image_objects.image_factory import ImageFactory
from resippy.photogrammetry import ortho_tools
from resippy.image_objects.earth_overhead.physical_camera.physical_camera_metadata import PhysicalCameraMetadata
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc import AbstractEarthOverheadPointCalc
p = Proj("+proj=utm +zone=31 +datum=WGS84", preserve_units=True)
class Shifted(AbstractEarthOverheadPointCalc):
    def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
        return lons - 5e5 + 3 * band, 4e6 - lats
    def _pixel_x_y_alt_to_lon_lat_native(self, xs, ys, alts=None, band=None):
        return 5e5 + xs - 3 * band, 4e6 - ys
c = Shifted()
c.set_projection(p)
c._bands_coregistered = False
m = PhysicalCameraMetadata()
m.set_npix_x(20), m.set_npix_y(20), m.set_n_bands(2), m.set_nodata_val(-1)
d = np.dstack([np.tile(np.arange(20.), (20, 1))] * 2)
im = ImageFactory.physical_camera.from_numpy_array_metadata_and_single_point_calc(d, m, c)
v = ortho_tools.get_pixel_values(im, np.array([5e5 + 8]), np.array([4e6 - 8]), np.zeros(1), window=1)
assert v[0, 0] == 8 and v[1, 0] == 11, v
""")
make("s20-simulator-boresight", "C23", [("resippy/utils/physical_camera_simulator.py",
"""                                                                             order=self._boresight_rpy_order)
""",
"""                                                                             order='rpy')
""")],
"a boresight with several angles and a rotation order other than rpy",
"the simulated camera looks along a boresight composed in another order",
"""
import os, tempfile
import numpy as np
from pyproj import Proj
from resippy.image_objects.image_factory import ImageFactory
from resippy.utils.physical_camera_simulator import PhysicalCameraSimulator
p = Proj("+proj=utm +zone=31 +datum=WGS84", preserve_units=True)
f = os.path.join(tempfile.mkdtemp(), "map.tif")
ImageFactory.geotiff.from_numpy_array(np.zeros((9, 9, 1)), [5e5, 100, 0, 4e6, 0, -100], p).write_to_disk(f)
got = []
for order in ("rpy", "ypr"):
    s = PhysicalCameraSimulator(f, 50, 10, 8, boresight_roll=20, boresight_pitch=10, boresight_yaw=30, boresight_rpy_order=order)
    im = s.create_overhead_image_object(3.0, 36.14, 1000, 0.0, 0.0, 0.0)
    x, y = im.pointcalc.pixel_x_y_alt_to_lon_lat(np.array([0., 9.]), np.array([0., 7.]), np.zeros(2))
    got.append(np.concatenate([x, y]))
assert np.abs(got[0] - got[1]).max() > 1e-9, "the order of the boresight angles has no effect"
""")
make("s21-window-utm-south", "C25", [("resippy/utils/proj_utils.py",
"    is_south_zone = zone_letter < 'N'\n", "    is_south_zone = zone_letter < 'M'\n")],
"a position between the equator and 8 degrees south",
"positions just south of the equator get the northern hemisphere's UTM projection",
"""
from resippy.utils import proj_utils as p
x, y = p.decimal_degrees_to_local_utm_proj(3.0, -4.0)(3.0, -4.0)
assert y > 9e6, y
""")
