"""Image objects for generated sensors."""
import numpy as np
from osgeo import gdal, gdal_array

from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory
from resippy.image_objects.earth_overhead.igm.igm_image import IgmImage
from resippy.image_objects.earth_overhead.physical_camera.physical_camera_image_factory import PhysicalCameraImageFactory
from resippy.image_objects.earth_overhead.physical_camera.physical_camera_metadata import PhysicalCameraMetadata

TYPES = ["u1", "u2", "i2", "f4", "f8", "i4"]


def pixels(rng, ny, nx, nb, dtype, smooth=None):
    """Band-distinct content, with no zeros and away from the ends of the integer range."""
    smooth = rng.random() < 0.4 if smooth is None else smooth
    y, x = np.mgrid[0:ny, 0:nx].astype(float)
    out = np.empty((ny, nx, nb))
    for b in range(nb):
        if smooth:
            v = 0.5 + 0.2 * np.sin(0.35 * x + b) + 0.2 * np.cos(0.3 * y - 2 * b)
        else:
            v = rng.uniform(0.2, 0.8, (ny, nx))
        out[:, :, b] = v
    scale = {"u1": 250.0, "u2": 60000.0, "i2": 30000.0, "i4": 1e6, "f4": 1.0, "f8": 1000.0}[dtype]
    out = out * scale
    if dtype in ("i2", "i4", "f4", "f8") and rng.random() < 0.5:
        out = -out
    return out.astype(dtype) if dtype[0] == "f" else np.round(out).astype(dtype)


def save_plain(path, data):
    d = gdal.GetDriverByName("GTiff").Create(path, data.shape[1], data.shape[0], data.shape[2],
                                             gdal_array.NumericTypeCodeToGDALTypeCode(data.dtype))
    for b in range(data.shape[2]):
        d.GetRasterBand(b + 1).WriteArray(data[:, :, b])
    d.FlushCache()


def make(ctx, s, nb=None, dtype=None, smooth=None, source=None, nodata=None):
    """(image object, its pixels, how it was made) for a sensor."""
    r = ctx.rng
    nb = s.nbands if s.nbands > 1 else (nb or int(r.integers(1, 5)))
    dtype = dtype or str(r.choice(TYPES))
    data = pixels(r, s.ny, s.nx, nb, dtype, smooth)
    source = source or str(r.choice(["memory", "file"]))
    before = data
    if r.random() < 0.2:
        # an image that showed something else before
        before = pixels(r, s.ny, s.nx, nb, dtype, smooth)

    def shown(im):
        if before is not data:
            ctx.cover("image-replaced")
            im.get_image_band(int(r.integers(0, nb)))
            if r.random() < 0.5:
                im.set_image_data(data.copy())
            else:
                for b in r.permutation(nb):
                    im.set_image_band(data[:, :, b].copy(), int(b))
        return im
    if s.kind == "igm":
        i = s.info
        return shown(IgmImage.from_params(before.copy(), i["lons"], i["lats"], i["alts"], nb, s.proj)), data, "memory"
    if s.kind == "geotiff":
        im = GeotiffImageFactory.from_numpy_array(before.copy(), s.info["g"], s.proj, nodata)
        shown(im)
        if source == "file":
            p = ctx.path("image_%d.tif" % int(r.integers(0, 1 << 30)))
            im.write_to_disk(p)
            im = GeotiffImageFactory.from_file(p)
        return im, data, source
    if source == "file":
        p = ctx.path("image_%d.tif" % int(r.integers(0, 1 << 30)))
        save_plain(p, data)
        return PhysicalCameraImageFactory.from_gdal_file_and_single_point_calc(p, s.calc), data, source
    m = PhysicalCameraMetadata()
    m.set_npix_x(s.nx)
    m.set_npix_y(s.ny)
    m.set_n_bands(nb)
    m.set_nodata_val(nodata)
    return shown(PhysicalCameraImageFactory.from_numpy_array_metadata_and_single_point_calc(before.copy(), m, s.calc)), data, source
