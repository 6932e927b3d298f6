"""C09: GeoTIFF files and datasets preserve pixels, georeferencing and no-data."""
import os

import numpy as np
from osgeo import gdal, gdal_array, osr

from rv.core import Registry
from rv import sensors as S
from resippy.image_objects.earth_overhead.geotiff.geotiff_image import GeotiffImage
from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory
from pyproj import Proj

P = Registry("C09", "Images of twelve data types, 1 to 40 pixels and 1 to 5 bands, square and rotated geotransforms, eighteen "
                    "projections (feet, kilometres, other datums), no-data values including NaN and the ends of the range, five "
                    "compressions; files from this library and from GDAL with other layouts; random sequences of creations, "
                    "writes, reads, band replacements, in-memory datasets and warps on a pool of images, where every image and "
                    "file ever made is compared with its model again at the end; GDAL is the independent reader.", boost=3)

DTYPES = ["u1", "i1", "u2", "i2", "u4", "i4", "u8", "i8", "f4", "f8", "c8", "c16"]
COMPRESSIONS = ["LZW", "NONE", "DEFLATE", "PACKBITS", "ZSTD"]


def content(r, dtype, shape):
    if dtype[0] == "f":
        a = r.normal(0, 10 ** r.uniform(-3, 6), shape)
        if r.random() < 0.3:
            a.ravel()[r.integers(0, a.size)] = [np.nan, np.inf, -np.inf, 1e-38][int(r.integers(0, 4))]
        return a.astype(dtype)
    if dtype[0] == "c":
        return (r.normal(0, 100, shape) + 1j * r.normal(0, 100, shape)).astype(dtype)
    i = np.iinfo(dtype)
    if r.random() < 0.3:
        # a narrow range that ends at, or a little beyond, a power of two
        top = min(int(i.max), (1 << int(r.integers(1, i.bits + 1))) + int(r.integers(-2, 40)))
        a = r.integers(max(int(i.min), top // 2 - 1), top, shape, dtype=dtype, endpoint=True)
        a.ravel()[r.integers(0, a.size)] = top
        return a
    a = r.integers(i.min, i.max, shape, dtype=dtype, endpoint=True)
    if r.random() < 0.5:
        a = (a % 100).astype(dtype)
    a.ravel()[r.integers(0, a.size)] = i.max
    a.ravel()[r.integers(0, a.size)] = i.min
    return a


def nodata_value(r, dtype):
    if r.random() < 0.35:
        return None
    if dtype[0] in "fc":
        v = [0, 0.0, -9999, -9999.5, float("nan"), -1e10, 0.5, float("-inf")][int(r.integers(0, 8))]
        return v
    i = np.iinfo(dtype)
    return [0, int(i.max), int(i.min), 1, 7][int(r.integers(0, 5))]


def same_nodata(a, b):
    if a is None or b is None:
        return a is None and b is None
    return a == b or (a != a and b != b)


def projections(r, lon, lat):
    c = S.world_projs(r, lon, lat)
    z = S.utm_zone(lon)
    c += [("utm-epsg", Proj("EPSG:%d" % ((32700 if lat < 0 else 32600) + z))),
          ("utm-init", Proj(init="epsg:%d" % ((32700 if lat < 0 else 32600) + z), preserve_units=True)),
          ("km", Proj("+proj=utm +zone=%d %s+datum=WGS84 +units=km" % (z, "+south " if lat < 0 else ""), preserve_units=True)),
          ("laea", Proj("+proj=laea +lat_0=%f +lon_0=%f +x_0=4321000 +y_0=3210000 +ellps=GRS80" % (lat, lon))),
          ("tmerc", Proj("+proj=tmerc +lat_0=%f +lon_0=%f +k=0.9996 +x_0=400000 +y_0=-100000 +ellps=bessel" % (lat, lon))),
          ("nad83", Proj("+proj=utm +zone=%d %s+datum=NAD83" % (z, "+south " if lat < 0 else ""))),
          ("state-feet", Proj("+proj=lcc +lat_0=%f +lon_0=%f +lat_1=%f +lat_2=%f +x_0=300000 +datum=NAD83 +units=us-ft"
                              % (lat, lon, lat + 1, lat + 1.5), preserve_units=True)),
          ("sphere", Proj("+proj=sinu +R=6371007.181 +lon_0=%f" % lon)),
          ("degrees-nad83", Proj("+proj=longlat +datum=NAD83")),
          ("pole", Proj("+proj=stere +lat_0=90 +lat_ts=70 +lon_0=-45 +datum=WGS84"))]
    return c


def geotransform(r, proj, lon, lat):
    x, y = [float(v) for v in proj(lon, lat)] if not proj.crs.is_geographic else (lon, lat)
    d = float(10 ** r.uniform(-2, 2)) * (1e-5 if proj.crs.is_geographic else 1.0)
    e = d * float(r.choice([1.0, r.uniform(0.3, 3)]))
    k = r.random()
    if k < 0.6:
        g = [x, d, 0.0, y, 0.0, -e]
    elif k < 0.7:
        g = [x, d, 0.0, y, 0.0, e]
    else:
        a = r.uniform(-np.pi, np.pi)
        g = [x, d * np.cos(a), e * np.sin(a), y, d * np.sin(a), -e * np.cos(a)]
    return [float(v) for v in g]


def same_projection(wkt, proj, g):
    """The coordinate system of a file describes the same coordinates as ``proj``."""
    s = osr.SpatialReference()
    if not wkt or s.ImportFromWkt(wkt) != 0:
        return False
    other = S.pyproj.CRS.from_wkt(wkt)
    mine = S.pyproj.CRS.from_proj4(proj.srs) if "init" not in proj.srs else proj.crs
    if other.is_geographic != mine.is_geographic:
        return False
    geo = mine.geodetic_crs
    if other.ellipsoid is not None and mine.ellipsoid is not None and \
            abs(other.ellipsoid.semi_major_metre - mine.ellipsoid.semi_major_metre) > 1e-3:
        return False
    px, py = np.array([0.0, 10, 0, 10]), np.array([0.0, 0, 10, 10])
    x, y = g[0] + px * g[1] + py * g[2], g[3] + px * g[4] + py * g[5]
    # grid coordinates back to longitude and latitude on the same datum
    a = S.pyproj.Transformer.from_crs(mine, geo, always_xy=True).transform(x, y)
    b = S.pyproj.Transformer.from_crs(other, other.geodetic_crs, always_xy=True).transform(x, y)
    return np.allclose(a, b, rtol=0, atol=1e-9) and \
        abs(other.geodetic_crs.prime_meridian.longitude - geo.prime_meridian.longitude) < 1e-9


class Model(object):
    def __init__(self, a, g, proj, nodata):
        self.a, self.g, self.proj, self.nodata = a, g, proj, nodata


def fresh(ctx, max_n=40, plain=False, most=3000000):
    r = ctx.rng
    dt = str(r.choice(DTYPES[:4] + ["f4", "f8"] if plain else DTYPES))
    ny, nx = ctx.shape(1, max_n, most)
    nb = int(r.integers(1, 3 if ctx.big else 6)) if r.random() < 0.9 or not ctx.big else ctx.many(20, 200)
    if ctx.big and nb > 3:
        ny, nx = max(1, ny // 16), max(1, nx // 16)
    a = content(r, dt, (ny, nx, nb))
    lon, lat = S.location(r)
    ps = S.world_projs(r, lon, lat) if plain else projections(r, lon, lat)
    name, proj = ps[int(r.integers(0, len(ps)))]
    g = geotransform(r, proj, lon, lat)
    nd = nodata_value(r, dt)
    ctx.cover(dt, name)
    ctx.cover("no-data", nd if not isinstance(nd, float) else "float")
    how = str(r.choice(["C", "F", "view", "2d"]))
    given = {"C": lambda: a.copy(), "F": lambda: np.asfortranarray(a), "2d": lambda: a[:, :, 0].copy(),
             "view": lambda: np.repeat(np.repeat(a, 2, axis=0), 2, axis=2)[::2, :, ::2]}[how]()
    if how == "2d":
        a = a[:, :, :1]
    geot = [g, tuple(g), np.array(g)][int(r.integers(0, 3))] if r.random() < 0.6 else list(g)
    if r.random() < 0.5 or nd is not None:
        im = ctx.call(GeotiffImageFactory.from_numpy_array, given, geot, proj, nd)
    else:
        im = ctx.call(GeotiffImageFactory.from_numpy_array, given, geot, proj)
    ctx.given(a=a, g=g, proj=name, nodata=repr(nd), how=how)
    return im, Model(a.copy(), g, proj, nd)


def check_dataset(ctx, d, m, monitor="independent-reader"):
    """An independent reader finds the model in a dataset."""
    ctx.check(monitor, (d.RasterYSize, d.RasterXSize, d.RasterCount) == m.a.shape, "size %s instead of %s"
              % ((d.RasterYSize, d.RasterXSize, d.RasterCount), m.a.shape))
    for b in range(m.a.shape[2]):
        v = d.GetRasterBand(b + 1).ReadAsArray()
        ctx.check(monitor, v.dtype == m.a.dtype, "band %d has type %s instead of %s" % (b, v.dtype, m.a.dtype))
        ctx.equal(monitor, v, m.a[:, :, b], "the pixels of band %d differ" % b)
        nd = d.GetRasterBand(b + 1).GetNoDataValue()
        ctx.check(monitor, same_nodata(nd, m.nodata), "the no-data value of band %d is %r instead of %r" % (b, nd, m.nodata))
    ctx.close(monitor, d.GetGeoTransform(), m.g, "the geotransform differs", rtol=1e-13, atol=0)
    ctx.check(monitor, same_projection(d.GetProjection(), m.proj, m.g), "another projection: %s for %s" % (d.GetProjection(), m.proj.srs))


def check_image(ctx, im, m, monitor, disk):
    md, pc = im.get_metadata(), im.get_point_calculator()
    ny, nx, nb = m.a.shape
    ctx.check(monitor, (md.get_npix_y(), md.get_npix_x(), md.get_n_bands()) == (ny, nx, nb), "wrong size recorded")
    ctx.check(monitor, same_nodata(md.get_nodata_val(), m.nodata), "no-data value %r instead of %r" % (md.get_nodata_val(), m.nodata))
    ctx.check(monitor, md.get_gdal_datatype() == gdal_array.NumericTypeCodeToGDALTypeCode(m.a.dtype.type), "wrong data type recorded")
    ctx.close(monitor, np.array(pc.get_geot(), float), m.g, "the geotransform differs", rtol=1e-13, atol=0)
    x, y = np.array([0.0, nx, 0.3 * nx]), np.array([0.0, ny, 0.8 * ny])
    gx, gy = m.g[0] + x * m.g[1] + y * m.g[2], m.g[3] + x * m.g[4] + y * m.g[5]
    lo, la = pc.pixel_x_y_alt_to_lon_lat(x, y, np.zeros(3))
    ctx.close(monitor, np.array([lo, la]), np.array([gx, gy]), "the image puts its pixels elsewhere", rtol=1e-12, atol=0)
    ctx.check(monitor, same_projection(pc.get_gdal_projection_wkt(), m.proj, m.g), "another projection: %s for %s"
              % (pc.get_projection().srs, m.proj.srs))
    if disk:
        v = ctx.call(im.read_all_image_data_from_disk)
        ctx.check(monitor, v.dtype == m.a.dtype, "type %s instead of %s" % (v.dtype, m.a.dtype))
        ctx.equal(monitor, v, m.a, "the pixels read differ from those written")
        b = int(ctx.rng.integers(0, nb))
        ctx.equal(monitor, ctx.call(im.read_band_from_disk, b), m.a[:, :, b], "the band read differs from that written")


@P.scenario(quick=250, thorough=4000, monitors=("independent-reader", "read-back", "in-memory", "unchanged"), big=10)
def roundtrip(ctx):
    r = ctx.rng
    im, m = fresh(ctx)
    folder = ctx.path(str(r.choice(["f", "f.1", "a.tif", "0"])))
    os.mkdir(folder)
    p = os.path.join(folder, str(r.choice(["a.tif", "a.b.tif", "scene", "x.y.z.TIFF", "a.tif.tif"])))
    c = str(r.choice(COMPRESSIONS))
    ctx.cover(c)
    if c == "LZW" and r.random() < 0.7:
        ctx.call(im.write_to_disk, p)
    else:
        ctx.call(im.write_to_disk, p, compression=c)
    check_dataset(ctx, gdal.Open(p), m)
    back = ctx.call(GeotiffImageFactory.from_file, p)
    ctx.equal("read-back", os.path.basename(back.get_metadata().get_image_name()), os.path.splitext(os.path.basename(p))[0],
              "the image has another name than its file")
    check_image(ctx, back, m, "read-back", True)
    check_dataset(ctx, ctx.call(im.get_gdal_mem_datset), m, "in-memory")
    check_image(ctx, im, m, "unchanged", False)
    ctx.equal("unchanged", im.get_image_data(), m.a, "writing changed the image")
    # and once more round
    q = ctx.path("b.tif")
    ctx.call(back.write_to_disk, q)
    check_dataset(ctx, gdal.Open(q), m)
    check_dataset(ctx, ctx.call(back.get_gdal_mem_datset), m, "in-memory")
    check_image(ctx, back, m, "read-back", True)


@P.scenario(quick=120, thorough=2000, monitors=("foreign", "independent-reader"), big=8)
def foreign(ctx):
    """Files from another writer: other layouts, tilings, interleaves, drivers."""
    r = ctx.rng
    dt = str(r.choice(DTYPES))
    ny, nx = ctx.shape(1, 60, 3000000)
    nb = int(r.integers(1, 3 if ctx.big else 5))
    a = content(r, dt, (ny, nx, nb))
    lon, lat = S.location(r)
    name, proj = projections(r, lon, lat)[int(r.integers(0, 18))]
    g = geotransform(r, proj, lon, lat)
    nd = nodata_value(r, dt)
    ops = ["INTERLEAVE=" + str(r.choice(["PIXEL", "BAND"]))]
    ops += [[], ["TILED=YES", "BLOCKXSIZE=16", "BLOCKYSIZE=16"], ["BLOCKYSIZE=3"], ["COMPRESS=DEFLATE"], ["BIGTIFF=YES"],
            ["ENDIANNESS=BIG"], ["TFW=YES"]][int(r.integers(0, 7))]
    p = ctx.path("f." + str(r.choice(["tif", "tiff", "TIF", "gtif"])))
    srs = osr.SpatialReference()
    srs.ImportFromProj4(proj.srs)
    d = gdal.GetDriverByName("GTiff").Create(p, nx, ny, nb, gdal_array.NumericTypeCodeToGDALTypeCode(a.dtype.type), ops)
    d.SetGeoTransform(g)
    d.SetProjection(srs.ExportToWkt())
    if nd is not None:
        # before the pixels: GDAL fills the all-zero blocks it has left out with the nodata value
        for b in range(nb):
            d.GetRasterBand(b + 1).SetNoDataValue(nd)
    for b in range(nb):
        d.GetRasterBand(b + 1).WriteArray(a[:, :, b])
    d.FlushCache()
    d = None
    ctx.given(a=a, g=g, proj=name, nodata=repr(nd), ops=ops)
    ctx.cover(dt, ops[-1])
    m = Model(a, g, proj, nd)
    im = ctx.call(GeotiffImageFactory.from_file, p)
    check_image(ctx, im, m, "foreign", True)
    q = ctx.path("copy.tif")
    ctx.call(im.write_to_disk, q)
    check_dataset(ctx, gdal.Open(q), m)


def judge_warp(ctx, out, m, dst, monitor, margin=0.2):
    """Every pixel of a nearest-neighbour warp is the source pixel at its own map position."""
    w = np.asarray(out.read_all_image_data_from_disk())
    g, wp = out.get_point_calculator().get_geot(), out.get_point_calculator().get_projection()
    ny, nx = w.shape[:2]
    j, i = np.mgrid[0:ny, 0:nx] + 0.5
    X, Y = g[0] + i * g[1] + j * g[2], g[3] + i * g[4] + j * g[5]
    x, y = S.transform(wp, m.proj, X, Y)
    A = np.linalg.inv(np.array([[m.g[1], m.g[2]], [m.g[4], m.g[5]]]))
    px = A[0, 0] * (x - m.g[0]) + A[0, 1] * (y - m.g[3])
    py = A[1, 0] * (x - m.g[0]) + A[1, 1] * (y - m.g[3])
    sy, sx, nb = m.a.shape
    ctx.check(monitor, w.shape[2] == nb and w.dtype == m.a.dtype, "the warped image has %d bands of %s" % (w.shape[2], w.dtype))
    inside = (px > margin) & (py > margin) & (px < sx - margin) & (py < sy - margin)
    outside = (px < -margin) | (py < -margin) | (px > sx + margin) | (py > sy + margin)
    fill = 0 if m.nodata is None else m.nodata
    ok = np.zeros((ny, nx), bool)
    for a in (-margin, 0, margin):
        for b in (-margin, 0, margin):
            v = m.a[np.clip(np.floor(py + b), 0, sy - 1).astype(int), np.clip(np.floor(px + a), 0, sx - 1).astype(int)]
            ok |= np.all((v == w) | ((v != v) & (w != w)), axis=2)
    if w.shape[2] == 4 and w.dtype == np.uint8:
        # GDAL takes the fourth band of a byte image for transparency, and copies no transparent pixels
        inside &= np.min([m.a[np.clip(np.floor(py + b), 0, sy - 1).astype(int), np.clip(np.floor(px + a), 0, sx - 1).astype(int), 3]
                          for a in (-margin, 0, margin) for b in (-margin, 0, margin)], axis=0) > 0
    ctx.count(monitor, int(inside.sum()))
    bad = inside & ~ok
    if bad.any():
        q = tuple(np.argwhere(bad)[0])
        ctx.fail(monitor, "warped pixel %s holds %s, its map position is source pixel (%.2f, %.2f)" % (q, w[q], px[q], py[q]))
    f = np.all((w == fill) | ((w != w) & (fill != fill)), axis=2)
    bad = outside & ~f
    ctx.count(monitor, int(outside.sum()))
    if bad.any():
        q = tuple(np.argwhere(bad)[0])
        ctx.fail(monitor, "warped pixel %s outside the source holds %s" % (q, w[q]))
    return int(inside.sum())


def warp_options(r, m):
    lon, lat = S.transform(m.proj, S.LL, m.g[0], m.g[3])
    name, wp = S.world_projs(r, float(lon), float(lat))[int(r.integers(0, 9))]
    kw = dict(dstSRS=wp.srs, resampleAlg="near")
    if "init" in wp.srs:
        kw["dstSRS"] = "EPSG:4326" if wp.crs.is_geographic else "EPSG:3857"
    return name, kw


def gdal_warps(m, kw):
    """Whether GDAL itself can do this warp (it refuses some tiny images)."""
    d = gdal.GetDriverByName("MEM").Create("", m.a.shape[1], m.a.shape[0], 1, gdal.GDT_Byte)
    d.SetGeoTransform(m.g)
    srs = osr.SpatialReference()
    srs.ImportFromProj4(m.proj.srs)
    d.SetProjection(srs.ExportToWkt())
    return gdal.Warp("", d, options=gdal.WarpOptions(format="MEM", **kw)) is not None


@P.scenario(quick=120, thorough=2000, monitors=("warp", "source-unchanged", "earlier-warps"), big=8)
def warps(ctx):
    """Warped images, of memory and file images, to memory and to files."""
    r = ctx.rng
    made = []
    n = int(r.integers(1, 4))
    for k in range(n):
        im, m = fresh(ctx, 30, plain=True, most=1000000)
        # distinct, valid content
        dt = m.a.dtype
        if dt.kind == "f" or m.nodata is not None:
            m.nodata = None if m.nodata is None or m.nodata != m.nodata else m.nodata
            m.a = (1 + (np.arange(m.a.size) * 37 % 100).reshape(m.a.shape)).astype(dt)
            if m.nodata is not None:
                m.nodata = 0
            im = ctx.call(GeotiffImageFactory.from_numpy_array, m.a.copy(), list(m.g), m.proj, m.nodata)
        if r.random() < 0.5:
            p = ctx.path("src%d.tif" % k)
            im.write_to_disk(p)
            im = GeotiffImageFactory.from_file(p)
            if r.random() < 0.5:
                im.set_image_data(im.read_all_image_data_from_disk())
            ctx.cover("file")
        name, kw = warp_options(r, m)
        if not gdal_warps(m, kw):
            ctx.cover("gdal-refuses")
            continue
        dst = ctx.path("out%d.tif" % k) if r.random() < 0.4 else None
        ctx.cover("to-" + ("file" if dst else "memory"), name)
        args = (im, gdal.WarpOptions(**kw)) + ((dst,) if dst else ())
        out = ctx.call(GeotiffImage.gdalwarp_geotiff_image, *args)
        check_image(ctx, im, m, "source-unchanged", im.get_dset() is not None)
        g = list(out.get_point_calculator().get_geot())
        if r.random() < 0.5:
            made.append((out, m, None, g))          # read for the first time after the others were made
            continue
        judge_warp(ctx, out, m, kw, "warp")
        made.append((out, m, out.read_all_image_data_from_disk(), g))
    for out, m, was, g in made:
        if was is None:
            judge_warp(ctx, out, m, None, "warp")
            was = out.read_all_image_data_from_disk()
        ctx.equal("earlier-warps", out.read_all_image_data_from_disk(), was, "a warped image changed when another one was made")
        ctx.equal("earlier-warps", list(out.get_point_calculator().get_geot()), g, "a warped image moved when another one was made")
        q = ctx.path("again.tif")
        ctx.call(out.write_to_disk, q)
        ctx.equal("earlier-warps", gdal.Open(q).ReadAsArray().reshape(np.moveaxis(was, 2, 0).shape), np.moveaxis(was, 2, 0),
                  "a warped image is not written as it was")


@P.scenario(quick=120, thorough=2500, monitors=("history", "files", "datasets", "warp"))
def histories(ctx):
    """Random operation sequences over a pool of images; everything is compared again at the end."""
    r = ctx.rng
    pool, files, dsets, warped = [], [], [], []
    im, m = fresh(ctx, 16, plain=True)
    pool.append([im, m, "memory"])
    trace, changed = [], [False] * 6
    for step in range(int(r.integers(6, 25))):
        op = str(r.choice(["new", "write", "open", "band", "replace", "mem", "load", "setdata", "warp", "shared", "nodata", "dset",
                            "read", "scribble", "move"]))
        trace.append(op)
        k = int(r.integers(0, len(pool)))
        im, m, kind = pool[k]
        loaded = im.get_image_data() is not None
        if op == "new" and len(pool) < 6:
            im, m = fresh(ctx, 16, plain=True)
            pool.append([im, m, "memory"])
        elif op == "write":
            p = ctx.path("h%d.tif" % len(files))
            ctx.call(im.write_to_disk, p)
            files.append((p, Model(m.a.copy(), m.g, m.proj, m.nodata)))
        elif op == "open" and files and len(pool) < 6:
            p, fm = files[int(r.integers(0, len(files)))]
            pool.append([ctx.call(GeotiffImageFactory.from_file, p), Model(fm.a.copy(), fm.g, fm.proj, fm.nodata), "file"])
        elif op == "band" and loaded:
            b = int(r.integers(0, m.a.shape[2]))
            ctx.equal("history", ctx.call(im.get_image_band, b), m.a[:, :, b], "a band differs from what was stored")
        elif op == "replace" and loaded:
            b = int(r.integers(0, m.a.shape[2]))
            v = content(r, m.a.dtype.str[1:], m.a.shape[:2])
            ctx.call(im.set_image_band, v, b)
            m.a[:, :, b] = v
            changed[k] = True
        elif op == "setdata":
            v = content(r, m.a.dtype.str[1:], m.a.shape)
            ctx.call(im.set_image_data, v.copy())
            m.a = v
            changed[k] = True
        elif op == "load" and not loaded:
            v = ctx.call(im.read_all_image_data_from_disk)
            ctx.equal("history", v, m.a, "the pixels read differ")
            im.set_image_data(v)
        elif op == "nodata" and loaded:
            m.nodata = nodata_value(r, m.a.dtype.str[1:])
            im.get_metadata().set_nodata_val(m.nodata)
        elif op == "move" and loaded:
            if im.get_point_calculator() not in [o.get_point_calculator() for o, _, _ in pool if o is not im]:
                m.g = [m.g[0] + 10 * m.g[1], m.g[1] * 2, m.g[2] * 2, m.g[3] - 3 * m.g[5], m.g[4], m.g[5]]
                ctx.call(im.get_point_calculator().set_geot, list(m.g))
        elif op == "dset" and kind == "file" and not loaded:
            # another file of the same shape behind the same image
            m.a = content(r, m.a.dtype.str[1:], m.a.shape)
            p = ctx.path("d%d.tif" % step)
            d = gdal.GetDriverByName("GTiff").Create(p, m.a.shape[1], m.a.shape[0], m.a.shape[2],
                                                     gdal_array.NumericTypeCodeToGDALTypeCode(m.a.dtype.type))
            srs = osr.SpatialReference()
            srs.ImportFromProj4(m.proj.srs)
            d.SetGeoTransform(m.g)
            d.SetProjection(srs.ExportToWkt())
            for b in range(m.a.shape[2]):
                if m.nodata is not None:
                    d.GetRasterBand(b + 1).SetNoDataValue(m.nodata)
                d.GetRasterBand(b + 1).WriteArray(m.a[:, :, b])
            d.FlushCache()
            d = None
            ctx.call(im.set_dset, gdal.Open(p))
        elif op in ("read", "scribble") and kind == "file" and not loaded:
            b = int(r.integers(0, m.a.shape[2]))
            v, w = ctx.call(im.read_band_from_disk, b), ctx.call(im.read_all_image_data_from_disk)
            ctx.equal("history", v, m.a[:, :, b], "a band read differs from its file")
            ctx.equal("history", w, m.a, "the pixels read differ from the file")
            if op == "scribble":
                v[...] = 1
                w[...] = 0
                ctx.equal("history", ctx.call(im.read_band_from_disk, b), m.a[:, :, b], "a band read again differs from its file")
        elif op == "mem":
            dsets.append((ctx.call(im.get_gdal_mem_datset), Model(m.a.copy(), m.g, m.proj, m.nodata)))
        elif op == "warp" and len(warped) < 3:
            nd = m.nodata
            name, kw = warp_options(r, m)
            if gdal_warps(m, kw):
                out = ctx.call(GeotiffImage.gdalwarp_geotiff_image, im, gdal.WarpOptions(**kw))
                warped.append((out, out.read_all_image_data_from_disk(), list(out.get_point_calculator().get_geot())))
                ctx.cover("warp", kind, "loaded" if im.get_image_data() is not None else "unloaded", "changed" if changed[k] else "")
                if nd is None and m.a.dtype.kind != "f":
                    judge_warp(ctx, out, m, kw, "warp")
        elif op == "shared" and len(pool) < 6:
            # a second image over the same settings
            g = im.get_point_calculator().get_geot()
            v = content(r, m.a.dtype.str[1:], m.a.shape)
            pool.append([ctx.call(GeotiffImageFactory.from_numpy_array, v.copy(), g, im.get_point_calculator().get_projection(),
                                  im.get_metadata().get_nodata_val()), Model(v, m.g, m.proj, m.nodata), "memory"])
        ctx.cover(op, kind, "loaded" if loaded else "unloaded")
    ctx.given(trace=trace)
    for im, m, kind in pool:
        if im.get_image_data() is not None:
            ctx.equal("history", np.asarray(im.get_image_data()), m.a, "an image changed by operations on others")
        check_image(ctx, im, m, "history", im.get_image_data() is None)
    for p, m in files:
        check_dataset(ctx, gdal.Open(p), m, "files")
    for d, m in dsets:
        check_dataset(ctx, d, m, "datasets")
    for out, was, g in warped:
        ctx.equal("history", out.read_all_image_data_from_disk(), was, "a warped image changed later")
