"""C06: terrain models answer with the surface they hold."""
import struct

import numpy as np
from osgeo import gdal, osr
from pyproj.exceptions import ProjError

from rv.core import Registry
from rv import sensors as S
from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory
from resippy.photogrammetry.dem.dem_factory import DemFactory
from resippy.photogrammetry.dem.geotiff_dem import GeotiffDem
from resippy.photogrammetry import crs_defs

P = Registry("C06", "Random terrain grids (1x1 to 30x30, seven data types, north-up and rotated, lon/lat, UTM, Web Mercator "
                    "and feet) opened from files or made in memory, with and without no-data posts, asked at random "
                    "positions, posts, post edges and outside, as numbers and arrays, in eight coordinate systems.", boost=4)

TYPES = ["f4", "f4", "f8", "i2", "u2", "i4", "u1"]


class Grid(object):
    def __init__(self, ctx, dtype=None, nodata=None, small=False, rotated=None, surface="any"):
        r = ctx.rng
        self.lon, self.lat = S.location(r)
        size = (lambda: int(r.choice([1, 2, r.integers(2, 30), r.integers(2, 30)]))) if not small else \
            (lambda: int(r.integers(2, 12)))
        self.nx, self.ny = size(), size()
        if ctx.big:
            self.ny, self.nx = ctx.shape(2, 30, 3000000)
        self.native, self.proj, self.g = S.geot_for(r, self.lon, self.lat, self.nx, self.ny, rotated)
        self.dtype = dtype or str(r.choice(TYPES))
        lo, hi = {"u1": (1, 250), "i2": (-400, 8000), "u2": (0, 60000), "i4": (-400, 8000)}.get(self.dtype, (-400.0, 8000.0))
        z = r.uniform(lo, hi, (self.ny, self.nx))
        if r.random() < 0.2:
            z[:] = z[0, 0]
        self.z = z.astype(self.dtype)
        self.nodata = None
        self.holes = np.zeros(self.z.shape, bool)
        if nodata if nodata is not None else r.random() < 0.5:
            self.nodata = {"u1": 255, "i2": -9999, "u2": 65535, "i4": -32768}.get(self.dtype,
                                                                                     float(r.choice([-9999.0, -32767.0, 0.5])))
            if r.random() < 0.25:
                self.nodata = 0
                self.z[self.z == 0] = 1
            if r.random() < 0.8:
                self.holes = r.random(self.z.shape) < r.uniform(0.02, 0.4)
                if self.holes.all():
                    self.holes.flat[0] = False
                self.z[self.holes] = self.nodata
        self.ref = self.z.astype(float)
        self.ref[self.holes] = np.nan

    def world(self, px, py):
        g = self.g
        return g[0] + px * g[1] + py * g[2], g[3] + px * g[4] + py * g[5]

    def nearest(self, px, py):
        x = np.clip(np.floor(px), 0, self.nx - 1).astype(int)
        y = np.clip(np.floor(py), 0, self.ny - 1).astype(int)
        return self.ref[y, x]

    def bilinear(self, px, py):
        """Value, and the smallest nonzero weight distance (to know when a no-data post is only just involved)."""
        x = np.clip(px - 0.5, 0, self.nx - 1)
        y = np.clip(py - 0.5, 0, self.ny - 1)
        x0 = np.minimum(np.floor(x).astype(int), max(self.nx - 2, 0))
        y0 = np.minimum(np.floor(y).astype(int), max(self.ny - 2, 0))
        x1, y1 = np.minimum(x0 + 1, self.nx - 1), np.minimum(y0 + 1, self.ny - 1)
        fx, fy = x - x0, y - y0
        out = np.zeros(x.shape)
        for xx, yy, w in ((x0, y0, (1 - fx) * (1 - fy)), (x1, y0, fx * (1 - fy)), (x0, y1, (1 - fx) * fy), (x1, y1, fx * fy)):
            out += np.where(w > 0, w * np.where(w > 0, self.ref[yy, xx], 0), 0)
        return out

    def write(self, path, nodata=True):
        t = {"f4": gdal.GDT_Float32, "f8": gdal.GDT_Float64, "i2": gdal.GDT_Int16, "u2": gdal.GDT_UInt16,
             "i4": gdal.GDT_Int32, "u1": gdal.GDT_Byte}[self.dtype]
        d = gdal.GetDriverByName("GTiff").Create(path, self.nx, self.ny, 1, t)
        d.SetGeoTransform(self.g)
        d.SetProjection(self.proj.crs.to_wkt("WKT1_GDAL"))
        if nodata and self.nodata is not None:
            d.GetRasterBand(1).SetNoDataValue(self.nodata)
        d.GetRasterBand(1).WriteArray(self.z)
        d.FlushCache()
        d = None


def open_dem(ctx, grid):
    """The terrain model of a grid, made in one of the ways a user can."""
    r = ctx.rng
    method = str(r.choice(["nearest", "bilinear"]))
    how = str(r.choice(["factory", "factory-explicit", "file", "memory"]))
    ctx.cover(how, method)
    ctx.cover("dtype", grid.dtype)
    if how in ("factory", "factory-explicit"):
        p = ctx.path("dem%d.tif" % len(ctx.inputs))
        grid.write(p, nodata=how == "factory")
        kw = {"nodata_value": grid.nodata} if how == "factory-explicit" else {}
        if method == "nearest" or r.random() < 0.5:
            kw["interpolation_method"] = method
        return ctx.call(DemFactory.from_gtiff_file, p, **kw), method, how
    dem = GeotiffDem()
    if how == "file":
        p = ctx.path("dem%d.tif" % len(ctx.inputs))
        grid.write(p)
        im = GeotiffImageFactory.from_file(p)
    else:
        im = GeotiffImageFactory.from_numpy_array(grid.z.copy(), list(grid.g), grid.proj, grid.nodata)
    if r.random() < 0.5:
        ctx.call(dem.set_geotiff_image, im)
        ctx.call(dem.remove_nodata_values, grid.nodata)
    else:
        ctx.call(dem.remove_nodata_values, grid.nodata)
        ctx.call(dem.set_geotiff_image, im)
    if method == "nearest":
        dem.set_interpolation_to_nearest()
    else:
        dem.set_interpolation_to_bilinear()
    return dem, method, how


def positions(r, grid, n):
    kind = str(r.choice(["inside", "posts", "post-edges", "around", "outside", "border"]))
    if kind == "inside":
        x, y = r.uniform(0, grid.nx, n), r.uniform(0, grid.ny, n)
    elif kind == "posts":
        x, y = r.integers(0, grid.nx, n) + 0.5, r.integers(0, grid.ny, n) + 0.5
    elif kind == "post-edges":
        x, y = r.integers(0, grid.nx, n) + r.choice([0.01, 0.99], n), r.integers(0, grid.ny, n) + r.choice([0.01, 0.99], n)
    elif kind == "around":
        x, y = r.uniform(-2, grid.nx + 2, n), r.uniform(-2, grid.ny + 2, n)
    elif kind == "border":
        x, y = r.choice([0.02, grid.nx - 0.02], n), r.uniform(0, grid.ny, n)
    else:
        x, y = grid.nx + r.uniform(1, 50, n), -r.uniform(1, 50, n)
    return kind, x, y


@P.scenario(quick=500, thorough=9000, monitors=("elevation", "shape", "bounds", "other-system"), big=14)
def elevations(ctx):
    r = ctx.rng
    grid = Grid(ctx)
    dem, method, how = open_dem(ctx, grid)
    judge(ctx, dem, grid, method, how, 12 * ctx.many(1, 30000))


def judge(ctx, dem, grid, method, how, n):
    """One question to a terrain model that holds a grid."""
    r = ctx.rng
    kind, px, py = positions(r, grid, n)
    x, y = grid.world(px, py)
    wname, wp = "native", None
    qx, qy = x, y
    if r.random() < 0.5:
        wname, wp = S.world_projs(r, grid.lon, grid.lat)[int(r.integers(0, 9))]
        qx, qy = S.transform(grid.proj, wp, x, y)
        # the grid position that the rounded coordinates really name
    ctx.cover(kind, wname)
    ctx.given(z=grid.z, g=grid.g, px=px, py=py, method=method, how=how, proj=grid.native, world=wname)
    shape = [(n,), (n // 4, 4), (4, n // 4), (n // 3, 3), (1, n), (n, 1), "number", (1,), (1, 1),
             (2, 2, n // 4)][int(r.integers(0, 10))]
    if shape in ((1,), (1, 1)):
        k = int(r.integers(0, n))
        px, py, qx, qy = px[k:k + 1], py[k:k + 1], np.asarray(qx)[k:k + 1], np.asarray(qy)[k:k + 1]
    if shape == "number":
        k = int(r.integers(0, n))
        px, py, qx, qy = px[k:k + 1], py[k:k + 1], np.asarray(qx)[k:k + 1], np.asarray(qy)[k:k + 1]
        got = ctx.call(dem.get_elevations, float(qx[0]), float(qy[0]), **({"world_proj": wp} if wp is not None else {}))
        ctx.check("shape", np.ndim(got) == 0, "one position is answered with shape %s" % (np.shape(got),))
        got = np.array([float(got)])
    else:
        got = ctx.call(dem.get_elevations, np.reshape(qx, shape), np.reshape(qy, shape), world_proj=wp)
        ctx.equal("shape", np.shape(got), shape, "the answer does not have the shape of the question")
        got = np.asarray(got, dtype=float).ravel()
    eps = 1e-6 + (1e-5 / abs(S.np.hypot(grid.g[1], grid.g[4])) * 0.1 if wp is not None and grid.native != "lonlat" else
                  1e-9 / S.np.hypot(grid.g[1], grid.g[4]) if wp is not None else 0)
    if method == "nearest":
        sure = (np.abs(px - np.round(px)) > eps) & (np.abs(py - np.round(py)) > eps)
        sure |= ((px < -eps) | (px > grid.nx + eps)) & ((py < -eps) | (py > grid.ny + eps))
        want = grid.nearest(px, py)
        ctx.close("elevation", got[sure], want[sure], "nearest elevation differs from the post (%s)" % kind, atol=0, rtol=1e-12)
    else:
        want = grid.bilinear(px, py)
        # within eps of a row or column of posts, a no-data post just beyond it may or may not take part
        lo = [grid.bilinear(px + dx, py + dy) for dx in (-eps, eps) for dy in (-eps, eps)]
        sure = np.ones(px.shape, bool)
        for o in lo:
            sure &= np.isnan(o) == np.isnan(want)
        span = float(np.nanmax(grid.ref) - np.nanmin(grid.ref)) if grid.ref.size else 0.0
        ctx.close("elevation", got[sure], want[sure], "bilinear elevation differs from the interpolated posts (%s)" % kind,
                  atol=4 * eps * span + 1e-11 * float(np.nanmax(np.abs(grid.ref))), rtol=1e-11)
    if wp is not None:
        ctx.count("other-system", int(sure.sum()))
    ok = got[~np.isnan(got)]
    lo, hi = ctx.call(dem.get_lowest_alt), ctx.call(dem.get_highest_alt)
    s = 1e-6 * max(1, abs(hi), abs(lo))
    ctx.check("bounds", np.all(ok >= lo - s) and np.all(ok <= hi + s), "an elevation is outside the reported [%s, %s]" % (lo, hi))
    ctx.close("bounds", lo, float(np.nanmin(grid.ref)), "the lowest elevation is not that of the posts", rtol=1e-12)
    ctx.close("bounds", hi, float(np.nanmax(grid.ref)), "the highest elevation is not that of the posts", rtol=1e-12)
    ctx.close("bounds", ctx.call(dem.get_mean_alt), float(np.nanmean(grid.ref)), "the mean elevation is not that of the posts",
              rtol=1e-5 if grid.dtype == "f4" else 1e-11, atol=1e-3 if grid.dtype == "f4" else 1e-8)


@P.scenario(quick=150, thorough=2000, monitors=("unknown", "elevation"))
def no_such_place(ctx):
    """Positions that the terrain's projection has no coordinates for, among others that it has."""
    r = ctx.rng
    grid = Grid(ctx)
    dem, method, how = open_dem(ctx, grid)
    n = int(r.integers(1, 40))
    px, py = r.uniform(0, grid.nx, n), r.uniform(0, grid.ny, n)
    lon, lat = [np.array(v) for v in S.transform(grid.proj, S.LL, *grid.world(px, py))]
    want = np.array(ctx.call(dem.get_elevations, lon.copy(), lat.copy(), world_proj=S.LL), float)
    bad = r.random(n) < r.choice([0.0, 0.2, 0.7, 1.0])
    lon[bad] = r.choice([np.inf, np.nan, 0.0], n)[bad]
    lat[bad] = r.choice([np.nan, np.inf, 95.0 if grid.native != "lonlat" else np.nan], n)[bad]
    ctx.given(z=grid.z, g=grid.g, lon=lon, lat=lat, method=method, how=how, native=grid.native)
    ctx.cover(grid.native, method, "%d of 4 unknown" % (4 * bad.mean()))
    shape = [(n,), (n, 1), (1, n)][int(r.integers(0, 3))]
    got = np.asarray(ctx.call(dem.get_elevations, lon.reshape(shape), lat.reshape(shape), world_proj=S.LL), float).ravel()
    ctx.check("unknown", np.all(np.isnan(got[bad])), "a place without coordinates has an elevation")
    ctx.close("elevation", got[~bad], want[~bad], "the elevation of a place depends on unknown places asked with it", rtol=1e-9)


@P.scenario(quick=200, thorough=3000, monitors=("elevation", "shape", "bounds"), big=4)
def history(ctx):
    """A terrain model whose terrain, interpolation and no-data value change between questions."""
    r = ctx.rng
    dem, method, grid, removed = GeotiffDem(), "bilinear", None, None
    for k in range(int(r.integers(3, 8))):
        step = "terrain" if grid is None else str(r.choice(["terrain", "interpolation", "no-data", "ask"]))
        ctx.cover("step", step)
        if step == "terrain":
            grid = Grid(ctx, nodata=False)
            if removed is not None:
                # the last no-data value asked for is that of later terrain as well
                grid.z.flat[r.integers(0, grid.z.size, max(1, grid.z.size // 9))] = removed if grid.dtype != "u1" else grid.z.flat[0]
                grid.holes = grid.z == removed
                if grid.holes.all():
                    grid.z.flat[0] = grid.z.dtype.type(7 if removed != 7 else 8)
                    grid.holes.flat[0] = False
                grid.ref = np.where(grid.holes, np.nan, grid.z.astype(float))
            if r.random() < 0.4:
                p = ctx.path("h%d.tif" % k)
                grid.write(p)
                im = GeotiffImageFactory.from_file(p)
            else:
                im = GeotiffImageFactory.from_numpy_array(grid.z.copy(), list(grid.g), grid.proj)
            ctx.call(dem.set_geotiff_image, im)
        elif step == "interpolation":
            method = str(r.choice(["nearest", "bilinear"]))
            ctx.call(dem.set_interpolation_to_nearest if method == "nearest" else dem.set_interpolation_to_bilinear)
            ctx.check("shape", ctx.call(dem.get_interpolation_method) == method, "the interpolation is not the one set")
        elif step == "no-data":
            left = grid.z[~grid.holes]
            v = left.flat[int(r.integers(0, left.size))].item() if r.random() < 0.7 else 123
            if np.all((left == v)):
                continue
            removed = v
            ctx.call(dem.remove_nodata_values, v)
            grid.holes = grid.holes | (grid.z == v)
            grid.ref = np.where(grid.holes, np.nan, grid.z.astype(float))
        judge(ctx, dem, grid, method, "history", 12)


@P.scenario(quick=120, thorough=2000, monitors=("removed", "kept", "source-untouched"), big=5)
def remove_nodata(ctx):
    """Removing no-data posts (also twice, with other values) leaves all others as they are."""
    r = ctx.rng
    grid = Grid(ctx, nodata=False)
    vals = r.choice(grid.z.ravel(), size=int(min(3, grid.z.size)), replace=False)
    dem = GeotiffDem()
    src = grid.z.copy()
    im = GeotiffImageFactory.from_numpy_array(src, list(grid.g), grid.proj)
    ctx.call(dem.set_geotiff_image, im)
    dem.set_interpolation_to_nearest()
    gone = np.zeros(grid.z.shape, bool)
    py, px = np.mgrid[0:grid.ny, 0:grid.nx] + 0.5
    x, y = grid.world(px, py)
    ctx.given(z=grid.z, vals=vals)
    for v in vals:
        v = v.item()
        ctx.call(dem.remove_nodata_values, v)
        gone |= grid.z == v
        got = np.asarray(ctx.call(dem.get_elevations, x, y), dtype=float)
        ctx.check("removed", np.all(np.isnan(got[gone])), "a removed post still answers")
        ctx.equal("kept", got[~gone], grid.z[~gone].astype(float), "removing no-data posts changed another post")
    ctx.equal("source-untouched", src, grid.z, "removing no-data posts changed the caller's array")


@P.scenario(quick=60, thorough=800, monitors=("constant", "shape", "bounds"))
def constant(ctx):
    r = ctx.rng
    e = float(r.choice([0, r.uniform(-400, 9000), 100]))
    if r.random() < 0.9:
        dem = ctx.call(DemFactory.constant_elevation, e)
    else:
        e, dem = 0.0, ctx.call(DemFactory.constant_elevation)
    lon, lat = S.location(r)
    name, wp = S.world_projs(r, lon, lat)[int(r.integers(0, 9))]
    shape = [(), (5,), (2, 3), (1, 1)][int(r.integers(0, 4))]
    x, y = r.normal(size=shape) * 1000, r.normal(size=shape) * 1000
    ctx.given(e=e, x=x, y=y)
    ctx.cover(str(shape))
    got = ctx.call(dem.get_elevations, x, y, wp) if r.random() < 0.5 else ctx.call(dem.get_elevations, x, y)
    ctx.equal("shape", np.shape(got), shape, "the answer does not have the shape of the question")
    ctx.check("constant", np.all(np.asarray(got) == e), "the constant elevation is not constant")
    ctx.check("bounds", dem.get_lowest_alt() == e and dem.get_highest_alt() == e and dem.get_mean_alt() == e,
              "lowest, highest and mean of a constant differ")
    dem.elevation = e = e + float(r.choice([1.5, r.uniform(-100, 100)]))
    ctx.check("constant", np.all(np.asarray(ctx.call(dem.get_elevations, x, y)) == e), "a changed constant elevation is not answered")
    ctx.check("bounds", dem.get_lowest_alt() == e and dem.get_highest_alt() == e and dem.get_mean_alt() == e,
              "lowest, highest and mean of a changed constant differ")


@P.scenario(quick=30, thorough=200, monitors=("refused", "accessors"))
def refusals_and_accessors(ctx):
    r = ctx.rng
    grid = Grid(ctx, small=True)
    p = ctx.path("d.tif")
    grid.write(p)
    ctx.given(z=grid.z)
    bad = ["cubic", "", "Bilinear", None, "near"][ctx.index % 5]
    ctx.must_raise("refused", DemFactory.from_gtiff_file, "an unknown interpolation was accepted", p, interpolation_method=bad)
    dem = ctx.call(DemFactory.from_gtiff_file, p)
    ctx.check("accessors", dem.get_interpolation_method() == "bilinear", "the default interpolation is not bilinear")
    ctx.check("accessors", dem.get_reference() is None, "an unset vertical reference is not None")
    dem.set_reference(5773)
    ctx.check("accessors", dem.get_reference() == 5773, "the vertical reference is lost")
    a = ctx.call(dem.get_projection)
    x, y = S.transform(a, S.LL, *grid.world(0.3, 0.4))
    x2, y2 = S.transform(grid.proj, S.LL, *grid.world(0.3, 0.4))
    ctx.close("accessors", [x, y], [x2, y2], "the projection of the terrain model is not that of its file", atol=1e-9)
    c = DemFactory.constant_elevation(3)
    ctx.check("accessors", c.get_reference() is None and c.get_projection() is None, "constant terrain has no reference")


def write_gtx(path, lon, lat, n0, gx, gy, half=4.0, d=0.25):
    """A geoid undulation grid that is a plane around a place."""
    lat0, lon0 = np.floor(lat) - half, np.floor(lon) - half
    k = int(2 * half / d) + 5
    yy, xx = np.mgrid[0:k, 0:k]
    v = (n0 + gx * (lon0 + xx * d - lon) + gy * (lat0 + yy * d - lat)).astype(">f4")
    with open(path, "wb") as f:
        f.write(struct.pack(">4d2i", lat0, lon0, d, d, k, k))
        f.write(v.tobytes())


@P.scenario(quick=60, thorough=800, monitors=("geoid", "ellipsoid", "round-trip", "kept-places"))
def geoid_heights(ctx):
    """Changing between geoid and ellipsoid heights moves every post by the undulation at its own place."""
    r = ctx.rng
    grid = Grid(ctx, dtype=str(r.choice(["f4", "f8"])), nodata=False, small=True, rotated=False)
    while grid.native in ("epsg3857", "utm-feet"):
        grid = Grid(ctx, dtype=grid.dtype, nodata=False, small=True, rotated=False)
    p, q, q2, gtx = ctx.path("d.tif"), ctx.path("o.tif"), ctx.path("o2.tif"), ctx.path("g.gtx")
    grid.write(p)
    n0, gx, gy = float(r.uniform(-80, 80)), float(r.uniform(-5, 5)), float(r.uniform(-5, 5))
    write_gtx(gtx, grid.lon, grid.lat, n0, gx, gy)
    dem = ctx.call(DemFactory.from_gtiff_file, p)
    dem.set_interpolation_to_nearest()
    py, px = np.mgrid[0:grid.ny, 0:grid.nx] + 0.5
    x, y = grid.world(px, py)
    lon, lat = S.transform(grid.proj, S.LL, x, y)
    und = n0 + gx * (lon - grid.lon) + gy * (lat - grid.lat)
    to = str(r.choice(["geoid", "ellipsoid"]))
    ctx.cover(to, grid.native)
    ctx.given(z=grid.z, n0=n0, gx=gx, gy=gy, to=to, g=grid.g)
    fn, sign = (dem.convert_to_geoid_heights, -1) if to == "geoid" else (dem.convert_to_ellipsoid_heights, 1)
    ctx.call(fn, q, gtx)
    dem.set_interpolation_to_nearest()
    got = np.asarray(ctx.call(dem.get_elevations, x, y), dtype=float)
    ctx.close(to, got, grid.ref + sign * und, "%s heights are not the heights %s the undulation" % (to, "minus" if sign < 0 else "plus"),
              atol=2e-2, rtol=1e-6)
    ctx.check("kept-places", dem.dem_data.shape == grid.z.shape, "converting heights changed the grid")
    back = dem.convert_to_ellipsoid_heights if to == "geoid" else dem.convert_to_geoid_heights
    # the converted file names its vertical datum; going back starts from the heights alone
    d = gdal.Open(q)
    z = d.GetRasterBand(1).ReadAsArray()
    d = None
    g2 = grid
    g2.z = z
    p3 = ctx.path("d3.tif")
    g2.write(p3)
    dem2 = ctx.call(DemFactory.from_gtiff_file, p3)
    dem2.set_interpolation_to_nearest()
    ctx.call(dem2.convert_to_ellipsoid_heights if to == "geoid" else dem2.convert_to_geoid_heights, q2, gtx)
    got = np.asarray(ctx.call(dem2.get_elevations, x, y), dtype=float)
    ctx.close("round-trip", got, grid.ref, "converting heights there and back changes them", atol=4e-2, rtol=1e-6)


@P.scenario(quick=16, thorough=120, monitors=("refused",))
def vertical_datum(ctx):
    """A projection without an EPSG code cannot be given a compound EPSG datum: it has to be refused, not guessed."""
    r = ctx.rng
    lon, lat = S.location(r)
    from pyproj import Proj
    proj = Proj("+proj=lcc +lat_1=%f +lat_2=%f +lon_0=%f +datum=WGS84" % (30, 40, lon), preserve_units=True)
    im = GeotiffImageFactory.from_numpy_array(r.uniform(0, 50, (4, 5)).astype("f4"), [0.0, 10.0, 0, 0.0, 0, -10.0], proj)
    dem = GeotiffDem()
    ctx.call(dem.set_geotiff_image, im)
    ctx.given(lon=lon)
    ctx.must_raise("refused", dem.convert_reference, "a projection without an EPSG code was given a vertical datum",
                   ctx.path("o.tif"), 5773)


@P.scenario(quick=20, thorough=200, monitors=("egm96",))
def egm96(ctx):
    """Heights above the EGM96 geoid: the written file holds them (its own projection may not open without the grid)."""
    r = ctx.rng
    while True:
        grid = Grid(ctx, dtype="f4", nodata=False, small=True, rotated=False)
        if grid.native in ("utm", "lonlat"):
            break
    q = ctx.path("o.tif")
    if r.random() < 0.5:
        p = ctx.path("d.tif")
        grid.write(p)
        im = GeotiffImageFactory.from_file(p)
    else:
        im = GeotiffImageFactory.from_numpy_array(grid.z.copy(), list(grid.g), grid.proj)
    dem = GeotiffDem()
    ctx.call(dem.set_geotiff_image, im)
    ctx.given(z=grid.z, g=grid.g)
    ctx.cover(grid.native)
    try:
        ctx.call(dem.convert_reference, q, 5773)
    except ProjError as e:
        if "egm96" not in str(e):
            raise
    a, b = osr.SpatialReference(), osr.SpatialReference()
    a.SetFromUserInput("EPSG:4979")
    b.SetFromUserInput("EPSG:4326+5773")
    for o in (a, b):
        o.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    t = osr.CoordinateTransformation(a, b)
    d = gdal.Open(q)
    ctx.check("egm96", d is not None, "no file was written")
    z, g = d.GetRasterBand(1).ReadAsArray(), d.GetGeoTransform()
    d = None
    ctx.check("egm96", z.shape == grid.z.shape and np.allclose(g, grid.g, rtol=1e-9, atol=1e-6 if grid.native == "utm" else 1e-12),
              "changing the vertical datum moved the posts")
    py, px = np.mgrid[0:grid.ny, 0:grid.nx] + 0.5
    lon, lat = S.transform(grid.proj, S.LL, *grid.world(px, py))
    want = np.array([t.TransformPoint(float(lo), float(la), 0.0)[2] for lo, la in zip(lon.ravel(), lat.ravel())])
    ctx.close("egm96", z, grid.ref + want.reshape(z.shape), "EGM96 heights are not ellipsoid heights less the undulation", atol=5e-2)
