"""C08: image extents and per-pixel ground coordinates agree with the sensor model."""
import warnings

import numpy as np
from shapely.geometry import MultiPoint, Point, Polygon

from rv.core import Registry
from rv import images, sensors as S, terrain as T
from rv.props.c07 import KINDS, relief
from resippy.image_objects.earth_overhead.igm.igm_image import IgmImage
from resippy.photogrammetry import ortho_tools
from resippy.utils import photogrammetry_utils as pu
from resippy.utils.image_utils import image_utils
from resippy.image_objects.earth_overhead.abstract_earth_overhead_image import AbstractEarthOverheadImage
from resippy.image_objects.earth_overhead.physical_camera.physical_camera_metadata import PhysicalCameraMetadata
from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory

P = Registry("C08", "All sensor kinds with small images, no terrain, constant, plane and rolling terrain in several coordinate "
                    "systems, one band, band lists and all bands; each reported ground position of each pixel is compared with "
                    "the reference sensor model followed down to the reference surface.")


def metres(s, dx, dy):
    if s.proj.crs.is_geographic:
        return np.hypot(dx * 111320.0 * np.cos(np.deg2rad(s.place[1])), dy * 111320.0)
    return np.hypot(dx, dy)


def setting(ctx, holes=0.0):
    r = ctx.rng
    s = S.make(str(r.choice(KINDS)), r, small=not ctx.big)
    while s.nx * s.ny > 40000:
        s = S.make(str(r.choice(KINDS)), r, small=bool(r.random() < 0.3))
    im, data, source = images.make(ctx, s)
    lo, hi = relief(r, s)
    if r.random() < 0.25 and (s.kind in ("geotiff", "igm") or s.alt_lo < 0 < s.alt_hi):
        t = None
    else:
        t = T.make(r, s, lo, hi, ctx, kind=str(r.choice(["plane", "flat-grid"] if holes else ["constant", "plane", "hills", "flat-grid"])),
                   method="bilinear", dtype=str(r.choice(["f4", "f8"])), holes=holes)
    ctx.cover(s.kind, "no-terrain" if t is None else t.kind)
    return r, s, im, data, t


def on_terrain(s, t, px, py, band):
    """Ground position of pixels on the surface, by the reference model; and whether it is well defined."""
    z = np.zeros(np.shape(px)) + (0.0 if t is None else t.hi)
    x, y = [np.asarray(v, float) for v in s.ground(px, py, z, band)]
    if t is None or t.g is None:
        return x, y, z, np.ones(np.shape(px), bool)
    ok = None
    for i in range(25):
        new = t.elev(x, y, s.proj)
        if i == 14:
            ok = np.abs(new - z) < 1e-3
        z = new
        x, y = [np.asarray(v, float) for v in s.ground(px, py, z, band)]
    # the only crossing of the line of sight: terrain below the ray everywhere nearer to the sensor
    tx, ty = [np.asarray(v, float) for v in s.ground(px, py, np.zeros(np.shape(px)) + t.hi + 1e-3, band)]
    for f in np.linspace(0.02, 1, 50):
        zz = z + f * (t.hi + 1e-3 - z)
        ok &= t.elev(x + f * (tx - x), y + f * (ty - y), s.proj) <= zz + 1e-6 + 1e-4 * (t.hi - t.lo)
    if np.isnan(t.z).any():
        # the samples next to the crossing are anywhere on the line of sight: all of it lies over known terrain
        pad = 2.0 + 0.05 * (t.hi - t.lo)
        for zz in np.linspace(t.lo - pad, t.hi + pad, 60):
            qx, qy = t.grid_pos(*[np.asarray(v, float) for v in s.ground(px, py, np.zeros(np.shape(px)) + zz, band)], s.proj)
            for a, b in ((-0.1, 0), (0.1, 0), (0, -0.1), (0, 0.1)):
                ok &= ~np.isnan(t.at(qx + a, qy + b))
    return x, y, z, ok


def tolerance(s, x, y, z, band):
    if s.kind in ("geotiff", "igm"):
        return np.zeros(np.shape(x)) + metres(s, abs(s.info["step"]) * 1e-3, 0.0) + 1e-6
    g = np.asarray(s.gsd(np.ravel(x), np.ravel(y), np.ravel(z), band), float).reshape(np.shape(x))
    return g * (111320.0 if s.proj.crs.is_geographic else 1.0) * 0.015 + 0.015


def grid(s):
    j, i = np.mgrid[0:s.ny, 0:s.nx]
    return i, j


@P.scenario(quick=200, thorough=3000, monitors=("contains", "tight"))
def extent(ctx):
    r, s, im, data, t = setting(ctx)
    nb = s.nbands
    bands = None
    if r.random() < 0.6:
        k = int(r.integers(0, data.shape[2]))
        bands = [k, [k], [int(v) for v in r.integers(0, data.shape[2], 2)]][int(r.integers(0, 3))]
    use = range(data.shape[2]) if bands is None else [bands] if isinstance(bands, int) else bands
    use = use if nb > 1 else [0]
    ctx.cover("bands", type(bands).__name__)
    ctx.given(kind=s.kind, terrain=t.kind if t else None, z=t.z if t else 0, nx=s.nx, ny=s.ny, bands=bands, place=s.place)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        poly = ctx.call(ortho_tools.get_extent, im, dem=None if t is None else t.dem, bands=bands)
    i, j = grid(s)
    border = (i == 0) | (j == 0) | (i == s.nx - 1) | (j == s.ny - 1)
    X, Y, tol, okall = [], [], [], True
    for b in use:
        x, y, z, ok = on_terrain(s, t, i, j, b)
        u = tolerance(s, x, y, z, b)
        judged = ok & (border if t is not None and t.g is not None else True)
        e = max_outside(s, poly, x[judged], y[judged])
        ctx.count("contains", int(judged.sum()))
        ctx.check("contains", e <= float(u[judged].max() if judged.any() else 0), "the ground of a pixel lies %.3g m outside the extent of its image" % e)
        X.append(x[border]), Y.append(y[border])
        tol.append(float(u.max()))
        okall &= bool(ok[border].all())
    if okall:
        X, Y = np.concatenate(X), np.concatenate(Y)
        vx, vy = np.array(poly.exterior.coords.xy if hasattr(poly, "exterior") else poly.coords.xy)
        d = np.array([metres(s, X - a, Y - c).min() for a, c in zip(vx, vy)])
        ctx.count("tight", len(d))
        ctx.check("tight", d.max() <= max(tol), "a corner of the extent is %.3g m away from the ground of any pixel" % d.max())


def max_outside(s, poly, x, y):
    k = np.array([111320.0 * np.cos(np.deg2rad(s.place[1])), 111320.0]) if s.proj.crs.is_geographic else np.ones(2)
    c = poly.exterior.coords.xy if hasattr(poly, "exterior") else poly.coords.xy
    q = MultiPoint(list(zip(np.array(c[0]) * k[0], np.array(c[1]) * k[1]))).convex_hull
    return max([q.distance(Point(a * k[0], b * k[1])) for a, b in zip(x, y)] + [0.0])


class SizeOnly(AbstractEarthOverheadImage):
    """An image of which only the size matters."""

    def __init__(self, s, nb):
        super(SizeOnly, self).__init__()
        m = PhysicalCameraMetadata()
        m.set_npix_x(s.nx), m.set_npix_y(s.ny), m.set_n_bands(nb)
        self.set_metadata(m)
        self.set_point_calculator(s.calc)

    def read_all_image_data_from_disk(self):
        raise IOError("the pixels were read")

    def read_band_from_disk(self, band_number):
        raise IOError("the pixels were read")


@P.scenario(quick=120, thorough=2000, monitors=("contains", "tight", "position"))
def large(ctx):
    """Images of realistic size over sloped and rolling terrain: judged at sampled pixels of the border."""
    r = ctx.rng
    s = S.make(str(r.choice(["pinhole", "opencv", "pix4d", "rpc", "multiband"])), r)
    s.nx, s.ny = min(s.nx, 1500), min(s.ny, 1500)
    lo, hi = relief(r, s)
    t = T.make(r, s, lo, hi, ctx, kind=str(r.choice(["constant", "plane", "hills", "hills"])), method="bilinear",
               dtype="f8", n=(int(r.integers(2, 12)), int(r.integers(2, 12))))
    nb = s.nbands
    b = int(r.integers(0, nb))
    im = SizeOnly(s, max(nb, int(r.integers(1, 4))))
    ctx.given(kind=s.kind, terrain=t.kind, z=t.z if t.z is not None else t.lo, nx=s.nx, ny=s.ny, band=b, place=s.place)
    ctx.cover(s.kind, t.kind)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        poly = ctx.call(ortho_tools.get_extent, im, dem=t.dem, bands=b if nb > 1 else None)
    k = 40
    ex, ey = r.integers(0, s.nx, k), r.integers(0, s.ny, k)
    i = np.concatenate([ex, ex, np.zeros(k, int), np.full(k, s.nx - 1), [0, s.nx - 1, 0, s.nx - 1]])
    j = np.concatenate([np.zeros(k, int), np.full(k, s.ny - 1), ey, ey, [0, 0, s.ny - 1, s.ny - 1]])
    x, y, z, ok = on_terrain(s, t, i, j, b)
    u = tolerance(s, x, y, z, b)
    ctx.count("contains", int(ok.sum()))
    ctx.cover("slope judged", bool(ok.all()))
    e = max_outside(s, poly, x[ok], y[ok])
    ctx.check("contains", e <= float(u[ok].max() if ok.any() else 0), "the ground of a border pixel lies %.3g m outside the extent" % e)
    vx, vy = np.array(poly.exterior.coords.xy)
    vz = t.elev(vx, vy, s.proj)
    q = np.unique(r.integers(0, len(vx), 60))
    px, py = s.ref(vx[q], vy[q], vz[q], b)
    d = np.minimum(np.minimum(np.abs(px), np.abs(py)), np.minimum(np.abs(px - s.nx + 1), np.abs(py - s.ny + 1)))
    d = np.maximum(d, np.maximum(np.maximum(-px, px - s.nx + 1), np.maximum(-py, py - s.ny + 1)))
    tol = 0.02 + 0.03 / np.asarray(tolerance(s, vx[q], vy[q], vz[q], b)) * 0.015
    if ok.all():
        ctx.count("tight", len(q))
        ctx.check("tight", np.all(d <= tol), "a corner of the extent is %.3g pixels off the border of the image" % d.max())
    lons, lats = ctx.call(ortho_tools.get_pixel_lon_lats, im, dem=t.dem, band=b if nb > 1 else None, pixels_x=i.copy(), pixels_y=j.copy())
    e = np.where(ok, metres(s, lons - x, lats - y) - u, -1)
    ctx.count("position", int(ok.sum()))
    ctx.check("position", e.max() <= 0, "the ground position of a pixel is %.3g m too far off" % e.max())


@P.scenario(quick=200, thorough=3000, monitors=("position",), big=8)
def lon_lats(ctx):
    """The ground position of chosen pixels, or of the whole image."""
    r, s, im, data, t = setting(ctx, holes=float(ctx.rng.choice([0, 0, 0, 0.02, 0.1])))
    b = int(r.integers(0, s.nbands))
    kw = {}
    if s.nbands > 1 or r.random() < 0.5:
        kw["band"] = b
    if r.random() < 0.5:
        i, j = grid(s)
        ctx.cover("whole")
    else:
        n = 12 * ctx.many(1, 5000)
        i, j = s.pixels(r, n)
        if r.random() < 0.25:
            n, i, j = 1, i[:1], j[:1]
        sh = [(n,), (3, n // 3) if n > 1 else (1, 1), (n, 1)][int(r.integers(0, 3))]
        i, j = i.reshape(sh), j.reshape(sh)
        kw.update(pixels_x=i.copy(), pixels_y=j.copy())
        ctx.cover("chosen", len(sh))
    ctx.given(kind=s.kind, terrain=t.kind if t else None, z=t.z if t else 0, i=i, j=j, place=s.place)
    lons, lats = ctx.call(ortho_tools.get_pixel_lon_lats, im, dem=None if t is None else t.dem, **kw)
    x, y, z, ok = on_terrain(s, t, i, j, b)
    lost = np.isnan(x + y + z)
    if lost.any():
        # over terrain of unknown elevation there is no answer to judge; that of all other pixels is as good as ever
        ctx.cover("over holes", "all" if lost.all() else "some")
        if lost.all():
            return
        q = np.argwhere(~lost)[0]
        x, y, z = [np.where(lost, v[tuple(q)], v) for v in (x, y, z)]
        lons, lats = [np.where(lost & np.isnan(v), 0.0, v) for v in (lons, lats)]
    u = tolerance(s, x, y, z, b)
    ctx.check("position", np.shape(lons) == np.shape(i) and np.shape(lats) == np.shape(i), "ground positions of shape %s for pixels "
              "of shape %s" % (np.shape(lons), np.shape(i)))
    ok &= ~lost
    e = np.where(ok, metres(s, lons - x, lats - y) - u, -1)
    ctx.count("position", int(ok.sum()))
    ctx.cover("judged" if ok.all() else "partly")
    ctx.check("position", e.max() <= 0, "the ground position of a pixel is %.3g m too far off" % e.max(), at=np.unravel_index(e.argmax(), e.shape))


@P.scenario(quick=80, thorough=800, monitors=("position", "pixels", "metadata"))
def igm_given(ctx):
    """A coordinate image made from the caller's own coordinates, with altitudes for each pixel or one for all."""
    r = ctx.rng
    ny, nx = int(r.integers(3, 30)), int(r.integers(3, 30))
    lon, lat = S.location(r)
    name, w = S.world_projs(r, lon, lat)[int(r.integers(0, 9))]
    step = 1e-5 if w.crs.is_geographic else 1.0
    X, Y = [float(v) for v in S.transform(S.LL, w, lon, lat)]
    j, i = np.mgrid[0:ny, 0:nx]
    lons = X + step * (i + 0.1 * r.uniform(-1, 1, i.shape))
    lats = Y - step * (j + 0.1 * r.uniform(-1, 1, i.shape))
    alts = [float(r.uniform(-400, 9000)), int(r.integers(-400, 9000)), np.float64(r.uniform(0, 100)), 0,
            r.uniform(0, 3000, (ny, nx))][int(r.integers(0, 5))]
    data = images.pixels(r, ny, nx, int(r.integers(1, 5)), "u2")
    ctx.given(lons=lons, lats=lats, alts=alts, data=data, world=name)
    ctx.cover(name, type(alts).__name__)
    im = ctx.call(IgmImage.from_params, data.copy(), lons.copy(), lats.copy(), alts, data.shape[2], w)
    m, pc = im.get_metadata(), im.get_point_calculator()
    ctx.equal("metadata", (m.get_npix_x(), m.get_npix_y(), m.get_n_bands()), (nx, ny, data.shape[2]), "size")
    ctx.equal("metadata", pc.get_projection().srs, w.srs, "projection")
    ctx.equal("pixels", np.asarray(im.get_image_data()), data, "pixels")
    ctx.equal("position", np.asarray(pc.lon_image), lons, "longitudes")
    ctx.equal("position", np.asarray(pc.lat_image), lats, "latitudes")
    ctx.equal("position", np.asarray(pc.alt_image, float), np.zeros((ny, nx)) + alts, "altitudes of all pixels")
    k = int(r.integers(1, 20))
    px, py = r.integers(0, nx, k), r.integers(0, ny, k)
    gx, gy = ctx.call(pc.pixel_x_y_alt_to_lon_lat, px, py, np.zeros(k))
    ctx.equal("position", np.asarray(gx), lons[py, px], "ground position of a pixel")
    ctx.equal("position", np.asarray(gy), lats[py, px], "ground position of a pixel")


@P.scenario(quick=120, thorough=1500, monitors=("position", "pixels", "metadata", "usable"), big=8)
def igm(ctx):
    """The image with per-pixel coordinates made from a sensor image."""
    r, s, im, data, t = setting(ctx)
    if s.nbands > 1:
        return ctx.cover("skip-multiband")
    ctx.given(kind=s.kind, terrain=t.kind if t else None, z=t.z if t else 0, data=data)
    i, j = grid(s)
    x, y, z, ok = on_terrain(s, t, i, j, 0)
    kw = {}
    dist = 5.0
    if t is not None and t.g is not None:
        a = s.ground(i, j, np.full(i.shape, t.lo), 0)
        c = s.ground(i, j, np.full(i.shape, t.hi), 0)
        ll = float(metres(s, np.asarray(a[0]) - c[0], np.asarray(a[1]) - c[1]).max())
        dist = max(ll / r.uniform(20, 200), 1e-3)
        kw["dem_sample_distance"] = dist
    out = ctx.call(ortho_tools.create_igm_image, im, dem=None if t is None else t.dem, **kw)
    ctx.equal("pixels", np.asarray(out.get_image_data()), data, "the pixels of the coordinate image differ from those of the image")
    m = out.get_metadata()
    ctx.check("metadata", (m.get_npix_x(), m.get_npix_y(), m.get_n_bands()) == (s.nx, s.ny, data.shape[2]), "wrong size recorded")
    pc = out.get_point_calculator()
    ctx.check("metadata", S.pyproj.CRS(pc.get_projection().srs).is_geographic == s.proj.crs.is_geographic and
              pc.get_projection().srs == im.get_point_calculator().get_projection().srs, "wrong projection")
    ctx.check("position", pc.lon_image.shape == (s.ny, s.nx) and pc.lat_image.shape == (s.ny, s.nx) and
              pc.alt_image.shape == (s.ny, s.nx), "coordinate images of wrong shape")
    u = tolerance(s, x, y, z, 0) + dist * 0.05
    e = np.where(ok, metres(s, pc.lon_image - x, pc.lat_image - y) - u, -1)
    ctx.count("position", int(ok.sum()))
    ctx.check("position", e.max() <= 0, "the coordinate image puts a pixel %.3g m too far off" % e.max())
    if t is not None:
        steep = 0.0 if t.g is None else (t.hi - t.lo)
        zz = t.elev(pc.lon_image, pc.lat_image, s.proj)
        ctx.check("position", np.all(np.abs(pc.alt_image - zz)[ok] <= 1e-6 * (1 + abs(t.hi)) + 0.02 * steep), "the coordinate image's "
                  "altitudes are not those of the terrain", worst=float(np.abs(pc.alt_image - zz)[ok].max()) if ok.any() else 0)
    else:
        ctx.equal("position", np.asarray(pc.alt_image, float), np.zeros((s.ny, s.nx)), "altitudes without terrain")
    # narrow relief: the sampling distance asked for is the one used
    if t is not None and t.g is not None and r.random() < 0.6:
        t2 = T.make(r, s, t.lo, t.hi, None, kind=str(r.choice(["towers", "rough"])), method="nearest", dtype="f8",
                    n=(int(r.integers(20, 120)), int(r.integers(20, 120))))
        if r.random() < 0.3:
            dist = dist * r.uniform(3, 10)
        again = ctx.call(ortho_tools.create_igm_image, im, dem=t2.dem, dem_sample_distance=dist).get_point_calculator()
        gx, gy = image_utils.create_pixel_grid(s.nx, s.ny)
        want = ctx.call(im.get_point_calculator().pixel_x_y_to_lon_lat_alt, gx, gy, t2.dem, dem_sample_distance=dist)
        for name, a, b in zip(("lon_image", "lat_image", "alt_image"), (again.lon_image, again.lat_image, again.alt_image), want):
            ctx.close("position", np.asarray(a, float), np.asarray(b, float), "the coordinate image's %s is not what the sensor model answers for "
                      "the sampling distance asked for" % name, rtol=1e-9, atol=1e-9)
        ctx.cover("sampling", t2.kind)
    # usable as an image
    k = int(r.integers(0, s.nx)), int(r.integers(0, s.ny))
    lo, la = ctx.call(pc.pixel_x_y_alt_to_lon_lat, np.array([k[0]]), np.array([k[1]]), np.array([0.0]))
    ctx.check("usable", float(lo[0]) == float(pc.lon_image[k[1], k[0]]) and float(la[0]) == float(pc.lat_image[k[1], k[0]]),
              "the coordinate image does not answer with its own coordinates")
    ctx.equal("usable", out.get_image_band(data.shape[2] - 1), data[:, :, -1], "a band of the coordinate image differs")


@P.scenario(quick=150, thorough=2000, monitors=("grid", "geotransform", "count", "pixel-grid"))
def grids(ctx):
    """Ground grids, geotransforms and pixel counts of extents."""
    r = ctx.rng
    c = [float(r.uniform(-180, 170)), float(r.uniform(-80, 80))] if r.random() < 0.5 else \
        [float(r.uniform(1e5, 9e5)), float(r.uniform(-9e6, 9e6))]
    w = [float(10 ** r.uniform(-4, 5)) for _ in range(2)]
    x0, y0, x1, y1 = c[0], c[1], c[0] + w[0], c[1] + w[1]
    nx, ny = [int(r.choice([1, 2, r.integers(3, 300)], p=[0.1, 0.1, 0.8])) for _ in range(2)]
    ctx.given(bounds=(x0, y0, x1, y1), nx=nx, ny=ny)
    ctx.cover(min(nx, 3), min(ny, 3))
    gx, gy = ctx.call(pu.create_ground_grid, x0, x1, y0, y1, nx, ny)
    gsx, gsy = (x1 - x0) / nx, (y1 - y0) / ny
    j, i = np.mgrid[0:ny, 0:nx]
    t = 1e-6 * min(gsx, gsy) + 1e-9 * max(abs(x0), abs(y0), 1) * 1e-3
    ctx.close("grid", gx, x0 + (i + 0.5) * gsx, "ground grid x", rtol=0, atol=t)
    ctx.close("grid", gy, y1 - (j + 0.5) * gsy, "ground grid y", rtol=0, atol=t)
    kind = str(r.choice(["box", "diamond", "triangle"]))
    poly = {"box": Polygon([(x0, y0), (x1, y0), (x1, y1), (x0, y1)]),
            "diamond": Polygon([(x0, (y0 + y1) / 2), ((x0 + x1) / 2, y0), (x1, (y0 + y1) / 2), ((x0 + x1) / 2, y1)]),
            "triangle": Polygon([(x0, y0), (x1, (y0 * 0.3 + y1 * 0.7)), ((x0 + x1) / 2, y1)])}[kind]
    ctx.cover(kind)
    g = ctx.call(pu.world_poly_to_geo_t, poly, nx, ny)
    ctx.close("geotransform", [g[0] + 0.5 * g[1] + 0.5 * g[2], g[3] + 0.5 * g[4] + 0.5 * g[5]], [gx[0, 0], gy[0, 0]],
              "the geotransform does not put the first pixel on the first grid point", rtol=0, atol=t)
    ctx.close("geotransform", [g[0] + (nx - .5) * g[1] + (ny - .5) * g[2], g[3] + (nx - .5) * g[4] + (ny - .5) * g[5]],
              [gx[-1, -1], gy[-1, -1]], "the geotransform does not put the last pixel on the last grid point", rtol=0, atol=t)
    sx, sy = w[0] / r.uniform(1, 400), w[1] / r.uniform(1, 400)
    n = ctx.call(pu.get_nx_ny_pixels_in_extent, poly, sx, sy)
    for k, e in zip(n, (w[0] / sx, w[1] / sy)):
        f = abs(e - round(e))
        ctx.check("count", k == int(np.floor(e)) or (f < 1e-6 and abs(k - e) <= 1), "%r pixels of the given size in an extent of "
                  "%.6f pixels" % (k, e))
    m = int(r.integers(1, 60)), int(r.integers(1, 60))
    px, py = ctx.call(image_utils.create_pixel_grid, *m)
    jj, ii = np.mgrid[0:m[1], 0:m[0]]
    ctx.check("pixel-grid", np.array_equal(px, ii) and np.array_equal(py, jj), "the pixel grid is not that of the image")
    f = int(r.choice([2, 4, 8]))
    px, py = ctx.call(image_utils.create_pixel_grid, m[0], m[1], scale_factor=f)
    jj, ii = np.mgrid[0:m[1] * f, 0:m[0] * f]
    ctx.close("pixel-grid", px, ii / f, "the scaled pixel grid", rtol=0, atol=1e-9)
    ctx.close("pixel-grid", py, jj / f, "the scaled pixel grid", rtol=0, atol=1e-9)


@P.scenario(quick=60, thorough=800, monitors=("map-extent",))
def map_extent(ctx):
    """The extent of a map grid is its outline, and it makes the same grid again."""
    r = ctx.rng
    s = S.make("geotiff", r, small=True)
    g = s.info["g"]
    im = GeotiffImageFactory.from_numpy_array(np.zeros((s.ny, s.nx, 1), "u1"), g, s.proj)
    if r.random() < 0.5:
        p = ctx.path("x.tif")
        im.write_to_disk(p)
        im = GeotiffImageFactory.from_file(p)
    ctx.given(g=g, nx=s.nx, ny=s.ny)
    ctx.cover(s.info["native"], "rotated" if g[2] or g[4] else "north-up")
    poly = ctx.call(im.get_point_calculator().get_world_extent_native)
    want = [(g[0] + a * g[1] + b * g[2], g[3] + a * g[4] + b * g[5]) for a, b in ((0, 0), (s.nx, 0), (s.nx, s.ny), (0, s.ny))]
    d = Polygon(want).symmetric_difference(poly).area / Polygon(want).area
    ctx.check("map-extent", d < 1e-6, "the extent of a map image is not its outline", d=d)
    if not g[2] and not g[4]:
        ctx.close("map-extent", pu.world_poly_to_geo_t(poly, s.nx, s.ny), g, "the geotransform does not come back from the extent",
                  rtol=1e-9, atol=1e-9 * abs(g[1]))
