"""C07: every orthorectified pixel shows the ground that its own map coordinates name."""
import numpy as np
from osgeo import gdal
from scipy.ndimage import map_coordinates
from shapely.geometry import Polygon, box

from rv.core import Registry
from rv import images, sensors as S, terrain as T, tiff
from resippy.image_objects.image_factory import ImageFactory
from resippy.photogrammetry import ortho_tools

P = Registry("C07", "All sensor kinds (coregistered and separate bands, images in memory and in files, six data types), no "
                    "terrain, flat, sloped, rolling, rough and cliff terrain, eight output projections, output grids of 1 to "
                    "40 pixels over, beside and beyond the image, band lists, spline orders 0 to 3, masks; the monitor "
                    "recomputes each output pixel from the georeferencing the output itself declares.", boost=2)

KINDS = ["pinhole", "opencv", "pix4d", "rpc", "geotiff", "igm", "multiband"]


def relief(r, s):
    if s.kind in ("geotiff", "igm"):
        return 0.0, 100.0
    span = s.alt_hi - s.alt_lo
    mid = r.uniform(s.alt_lo + 0.2 * span, s.alt_hi - 0.2 * span)
    d = span * 10 ** r.uniform(-2.5, -0.8)
    return float(mid - d), float(mid + d)


def footprint(s, b, lo, hi):
    t = np.linspace(0, 1, 5)
    px = np.concatenate([t * (s.nx - 1), np.full(5, s.nx - 1), t * (s.nx - 1), np.zeros(5)])
    py = np.concatenate([np.zeros(5), t * (s.ny - 1), np.full(5, s.ny - 1), t * (s.ny - 1)])
    if s.integer:
        px, py = np.round(px).astype(int), np.round(py).astype(int)
    xs, ys = [], []
    for a in (lo, hi):
        x, y = s.ground(px, py, np.full(20, float(a)), b)
        xs.append(x)
        ys.append(y)
    return np.concatenate(xs), np.concatenate(ys)


def extras(ctx, out, nodata, mask, fname):
    """The alpha band and the file of an ortho image."""
    g = out.get_point_calculator().get_geot()
    od = np.asarray(out.get_image_data())
    if mask:
        a = od[:, :, -1].astype(float)
        ctx.check("alpha", np.array_equal(a == 0, od[:, :, 0] == nodata) and set(np.unique(a)) <= {0.0, 255.0},
                  "the alpha band is not 0 exactly where the first band has no data")
    if fname:
        d = gdal.Open(fname)
        fd = np.stack([d.GetRasterBand(b + 1).ReadAsArray() for b in range(d.RasterCount)], axis=2)
        ctx.equal("file", fd, od, "the written ortho image differs from the returned one")
        ctx.close("file", d.GetGeoTransform(), g, "the written ortho image has another geotransform", rtol=1e-12, atol=1e-12)
        ctx.check("file", d.GetRasterBand(1).GetNoDataValue() == nodata, "the written ortho image has another no-data value")


def judge(ctx, out, s, data, bands, terrain, order, nodata, monitors=("pixel", "unseen"), extra=0, edge=0.02, slack=0.5):
    """Recompute an ortho image from its own geotransform and projection."""
    r = ctx.rng
    g, w = out.get_point_calculator().get_geot(), out.get_point_calculator().get_projection()
    od = np.asarray(out.get_image_data())
    ny, nx = od.shape[:2]
    ctx.check(monitors[0], od.shape[2] == len(bands) + extra and out.get_metadata().get_npix_x() == nx and
              out.get_metadata().get_npix_y() == ny and out.get_metadata().get_n_bands() == od.shape[2],
              "the ortho image has shape %s for %d bands" % (od.shape, len(bands)))
    j, i = np.mgrid[0:ny, 0:nx] + 0.5
    X = g[0] + i * g[1] + j * g[2]
    Y = g[3] + i * g[4] + j * g[5]
    nx_, ny_ = S.transform(w, s.proj, X, Y)
    if terrain is None:
        z = np.zeros(X.shape)
        steady = np.ones(X.shape, bool)
        unknown = ~steady
    else:
        z = np.asarray(terrain.elev(X, Y, w), float)
        a, b = terrain.bounds(X, Y, w, eps=1e-4)
        steady = (b - a) <= 1e-3 * max(1e-6, terrain.hi - terrain.lo)
        # ground of unknown elevation is not seen
        unknown = terrain.unknown(X, Y, w)
        z = np.where(np.isnan(z), terrain.lo, z)
    seen = unseen = 0
    for k, band in enumerate(bands):
        if s.kind == "igm":
            px, py = s.calc.lon_lat_alt_to_pixel_x_y(nx_, ny_, z)
        else:
            px, py = s.ref(nx_, ny_, z, band if s.nbands > 1 else 0)
        px, py = np.asarray(px, float), np.asarray(py, float)
        # a millimetre, or the rounding of coordinates, in pixels
        pos = 1e-6 + pixel_slack(s, nx_, ny_, z, band)
        src = data[:, :, band].astype(float)
        # splines may or may not know that the image goes on beyond its border
        cand = np.stack([map_coordinates(src, [(py + a).ravel(), (px + b).ravel()], order=order, mode=m).reshape(ny, nx)
                         for m in (("nearest",) if order < 2 else ("nearest", "constant"))
                         for a in (-pos, 0, pos) for b in (-pos, 0, pos)])
        lo, hi = cand.min(0), cand.max(0)
        scale = float(np.abs(src).max())
        tol = (slack + 1e-3 if od.dtype.kind in "iu" else 1e-6 * scale) + 2e-4 * scale * (order > 0) + 1e-9
        if order > 1 or s.kind == "igm":
            tol += 1e-3 * scale
        inside = (px > edge) & (px < s.nx - 1 - edge) & (py > edge) & (py < s.ny - 1 - edge) & steady
        outside = ((px < -0.5 - edge) | (px > s.nx - 0.5 + edge) | (py < -0.5 - edge) | (py > s.ny - 0.5 + edge)) & steady
        if s.kind not in ("geotiff", "igm"):
            outside |= unknown
        got = od[:, :, k].astype(float)
        ok = (got >= lo - tol) & (got <= hi + tol)
        bad = inside & ~ok
        ctx.count(monitors[0], int(inside.sum()))
        if bad.any():
            q = np.argwhere(bad)[0]
            ctx.fail(monitors[0], "band %d, output pixel (%d, %d): %r, the sensor sees %r to %r there (source pixel %.3f, %.3f); "
                     "%d of %d wrong" % (band, q[1], q[0], float(got[tuple(q)]), float(lo[tuple(q)]), float(hi[tuple(q)]),
                                         px[tuple(q)], py[tuple(q)], int(bad.sum()), int(inside.sum())))
        ctx.count(monitors[1], int(outside.sum()))
        wrong = outside & ~((got == nodata) | (np.isnan(got) & np.isnan(float(nodata))))
        if wrong.any():
            q = np.argwhere(wrong)[0]
            ctx.fail(monitors[1], "band %d, output pixel (%d, %d) holds %r where the sensor does not see (source pixel %.3f, %.3f)"
                     % (band, q[1], q[0], float(got[tuple(q)]), px[tuple(q)], py[tuple(q)]))
        seen += int(inside.sum())
        unseen += int(outside.sum())
    return seen, unseen


def pixel_slack(s, x, y, z, band):
    """Pixels that a millimetre (or 1e-11 degrees) of rounding can move a point."""
    if s.kind == "igm":
        return 1e-3
    d = 1e-9 if s.proj.crs.is_geographic else 1e-4
    b = band if s.nbands > 1 else 0
    u0, v0 = s.ref(x, y, z, b)
    u1, v1 = s.ref(x + d, y, z, b)
    u2, v2 = s.ref(x, y + d, z, b)
    m = np.nanmax(np.abs(np.stack([u1 - u0, v1 - v0, u2 - u0, v2 - v0])))
    return float(min(m, 0.05))


def nodata_for(r, dtype):
    return {"u1": 0, "u2": int(r.choice([0, 65535])), "i2": int(r.choice([0, -32768])), "i4": int(r.choice([0, -99999999])),
            "f4": float(r.choice([0.0, -9999.0])), "f8": float(r.choice([0.0, -1e30]))}[dtype]


def setting(ctx, small=True, holes=False):
    r = ctx.rng
    kind = str(r.choice(KINDS))
    s = S.make(kind, r, small=not ctx.big)
    while (kind == "pinhole" and s.nx < 8) or s.nx * s.ny > 1500000:
        s = S.make(kind, r, small=not ctx.big)
    im, data, source = images.make(ctx, s)
    lo, hi = relief(r, s)
    if kind not in ("geotiff", "igm") and s.alt_lo < 0 < s.alt_hi and r.random() < 0.5:
        terrain, dem = None, None
        lo = hi = 0.0
    elif kind in ("geotiff", "igm") and r.random() < 0.3:
        terrain, dem = None, None
    else:
        if holes and kind != "igm" and r.random() < 0.2:
            terrain = T.make(r, s, lo, hi, ctx, kind=str(r.choice(["plane", "hills", "rough"])), method="nearest", dtype=str(r.choice(["f4", "f8"])),
                             holes=r.uniform(0.02, 0.4))
            ctx.cover("holes in the terrain", kind)
        else:
            terrain = T.make(r, s, lo, hi, ctx)
        dem = terrain.dem
    ctx.cover(kind, "no-terrain" if terrain is None else terrain.kind)
    ctx.cover(source, data.dtype.str)
    return r, s, im, data, terrain, dem, lo, hi


@P.scenario(quick=500, thorough=7000, monitors=("pixel", "unseen", "georeference", "file", "alpha"), big=8)
def world_to_sensor(ctx):
    r, s, im, data, terrain, dem, lo, hi = setting(ctx, holes=True)
    nb = data.shape[2]
    bands = None if r.random() < 0.4 else [int(b) for b in r.integers(0, nb, int(r.integers(1, nb + 2)))]
    use = list(range(nb)) if bands is None else bands
    xs, ys = footprint(s, use[0], lo, hi)
    wname, w = S.world_projs(r, *s.place)[int(r.integers(0, 9))]
    if r.random() < 0.3:
        wname, w = "native", s.proj
    xs, ys = S.transform(s.proj, w, xs, ys) if w is not s.proj else (xs, ys)
    x0, x1, y0, y1 = xs.min(), xs.max(), ys.min(), ys.max()
    how = str(r.choice(["footprint", "larger", "part", "beside"]))
    dx, dy = x1 - x0, y1 - y0
    if how == "larger":
        x0, x1, y0, y1 = x0 - dx * r.uniform(0.1, 1), x1 + dx * r.uniform(0.1, 1), y0 - dy * r.uniform(0.1, 1), y1 + dy * 0.3
    elif how == "part":
        x0, y0 = x0 + dx * r.uniform(0.1, 0.5), y0 + dy * r.uniform(0.1, 0.5)
        x1, y1 = x0 + dx * r.uniform(0.1, 0.5), y0 + dy * r.uniform(0.1, 0.5)
    elif how == "beside":
        x0, x1 = x0 + dx * 0.6, x1 + dx * 0.9
    poly = box(x0, y0, x1, y1) if r.random() < 0.6 else Polygon([(x0, (y0 + y1) / 2), ((x0 + x1) / 2, y0), (x1, y1),
                                                                 ((x0 + x1) / 2, y1)])
    nx, ny = int(r.choice([1, r.integers(2, 40)], p=[0.1, 0.9])), int(r.choice([1, r.integers(2, 40)], p=[0.1, 0.9]))
    if ctx.big:
        nx, ny = ctx.shape(2, 40, 200000)
    order = int(r.choice([0, 1, 1, 2, 3]))
    nodata = nodata_for(r, data.dtype.str[1:])
    kw = {}
    if r.random() < 0.8 or nodata != 0:
        kw["nodata_val"] = nodata
    else:
        nodata = 0
    if order != 0 or r.random() < 0.5:
        kw["spline_order"] = order
    mask = bool(r.random() < 0.25) and data.dtype.kind != "i"
    if mask:
        kw["mask_no_data_region"] = True
    if wname == "epsg4326" and r.random() < 0.5:
        pass
    else:
        kw["world_proj"] = w
    fname = ctx.path("ortho.tif") if r.random() < 0.3 else None
    if fname:
        kw["output_fname"] = fname
    ctx.cover(wname, how)
    ctx.cover("order", order)
    ctx.given(kind=s.kind, data=data, nx=nx, ny=ny, bounds=poly.bounds, world=wname, order=order, bands=bands)
    out = ctx.call(ortho_tools.create_ortho_gtiff_image_world_to_sensor, im, nx, ny, poly, dem=dem, bands=bands, **kw)
    g = out.get_point_calculator().get_geot()
    ctx.check("georeference", out.get_image_data().shape[:2] == (ny, nx), "the ortho image does not have the requested size")
    ctx.close("georeference", [g[0], g[3], g[0] + nx * g[1], g[3] + ny * g[5], g[2], g[4]],
              [poly.bounds[0], poly.bounds[3], poly.bounds[2], poly.bounds[1], 0, 0],
              "the ortho image does not span the requested extent", rtol=1e-12, atol=1e-9 * max(dx, dy))
    ctx.check("georeference", out.get_metadata().get_nodata_val() == nodata, "the no-data value is not recorded")
    ctx.check("georeference", np.asarray(out.get_image_data()).dtype == data.dtype, "the data type of the image changed")
    seen, unseen = judge(ctx, out, s, data, use, terrain, order, nodata, extra=int(mask))
    ctx.cover("seen" if seen else "none-seen", "unseen" if unseen else "none-unseen")
    extras(ctx, out, nodata, mask, fname)


@P.scenario(quick=150, thorough=2000, monitors=("pixel", "unseen", "coverage", "gsd"), big=4)
def full(ctx):
    """The ortho of a whole image, in any output projection, with its own or a given ground sample distance."""
    r, s, im, data, terrain, dem, lo, hi = setting(ctx)
    nb = data.shape[2]
    bands = None if r.random() < 0.5 else [int(b) for b in r.integers(0, nb, int(r.integers(1, nb + 1)))]
    use = list(range(nb)) if bands is None else bands
    xs, ys = footprint(s, use[0], lo, hi)
    mx, my = S.transform(s.proj, S.utm_proj(*s.place), xs, ys)
    size = max(mx.max() - mx.min(), my.max() - my.min())
    kw = {}
    name = "native"
    if r.random() < 0.5:
        name, kw["output_proj"] = [q for q in S.world_projs(r, *s.place)][int(r.integers(0, 9))]
    gsd = None
    if r.random() < 0.7:
        gsd = float(size / r.uniform(4, 40 if not ctx.big else 400))
        kw["gsd_meters"] = gsd
    order = int(r.choice([0, 1, 2, 3]))
    nodata = nodata_for(r, data.dtype.str[1:])
    ctx.given(kind=s.kind, data=data, gsd=gsd, proj=name, order=order, bands=bands)
    ctx.cover(s.kind, name)
    ctx.cover("gsd" if gsd else "own-gsd")
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = ctx.call(ortho_tools.create_full_ortho_gtiff_image, im, dem=dem, bands=bands, nodata_val=nodata,
                       spline_order=order, **kw)
    judge(ctx, out, s, data, use, terrain, order, nodata)
    g, w = out.get_point_calculator().get_geot(), out.get_point_calculator().get_projection()
    ny, nx = out.get_image_data().shape[:2]
    if terrain is None or terrain.kind in ("constant", "flat-grid") or s.kind in ("geotiff", "igm"):
        # every corner of the image is inside the ortho
        z = terrain.lo if terrain is not None else 0.0
        cx, cy = np.array([0, s.nx - 1, s.nx - 1, 0]), np.array([0, 0, s.ny - 1, s.ny - 1])
        for b in use if s.nbands > 1 else [0]:
            gx, gy = s.ground(cx, cy, np.full(4, float(z)), b)
            gx, gy = S.transform(s.proj, w, gx, gy)
            i, j = (gx - g[0]) / g[1], (gy - g[3]) / g[5]
            e = 0.02 * max(nx, ny) / min(s.nx, s.ny) + 0.02
            ctx.check("coverage", np.all(i > -e) and np.all(i < nx + e) and np.all(j > -e) and np.all(j < ny + e),
                      "a corner of the image is outside its full ortho image", i=i, j=j, n=(nx, ny))
        # and the ortho is no wider than the image's ground
        bx = np.concatenate([np.arange(s.nx), np.full(s.ny, s.nx - 1), np.arange(s.nx), np.zeros(s.ny, int)])
        by = np.concatenate([np.zeros(s.nx, int), np.arange(s.ny), np.full(s.nx, s.ny - 1), np.arange(s.ny)])
        b_ = [s.ground(bx, by, np.full(len(bx), float(z)), b) for b in (use if s.nbands > 1 else [0])]
        gx, gy = S.transform(s.proj, w, np.concatenate([np.ravel(q[0]) for q in b_]), np.concatenate([np.ravel(q[1]) for q in b_]))
        for n_, lo_, hi_, q in (("x", g[0], g[0] + nx * g[1], gx), ("y", g[3] + ny * g[5], g[3], gy)):
            room = (q.max() - q.min()) * (0.02 + 0.04 / min(s.nx, s.ny))
            ctx.check("coverage", abs(lo_ - q.min()) <= room and abs(hi_ - q.max()) <= room,
                      "the ortho spans %.9g to %.9g in %s, the ground of the image %.9g to %.9g"
                      % (lo_, hi_, n_, q.min(), q.max()))
    low = high = gsd
    if gsd is None and (terrain is None or terrain.g is None) and s.nx > 3 and s.ny > 3:
        # its own ground sample distance: that of the image
        z = np.full(3, terrain.lo if terrain is not None else 0.0)
        cx, cy = np.array([0, s.nx - 1, 0]), np.array([0, 0, s.ny - 1])
        ex, ey = S.transform(s.proj, S.utm_proj(*s.place), *s.ground(cx, cy, z, use[0] if s.nbands > 1 else 0))
        a, b = [float(np.hypot(ex[k] - ex[0], ey[k] - ey[0])) for k in (1, 2)]
        low, high = (a / s.nx + b / s.ny) / 2, (a / (s.nx - 1) + b / (s.ny - 1)) / 2
        ctx.cover("own-gsd", "judged")
    if low:
        c = np.array([[0.5 * nx, 0.5 * ny], [0.5 * nx + 1, 0.5 * ny], [0.5 * nx, 0.5 * ny + 1]])
        X, Y = g[0] + c[:, 0] * g[1], g[3] + c[:, 1] * g[5]
        mx, my = S.transform(w, S.utm_proj(*s.place), X, Y)
        for k, n in ((1, nx), (2, ny)):
            d = float(np.hypot(mx[k] - mx[0], my[k] - my[0]))
            if n > 3:
                ctx.check("gsd", low * 0.98 <= d <= high * (1 + 1.0 / n) * 1.02, "pixels are %.4g m wide instead of %.4g m (%d of them)"
                          % (d, high, n))


@P.scenario(quick=60, thorough=800, monitors=("pixel", "unseen", "alpha", "file"))
def by_warping(ctx):
    """The warping variant of the same function."""
    r, s, im, data, terrain, dem, lo, hi = setting(ctx)
    nb = data.shape[2]
    bands = None if r.random() < 0.4 else [int(b) for b in r.integers(0, nb, int(r.integers(1, nb + 1)))]
    use = list(range(nb)) if bands is None else bands
    xs, ys = footprint(s, use[0], lo, hi)
    wname, w = S.world_projs(r, *s.place)[int(r.integers(0, 9))]
    xs, ys = S.transform(s.proj, w, xs, ys)
    dx, dy = xs.max() - xs.min(), ys.max() - ys.min()
    poly = box(xs.min() - 0.2 * dx, ys.min() - 0.2 * dy, xs.max() + 0.2 * dx, ys.max() + 0.2 * dy)
    nx, ny = int(r.integers(2, 30)), int(r.integers(2, 30))
    order, method = [(0, "nearest"), (1, "bilinear")][int(r.integers(0, 2))]
    nodata = nodata_for(r, data.dtype.str[1:])
    kw = {}
    mask = bool(r.random() < 0.3) and data.dtype.kind != "i"
    if mask:
        kw["mask_no_data_region"] = True
    fname = ctx.path("ortho.tif") if r.random() < 0.4 else None
    if fname:
        kw["output_fname"] = fname
    ctx.given(kind=s.kind, data=data, nx=nx, ny=ny, world=wname, order=order, **kw)
    ctx.cover(s.kind, method, "mask" if mask else "plain", "file" if fname else "no file")
    out = ctx.call(ortho_tools.create_ortho_gtiff_image_world_to_sensor_backup, im, nx, ny, poly, world_proj=w, dem=dem,
                   bands=bands, nodata_val=nodata, interpolation=method, **kw)
    judge(ctx, out, s, data, use, terrain, order, nodata, slack=1.0, extra=int(mask))
    ctx.check("unseen", out.get_metadata().get_nodata_val() == nodata, "the no-data value is not recorded")
    extras(ctx, out, nodata, mask, fname)


@P.scenario(quick=40, thorough=600, monitors=("pixel", "unseen"))
def file_for_each_band(ctx):
    """Five bands, each with a camera and a file of its own: read band by band, loaded, or loaded and changed."""
    r = ctx.rng
    s = S.make("multiband", r, small=True, n=5)
    data = images.pixels(r, s.ny, s.nx, 5, "u2")
    names = {}
    for b in r.permutation(5):
        names["band%d" % (b + 1)] = ctx.path("IMG_0001_%d.tif" % (b + 1))
        tiff.write(names["band%d" % (b + 1)], data[:, :, b])
    im = S.five_band_image(ctx, names, s.info["subs"])
    im.get_metadata().set_npix_x(s.nx), im.get_metadata().set_npix_y(s.ny)
    how = str(r.choice(["files", "loaded", "changed"]))
    if how != "files":
        im.set_image_data(im.read_all_image_data_from_disk())
    if how == "changed":
        k = int(r.integers(0, 5))
        data = data.copy()
        data[:, :, k] = images.pixels(r, s.ny, s.nx, 1, "u2")[:, :, 0]
        im.set_image_band(data[:, :, k].copy(), k)
    lo, hi = relief(r, s)
    terrain = T.make(r, s, lo, hi, ctx)
    xs, ys = footprint(s, int(r.integers(0, 5)), lo, hi)
    bands = None if r.random() < 0.6 else [int(b) for b in r.integers(0, 5, int(r.integers(1, 6)))]
    use = list(range(5)) if bands is None else bands
    nx, ny = int(r.integers(2, 30)), int(r.integers(2, 30))
    warp = bool(r.random() < 0.3)
    ctx.cover(how, "warp" if warp else "sample")
    ctx.given(how=how, data=data, nx=nx, ny=ny, bands=bands)
    f, kw, slack = ortho_tools.create_ortho_gtiff_image_world_to_sensor, {}, 0.5
    if warp:
        f, kw, slack = ortho_tools.create_ortho_gtiff_image_world_to_sensor_backup, {"interpolation": "nearest"}, 1.0
    out = ctx.call(f, im, nx, ny, box(xs.min(), ys.min(), xs.max(), ys.max()), world_proj=s.proj, dem=terrain.dem, bands=bands, **kw)
    judge(ctx, out, s, data, use, terrain, 0, 0, slack=slack)
