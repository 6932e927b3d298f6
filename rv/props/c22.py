"""C22: windows of pixel values around ground positions."""
import numpy as np
from rv.core import Registry
from rv import gen, images, sensors as S
from rv.props.c07 import footprint, nodata_for
from resippy.photogrammetry import ortho_tools

P = Registry("C22", "All sensor kinds and data types, images in memory and in files, windows of 1 to 15 pixels, locations "
                    "inside, at the border, in the corners and outside of the image, no-data values present or not, also "
                    "NaN; the monitor cuts the window of every location from its own copy of the pixels.", boost=5)
KINDS = ["pinhole", "opencv", "pix4d", "rpc", "geotiff", "igm", "multiband"]


def expected(img, x, y, w, nodata):
    x0, y0 = x - w // 2, y - w // 2
    win = img[max(y0, 0):max(y0 + w, 0), max(x0, 0):max(x0 + w, 0)].astype(float)
    if nodata is not None:
        win = win[~np.isnan(win)] if nodata != nodata else win[win != nodata]
    return float(np.mean(win)) if win.size else np.nan


@P.scenario(quick=700, thorough=10000, monitors=("inside", "outside", "shape"), big=10)
def windows(ctx):
    r = ctx.rng
    kind = str(r.choice(KINDS))
    s = S.make(kind, r, small=not ctx.big)
    if s.nx * s.ny > 3000000:
        s = S.make(kind, r, small=True)
    im, data, source = images.make(ctx, s)
    nb = data.shape[2]
    dt = data.dtype.str[1:]
    nodata = None
    if r.random() < 0.5:
        nodata = float("nan") if dt[0] == "f" and r.random() < 0.4 else nodata_for(r, dt)
        holes = r.uniform(0, 1, data.shape) < r.choice([0.1, 0.5, 1.0])
        data = data.copy()
        data[holes] = nodata
        im.set_image_data(data.copy())
        im.get_metadata().set_nodata_val(nodata)
        source = "replaced"
    stored = im.get_metadata().get_nodata_val()
    ctx.check("shape", nodata is None or stored == nodata or stored != stored, "no-data value %r became %r" % (nodata, stored))
    if nodata is None and stored is not None:
        # an image type with a no-data value of its own
        nodata = stored
    w = int(r.choice([1, 2, 3, 4, 5, 7, 8, 8, 15] + [31, 64, 200] * ctx.big))
    n = ctx.many(int(r.integers(1, 30)), 8000)
    inset = -6.0 if kind != "igm" else 0.0
    z = float(r.uniform(s.alt_lo, s.alt_hi)) if kind not in ("geotiff", "igm") else 0.0
    k = r.random()
    if kind == "igm":
        px, py = r.integers(0, s.nx, n), r.integers(0, s.ny, n)
    elif k < 0.3:
        px, py = r.uniform(0, s.nx - 1, n), r.uniform(0, s.ny - 1, n)
    elif k < 0.6:
        px, py = r.uniform(inset, s.nx - inset, n), r.uniform(inset, s.ny - inset, n)
    else:
        px, py = r.choice([-0.7, -0.3, 0.1, s.nx - 1.2, s.nx - 0.7, s.nx - 0.3, s.nx + 0.4], n), r.choice(
            [-0.7, -0.3, 0.1, s.ny - 1.2, s.ny - 0.7, s.ny - 0.3, s.ny + 0.4], n)
    b = int(r.integers(0, s.nbands))
    lons, lats = [np.asarray(v, float) for v in s.ground(px, py, np.full(n, z), b)]
    alts = np.full(n, z)
    if not (np.all(np.isfinite(lons)) and np.all(np.isfinite(lats))):
        return ctx.cover("the distortion has no inverse there")
    ctx.cover(kind, source, dt)
    ctx.cover("window %d" % w)
    ctx.given(kind=kind, data=data, lons=lons, lats=lats, z=z, window=w, nodata=repr(nodata))
    kw = {} if w == 8 and r.random() < 0.5 else {"window": w}
    got = np.asarray(ctx.call(ortho_tools.get_pixel_values, im, *[gen.layout(r, v) for v in (lons, lats, alts)], **kw))
    if not ctx.check("shape", got.shape == (nb, n), "values of shape %s for %d bands and %d locations" % (got.shape, nb, n)):
        return
    for q in range(nb):
        if kind == "igm":
            u, v = px.astype(float), py.astype(float)
        else:
            u, v = [np.asarray(a, float) for a in s.ref(lons, lats, alts, q if s.nbands > 1 else 0)]
        scale = float(np.nanmax(np.abs(np.where(np.isfinite(data[:, :, q]), data[:, :, q], 0)))) + 1e-9
        for i in range(n):
            if min(abs((a - 0.5) - np.round(a - 0.5)) for a in (u[i], v[i])) < 2e-3:
                ctx.cover("between pixels")
                continue
            x, y = int(np.round(u[i])), int(np.round(v[i]))
            if not (0 <= x < s.nx and 0 <= y < s.ny):
                ctx.check("outside", np.isnan(got[q, i]), "band %d: a location outside the image (pixel %.2f, %.2f of %d x %d) has "
                          "the value %r" % (q, u[i], v[i], s.nx, s.ny, got[q, i]))
                continue
            e = expected(data[:, :, q], x, y, w, nodata)
            ctx.close("inside", got[q, i], e, "band %d, window %d around pixel (%d, %d) of %d x %d" % (q, w, x, y, s.nx, s.ny),
                      atol=(2e-5 if dt == "f4" else 1e-9) * scale)
            if x < w // 2 or y < w // 2 or x + w - w // 2 > s.nx or y + w - w // 2 > s.ny:
                ctx.cover("window cut by the border")
            if np.isnan(e):
                ctx.cover("only no-data")


@P.scenario(quick=150, thorough=2000, monitors=("order", "again"))
def order(ctx):
    """Each location has its own value, whatever else is asked with it."""
    r = ctx.rng
    s = S.make(str(r.choice(KINDS[:5])), r, small=True)
    im, data, source = images.make(ctx, s)
    n = int(r.integers(2, 20))
    z = float(r.uniform(s.alt_lo, s.alt_hi))
    lons, lats = [np.asarray(v, float) for v in s.ground(r.uniform(-2, s.nx + 1, n), r.uniform(-2, s.ny + 1, n), np.full(n, z), 0)]
    alts = np.full(n, z)
    w = int(r.integers(1, 10))
    ctx.given(kind=s.kind, data=data, lons=lons, lats=lats, z=z, window=w)
    a = np.asarray(ctx.call(ortho_tools.get_pixel_values, im, lons, lats, alts, window=w))
    o = r.permutation(n)
    c = np.asarray(ctx.call(ortho_tools.get_pixel_values, im, lons[o], lats[o], alts[o], window=w))
    ctx.check("order", np.array_equal(c, a[:, o], equal_nan=True), "the values do not follow the order of the locations")
    d = np.asarray(ctx.call(ortho_tools.get_pixel_values, im, lons, lats, alts, window=w))
    ctx.check("again", np.array_equal(a, d, equal_nan=True), "asking again gives other values")
