"""C17: image value and geometry utilities."""
import numpy as np
from scipy import ndimage
from osgeo import gdal, osr
from rv.core import Registry
from resippy.utils.image_utils import image_utils as iu
from resippy.utils.image_utils import image_mask_utils as mu
from resippy.utils.image_utils.image_registration import MMI

P = Registry("C17", "Random images (integer, float, signed) and palettes, clip limits, bin counts up to several hundred, "
                    "warp coordinates inside and outside the image for every interpolation; the monitor recomputes "
                    "each output pixel independently.", boost=50)


def gray(ctx, lo=3, hi=18, dtype=None, most=1000000, top=3):
    r = ctx.rng
    ny, nx = ctx.shape(lo, hi, most)
    dtype = dtype or str(r.choice(["float64", "float32", "uint8", "int16", "uint16", "int32"]))
    if dtype.startswith("float"):
        im = (r.normal(size=(ny, nx)) * 10.0 ** r.uniform(-2, top)).astype(dtype)
    else:
        info = np.iinfo(dtype)
        hi_, lo_ = min(info.max, 60000), max(info.min, -30000)
        if r.random() < 0.5:
            lo_, hi_ = max(lo_, -50), min(hi_, 200)
        im = r.integers(lo_, hi_, (ny, nx), endpoint=True).astype(dtype)
    return im, dtype


@P.scenario(quick=150, thorough=2500, monitors=("normalize",), big=8)
def normalize(ctx):
    r = ctx.rng
    im, dt = gray(ctx, top=10)
    if dt == "float64" and r.random() < 0.3:
        im = im + float(r.uniform(-1000, 1000)) * np.ptp(im)
    if im.min() == im.max():
        im[0, 0] += 1
    a, b = float(r.uniform(-100, 100)), float(r.uniform(-100, 300))
    if r.random() < 0.5:
        a, b = 0, 255
    od = None if r.random() < 0.6 or not (a == 0) else np.uint8
    ctx.given(image=im, new_min=a, new_max=b)
    ctx.cover(dt, "typed" if od else "float")
    got = ctx.call(iu.normalize_grayscale_image, im, a, b, output_dtype=od)
    x = im.astype(float)
    want = a + (x - x.min()) / (x.max() - x.min()) * (b - a)
    if od is None:
        ctx.close("normalize", got, want, "normalization is not the linear map of [min,max] on the new range",
                  atol=1e-4 * abs(b - a) if dt == "float32" else 1e-9 * (abs(a) + abs(b)), rtol=0)
    else:
        ctx.equal("normalize", got.dtype, np.dtype(od), "output type")
        ctx.check("normalize", np.all(np.abs(got.astype(float) - want) <= 1.0001), "normalized values (integer output)")
    ctx.equal("normalize", got.shape, im.shape, "shape")


def ref_colormap(im, pal, continuous, n_bins, lo, hi):
    pal = np.asarray(pal, float)
    if n_bins is not None:
        t = np.linspace(0, 1, n_bins) * (len(pal) - 1)
        k = np.minimum(t.astype(int), len(pal) - 2)
        f = (t - k)[:, None]
        pal = pal[k] * (1 - f) + pal[k + 1] * f
    n = len(pal)
    x = im.astype(float)
    if continuous:
        t = np.clip((x - lo) / (hi - lo), 0, 1) * (n - 1)
        k = np.minimum(t.astype(int), n - 2)
        f = (t - k)[..., None]
        out = pal[k] * (1 - f) + pal[k + 1] * f
        safe = np.ones(x.shape, bool)
    else:
        t = (x - lo) / (hi - lo) * n
        k = np.clip(np.floor(t).astype(int), 0, n - 1)
        out = pal[k]
        safe = (np.abs(t - np.round(t)) > 1e-6) | (t < -1e-6) | (t > n + 1e-6)
    return out * 255.0, safe


@P.scenario(quick=150, thorough=2500, monitors=("colormap",), big=8)
def colormap(ctx):
    r = ctx.rng
    im, dt = gray(ctx, dtype=str(r.choice(["float64", "float64", "uint8", "int16"])))
    im = im.copy()
    if im.min() == im.max():
        im[0, 0] += 1
    npal = int(r.integers(2, 9))
    pal = r.random((npal, 3))
    continuous = bool(r.random() < 0.5)
    n_bins = None if r.random() < 0.4 else int(r.choice([2, 3, 7, 20, 100, 127, 128, 129, 200, 256, 300]))
    if n_bins is not None and r.random() < 0.5:
        im = r.uniform(0, 1, im.shape) * 5
    clip = bool(r.random() < 0.5)
    lo = hi = None
    x = im.astype(float)
    if clip:
        lo, hi = sorted(np.percentile(x, [20, 80]) + r.normal(size=2) * 0.01 * (np.ptp(x) + 1e-9))
        if hi - lo < 1e-6:
            lo, hi = float(x.min()), float(x.max())
        if x.min() < 0 < x.max() and r.random() < 0.4:
            # a limit of exactly zero, either end
            lo, hi = (0, float(x.max())) if r.random() < 0.5 else (float(x.min()), 0)
    nodata = None
    good = np.ones(im.shape, bool)
    if not clip and r.random() < 0.4:
        nodata = -9999 if dt != "uint8" else 0
        bad = r.random(im.shape) < 0.2
        im = im.copy()
        im[bad] = nodata
        good = im != nodata
        if good.sum() < 2 or im[good].min() == im[good].max():
            nodata, good = None, np.ones(im.shape, bool)
            if im.min() == im.max():
                im[0, 0] += 1
    ctx.given(image=im, palette=pal, continuous=continuous, n_bins=n_bins, lo=lo, hi=hi, nodata=nodata)
    ctx.cover("continuous" if continuous else "discrete", "bins%s" % n_bins, "clip" if clip else "auto",
              "nodata" if nodata is not None else "all")
    od = np.float64 if r.random() < 0.6 else np.uint8
    kw = {} if od is np.uint8 else {"output_dtype": od}
    if lo is not None:
        kw.update(min_clip=lo, max_clip=hi)
    got = ctx.call(iu.apply_colormap_to_grayscale_image, im, pal, continuous=continuous, n_bins=n_bins,
                   nodata=nodata, **kw)
    l_ = float(im[good].min()) if lo is None else lo
    h_ = float(im[good].max()) if hi is None else hi
    want, safe = ref_colormap(im, pal, continuous, n_bins, l_, h_)
    ctx.equal("colormap", got.shape, im.shape + (3,), "colormapped image shape")
    ctx.equal("colormap", got.dtype, np.dtype(od), "output type")
    ok = safe & good
    ctx.close("colormap", got[ok].astype(float), want[ok], "colour of a pixel is not the palette colour of its value",
              atol=1e-6 if od is np.float64 else 1.001, rtol=0)


@P.scenario(quick=10, thorough=40, monitors=("colormap",))
def colormap_default_palette(ctx):
    import seaborn
    im, dt = gray(ctx, dtype="float64")
    ctx.given(image=im)
    got = ctx.call(iu.apply_colormap_to_grayscale_image, im)
    want, _ = ref_colormap(im, seaborn.color_palette("GnBu_r"), True, None, im.min(), im.max())
    ctx.close("colormap", got.astype(float), want, "default palette", atol=1.001, rtol=0)


@P.scenario(quick=120, thorough=1500, monitors=("warp",), big=10)
def warp(ctx):
    r = ctx.rng
    im, dt = gray(ctx, 6, 20, dtype=str(r.choice(["float64", "uint8", "int16", "uint16"])))
    ny, nx = im.shape
    oy, ox = ctx.shape(1, 15, 500000)
    interp = str(r.choice(["nearest", "bilinear", "bicubic", "biquadratic", "biquartic", "biquintic"]))
    nodata = int(r.choice([0, 7, 100, 250] if dt.startswith("u") else [0, 7, 100, -9999, 250]))
    xs = r.uniform(0, nx - 1, (oy, ox))
    ys = r.uniform(0, ny - 1, (oy, ox))
    outside = r.random((oy, ox)) < 0.2
    far = r.choice([-1, 1], (oy, ox))
    beyond = r.choice([0.55, 1.0, 7.0, 300.0], (oy, ox)) + r.uniform(0, 1, (oy, ox))
    axis = r.integers(0, 3, (oy, ox))
    nan = outside & (r.random((oy, ox)) < 0.1)
    if interp == "nearest" and r.random() < 0.5:
        # the outer halves of the border pixels
        xs, ys = r.uniform(-0.45, nx - 0.55, (oy, ox)), r.uniform(-0.45, ny - 0.55, (oy, ox))
        edge = r.random((oy, ox)) < 0.5
        xs = np.where(edge, np.where(far < 0, r.uniform(-0.45, 0, (oy, ox)), nx - 1 + r.uniform(0, 0.45, (oy, ox))), xs)
    xs = np.where(outside & (axis != 1), np.where(far < 0, -beyond, nx - 1 + beyond), xs)
    ys = np.where(outside & (axis != 0), np.where(far < 0, -beyond, ny - 1 + beyond), ys)
    if interp in ("nearest",):
        xs = np.where(np.abs(xs - np.floor(xs) - 0.5) < 0.01, xs + 0.03, xs)
        ys = np.where(np.abs(ys - np.floor(ys) - 0.5) < 0.01, ys + 0.03, ys)
    integral = r.random() < 0.4
    if integral:
        xs, ys = np.where(outside, xs, np.round(xs)), np.where(outside, ys, np.round(ys))
    xs = np.where(nan & (axis != 1), np.nan, xs)
    ys = np.where(nan & (axis != 0), np.nan, ys)
    ctx.given(image=im, x=xs, y=ys, nodata=nodata)
    ctx.cover(interp, dt, "integral" if integral else "fractional")
    got = np.asarray(ctx.call(iu.grid_warp_image_band, im, xs, ys, nodata_val=nodata, interpolation=interp))
    ctx.equal("warp", got.shape, (oy, ox), "warped image shape")
    f = im.astype(float)
    s = 1 + np.max(np.abs(f))
    ctx.close("warp", got[outside].astype(float), np.full(outside.sum(), float(nodata)), "outside pixels are not nodata",
              atol=1e-6 * max(1, abs(nodata)), rtol=0)
    ins = ~outside
    gx, gy = xs, ys
    xs, ys = np.nan_to_num(xs), np.nan_to_num(ys)
    if interp == "nearest":
        want = f[np.clip(np.floor(ys + 0.5), 0, ny - 1).astype(int), np.clip(np.floor(xs + 0.5), 0, nx - 1).astype(int)]
        ctx.close("warp", got[ins].astype(float), want[ins], "nearest neighbour", atol=1e-6 * s, rtol=0)
    elif interp == "bilinear":
        y0, x0 = np.clip(np.floor(ys), 0, ny - 2).astype(int), np.clip(np.floor(xs), 0, nx - 2).astype(int)
        fy, fx = ys - y0, xs - x0
        want = f[y0, x0] * (1 - fy) * (1 - fx) + f[y0, x0 + 1] * (1 - fy) * fx + f[y0 + 1, x0] * fy * (1 - fx) + \
            f[y0 + 1, x0 + 1] * fy * fx
        ctx.close("warp", got[ins].astype(float), want[ins], "bilinear interpolation", atol=1e-5 * s, rtol=0)
    else:
        ctx.check("warp", np.all(got[ins] >= f.min() - 1e-6 * s) and np.all(got[ins] <= f.max() + 1e-6 * s),
                  "interpolated values outside the range of the image")
        # the spline of that degree through the pixels
        want = ndimage.map_coordinates(f, [ys, xs], order={"biquadratic": 2, "bicubic": 3, "biquartic": 4, "biquintic": 5}[interp],
                                       mode="nearest")
        want = np.clip(want, f.min(), f.max())
        ctx.close("warp", got[ins].astype(float), want[ins], interp + " interpolation", atol=1e-4 * s, rtol=0)
        if integral:
            ctx.close("warp", got[ins].astype(float), f[ys[ins].astype(int), xs[ins].astype(int)],
                      "interpolation at a pixel centre is not the pixel", atol=1e-3 * s, rtol=0)
        flat = np.full((ny, nx), 3.25)
        g = np.asarray(ctx.call(iu.grid_warp_image_band, flat, gx, gy, nodata_val=nodata, interpolation=interp))
        ctx.close("warp", g, np.where(outside, float(nodata), 3.25), "warped uniform image", atol=1e-6, rtol=0)
    yy, xx = np.mgrid[0:ny, 0:nx].astype(float)
    if interp in ("nearest", "bilinear"):
        ctx.close("warp", np.asarray(ctx.call(iu.grid_warp_image_band, im, xx, yy, nodata_val=nodata,
                                              interpolation=interp)).astype(float), f, "identity warp changes the image",
                  atol=1e-6 * s, rtol=0)
    if ctx.index % 10 == 0:
        ctx.must_raise("warp", iu.grid_warp_image_band, "an unknown interpolation is accepted", im, xx, yy,
                       interpolation="sinc")


@P.scenario(quick=60, thorough=600, monitors=("grids",), big=4)
def grids(ctx):
    r = ctx.rng
    nx, ny, nb = (int(v) for v in r.integers(1, 20, 3))
    if ctx.big:
        ny, nx = ctx.shape(1, 20, 100000)
    sf = [1, 2, 4, 0.5, 0.25, 3, 10, 0.1, 7, 0.3][int(r.integers(0, 5 if ctx.big else 10))]
    ctx.given(nx=nx, ny=ny, nb=nb, scale=sf)
    ctx.cover("scale", sf)
    xx, yy = ctx.call(iu.create_pixel_grid, nx, ny, scale_factor=sf)
    wx = [k / sf for k in range(0, int(np.ceil(round(nx * sf, 9))))]
    wy = [k / sf for k in range(0, int(np.ceil(round(ny * sf, 9))))]
    ctx.close("grids", xx, np.tile(wx, (len(wy), 1)), "x pixel grid", atol=1e-9, rtol=0)
    ctx.close("grids", yy, np.tile(np.array(wy)[:, None], (1, len(wx))), "y pixel grid", atol=1e-9, rtol=0)
    if sf == 1:
        a, b = ctx.call(iu.create_pixel_grid, nx, ny)
        ctx.equal("grids", a, xx, "default scale")
    vals = [int(v) for v in r.integers(0, 255, nb)]
    dt = [np.uint8, np.float32, np.int16][int(r.integers(0, 3))]
    u = ctx.call(iu.create_uniform_image_data, nx, ny, nb, values=vals, dtype=dt)
    ctx.equal("grids", u, np.broadcast_to(np.array(vals, dtype=dt), (ny, nx, nb)).copy(), "uniform image")
    ctx.equal("grids", u.dtype, np.dtype(dt), "uniform image type")
    u = ctx.call(iu.create_uniform_image_data, nx, ny, nb, values=vals[0])
    ctx.equal("grids", u, np.full((ny, nx, nb), vals[0], np.uint8), "uniform image, one value")
    v0 = int(r.integers(-300, 300))
    u = ctx.call(iu.create_uniform_image_data, nx, ny, nb, values=v0, dtype=np.int16)
    ctx.equal("grids", u, np.full((ny, nx, nb), v0, np.int16), "uniform image, one value of either sign")
    u = ctx.call(iu.create_uniform_image_data, nx, ny, nb, values=[v - 128 + 0.25 for v in vals], dtype=np.float64)
    ctx.equal("grids", u, np.broadcast_to(np.array(vals) - 128 + 0.25, (ny, nx, nb)).copy(), "uniform image of fractions")
    ctx.equal("grids", tuple(iu.get_image_ny_nx_nbands(u)), (ny, nx, nb), "dimensions")
    ctx.equal("grids", tuple(iu.get_image_ny_nx_nbands(u[:, :, 0])), (ny, nx, 1), "dimensions of a band")
    ctx.check("grids", iu.is_grayscale(u[:, :, 0]) and not iu.is_grayscale(u), "grayscale classification")
    a, b, p = r.uniform(0, 255, (ny, nx, 3)), r.uniform(0, 255, (ny, nx, 3)), float(r.random())
    ctx.close("grids", ctx.call(iu.blend_images, a, b, p), a * p + b * (1 - p), "blend", atol=1e-9)
    ctx.close("grids", ctx.call(iu.blend_images, a, b), (a + b) / 2, "default blend", atol=1e-9)
    a, b = (np.round(v).astype(str(r.choice(["uint8", "int16", "float32", "uint16"]))) for v in (a, b))
    tol = 1e-4 if "float32" in (a.dtype, b.dtype) else 1e-9
    ctx.close("grids", ctx.call(iu.blend_images, a, b, p), a.astype(float) * p + b.astype(float) * (1 - p), "blend of other types", atol=tol)


@P.scenario(quick=12, thorough=120, monitors=("gridding",))
def gridding(ctx):
    """Pixels at irregular ground points gridded to a file: the mean of all pixels, weighted by 1/distance^2."""
    r = ctx.rng
    im, dt = gray(ctx, 2, 9, dtype=str(r.choice(["float64", "uint8", "int16"])))
    ny, nx = im.shape
    size = float(10 ** r.uniform(0, 2))
    jj, ii = np.mgrid[0:ny, 0:nx]
    xs = (ii + r.uniform(-0.3, 0.3, (ny, nx))) * size / nx
    ys = -(jj + r.uniform(-0.3, 0.3, (ny, nx))) * size / ny
    ox, oy = int(r.integers(1, 12)), int(r.integers(1, 12))
    p = ctx.path("grid.tif")
    zone = int(r.integers(1, 61))
    srs = osr.SpatialReference()
    srs.ImportFromEPSG(32600 + zone)
    ctx.given(image=im, x=xs, y=ys, size=(ox, oy))
    ctx.cover(dt)
    ctx.call(iu.gdal_grid_image_band, im, p, xs, ys, ox, oy, srs.ExportToWkt())
    d = gdal.Open(p)
    got, g = d.ReadAsArray().astype(float), d.GetGeoTransform()
    ctx.equal("gridding", got.shape, (oy, ox), "size of the gridded image")
    ctx.check("gridding", d.RasterCount == 1, "%d bands" % d.RasterCount)
    ctx.equal("gridding", d.GetSpatialRef().GetUTMZone(), zone, "projection of the gridded image")
    cx = [g[0], g[0] + ox * g[1]]
    cy = [g[3], g[3] + oy * g[5]]
    ctx.close("gridding", sorted(cx) + sorted(cy), [xs.min(), xs.max(), ys.min(), ys.max()], "extent of the gridded image",
              atol=1e-6 * size, rtol=0)
    X = g[0] + (np.arange(ox) + 0.5) * g[1]
    Y = g[3] + (np.arange(oy) + 0.5) * g[5]
    d2 = (xs.ravel()[None, None] - X[None, :, None]) ** 2 + (ys.ravel()[None, None] - Y[:, None, None]) ** 2
    near = d2.min(axis=2) < (1e-3 * size) ** 2
    with np.errstate(all="ignore"):
        w = 1 / d2
        want = np.sum(w * im.astype(float).ravel(), axis=2) / np.sum(w, axis=2)
    span = float(im.max()) - float(im.min()) + 1e-9
    ctx.close("gridding", got[~near], want[~near], "gridded value", atol=3e-4 * span, rtol=0)


@P.scenario(quick=60, thorough=600, monitors=("resize",))
def resize(ctx):
    r = ctx.rng
    ny, nx = int(r.integers(4, 20)), int(r.integers(4, 20))
    oy, ox = int(r.integers(2, 40)), int(r.integers(2, 40))
    v = int(r.integers(0, 256))
    grayim = r.random() < 0.5
    im = np.full((ny, nx) if grayim else (ny, nx, 3), v, np.uint8)
    ctx.given(ny=ny, nx=nx, oy=oy, ox=ox, v=v)
    got = ctx.call(iu.resize_image, im, oy, ox)
    ctx.equal("resize", got, np.full((oy, ox) if grayim else (oy, ox, 3), v, np.uint8), "resized uniform image")
    same = r.integers(0, 256, im.shape).astype(np.uint8)
    ctx.equal("resize", ctx.call(iu.resize_image, same, ny, nx), same, "resizing to the same size changes the image")
    k = int(r.integers(2, 4))
    ramp = np.tile(np.linspace(0, 240, ny).astype(np.uint8)[:, None], (1, nx))
    up = ctx.call(iu.resize_image, ramp, ny * k, nx).astype(int)
    ctx.check("resize", np.all(up[:, 0] == up[:, -1]) and up[-1, 0] > up[0, 0], "resize mixes up the axes")


@P.scenario(quick=80, thorough=800, monitors=("point-mask",), big=5)
def point_masks(ctx):
    r = ctx.rng
    ny, nx = ctx.shape(3, 20, 200000)
    colors = {"#ff0000": (255, 0, 0), "#00ff00": (0, 255, 0), "#0000ff": (0, 0, 255), "#ffff00": (255, 255, 0),
              "#102030": (16, 32, 48), "#ff0001": (255, 0, 1), "#000001": (0, 0, 1), "#800000": (128, 0, 0), "#ffffff": (255,) * 3,
              "#010101": (1, 1, 1), "#00ffff": (0, 255, 255)}
    keys = [str(k) for k in r.permutation(list(colors))[:int(r.integers(1, 5))]]
    nb = int(r.choice([3, 4]))
    im = np.zeros((ny, nx, nb), np.uint8)
    if nb == 4:
        im[:, :, 3] = 255 if r.random() < 0.5 else r.integers(0, 256, (ny, nx))
    lab = r.integers(-3, len(keys), (ny, nx))
    for i, k in enumerate(keys):
        im[lab == i, :3] = colors[k]
    decoy = r.random((ny, nx)) < 0.05
    # colours that are not asked for: one, or one that is in two channels one of those asked for
    odd = (255, 0, 254)
    if r.random() < 0.7:
        odd = list(colors[str(r.choice(keys))])
        odd[int(r.integers(0, 3))] ^= int(r.choice([1, 2, 64, 255]))
        odd = tuple(odd)
    if odd not in [colors[k] for k in keys]:
        im[decoy, :3] = odd
    else:
        decoy[:] = False
    ctx.given(image=im, keys=keys)
    ctx.cover("bands%d" % nb, "colors%d" % len(keys))
    hx = {k: "class_%d" % i for i, k in enumerate(keys)}
    got = ctx.call(mu.rgb_image_point_mask_to_pixel_locations, im, hx)
    ctx.equal("point-mask", sorted(got), sorted(hx.values()), "classes found")
    for i, k in enumerate(keys):
        wy, wx = np.where((lab == i) & ~decoy)
        gy, gx = got["class_%d" % i]
        ctx.equal("point-mask", sorted(zip([int(v) for v in gy], [int(v) for v in gx])),
                  sorted(zip([int(v) for v in wy], [int(v) for v in wx])), "locations of colour " + k)
    gy, gx = ctx.call(mu.rgb_image_point_mask_to_pixel_locations, im)
    wy, wx = np.where((im[:, :, :3] != 0).any(axis=2))
    ctx.equal("point-mask", sorted(zip(map(int, gy), map(int, gx))), sorted(zip(map(int, wy), map(int, wx))),
              "non-black pixel locations")


@P.scenario(quick=40, thorough=400, monitors=("mutual-information",), big=5)
def mutual_information(ctx):
    r = ctx.rng
    ny, nx = ctx.shape(8, 30, 300000)
    nb = int(r.choice([2, 5, 16, 40]))
    dt = str(r.choice(["f8", "u1"]))
    a = r.normal(size=(ny, nx)) if dt == "f8" else r.integers(0, 256, (ny, nx)).astype(np.uint8)
    k = str(r.choice(["independent", "function", "same", "noisy"]))
    b = {"independent": r.permutation(a.ravel()).reshape(a.shape), "function": a.max() - a, "same": a.copy(),
         "noisy": a + (r.normal(size=a.shape) * 0.1)}[k]
    ctx.given(a=a, b=b, nbins=nb)
    ctx.cover(k, nb, dt)

    def digit(v):
        v = v.astype(float).ravel()
        e = np.linspace(v.min(), v.max(), nb + 1)
        return np.clip(np.searchsorted(e, v, side="right") - 1, 0, nb - 1)
    da, db = digit(a), digit(b)
    n = len(da)
    j = np.zeros((nb, nb))
    np.add.at(j, (da, db), 1)
    pa, pb = j.sum(axis=1), j.sum(axis=0)
    nz = j > 0
    mi = np.sum(j[nz] / n * np.log(j[nz] * n / np.outer(pa, pb)[nz]))
    want = n * (mi - np.log(n))
    got = ctx.call(MMI.image_mmi, a, b, nbins=nb)
    ctx.close("mutual-information", got, want, "not the (unnormalized) mutual information of the joint histogram",
              atol=1e-6 * n, rtol=1e-9)
    ctx.close("mutual-information", ctx.call(MMI.image_mmi, b, a, nbins=nb), got, "not symmetric", atol=1e-6 * n)
    p = r.permutation(n)
    ctx.close("mutual-information", ctx.call(MMI.image_mmi, a.ravel()[p].reshape(nx, ny), b.ravel()[p].reshape(nx, ny),
                                             nbins=nb), got, "depends on where the pixels are", atol=1e-6 * n)
    ctx.check("mutual-information", ctx.call(MMI.image_mmi, a, a, nbins=nb) >= got - 1e-6 * n,
              "an image shares more information with another image than with itself")
