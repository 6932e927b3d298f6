"""C12: masked spectral statistics."""
import numpy as np
from rv.core import Registry
from rv import gen
from resippy.spectral import spectral_image_processing_1d as s1
from resippy.spectral import spectral_image_processing_2d as s2
from resippy.utils import spectral_utils
from resippy.utils.image_utils import image_utils

P = Registry("C12", "Random cubes (ny,nx,bands) of eight dtypes/layouts with random masks of six shapes and four mask "
                    "dtypes; masked pixels are optionally overwritten with garbage (NaN, inf, huge); the monitor "
                    "recomputes mean / demean / covariance with float64 numpy on the unmasked rows only.", boost=40)


def setup(ctx):
    r = ctx.rng
    nb = int(r.choice([1, 2, 3, 5, 8] if not ctx.big else [1, 4, 12, 50, 120, 224]))
    ny, nx = ctx.shape(1, 12, 3e6 / nb, 3 * nb)
    while ny * nx < nb + 4:
        ny, nx = ny + 1, nx + 2
    c, kind = gen.cube(r, ny, nx, nb)
    masked = r.random() < 0.75
    m, mk = gen.mask_for(r, ny, nx, min(ny * nx, max(2, nb + 1))) if masked else (None, "no_mask")
    garbage = "none"
    if masked and c.dtype.kind == "f" and np.any(m):
        garbage = str(r.choice(["none", "nan", "inf", "huge"]))
        if garbage != "none":
            c = c.copy(order="A")
            c[m.astype(bool)] = {"nan": np.nan, "inf": np.inf, "huge": 1e30}[garbage]
    ctx.given(cube=c, mask=m)
    ctx.cover("dtype", kind)
    ctx.cover("mask", mk)
    ctx.cover("garbage", garbage)
    ctx.cover("bands", nb)
    return c, m, garbage


def ref(c, m):
    flat = np.ascontiguousarray(c).reshape(-1, c.shape[2]).astype(float)
    keep = np.ones(len(flat), bool) if m is None else (np.asarray(m).ravel() == 0)
    x = flat[keep]
    mean = x.sum(axis=0) / len(x)
    d = x - mean
    cov = d.T @ d / (len(x) - 1)
    return flat, keep, mean, cov


def tol(c, m, mean):
    flat, keep, _, _ = ref(c, m)
    s = np.max(np.abs(flat[keep])) + 1e-12
    return s * (2e-5 if c.dtype == np.float32 else 1e-10), s * s * (2e-4 if c.dtype == np.float32 else 1e-10)


@P.scenario(quick=120, thorough=2500, monitors=("mean", "demean", "covariance", "agree-1d-2d"), big=24)
def statistics(ctx):
    c, m, garbage = setup(ctx)
    flat, keep, mean, cov = ref(c, m)
    t1, t2 = tol(c, m, mean)
    mflat = None if m is None else m.ravel()
    c1 = np.ascontiguousarray(c).reshape(-1, c.shape[2])
    nb = c.shape[2]
    for dim, mod, img, mk in (("2d", s2, c, m), ("1d", s1, c1, mflat)):
        got = ctx.call(mod.compute_image_cube_spectral_mean, img, mk)
        ctx.check("mean", not np.any(np.ma.getmaskarray(got)), dim + " mean is masked")
        ctx.close("mean", np.asarray(got), mean, dim + " mean is not the mean of the unmasked pixels", atol=t1, rtol=0)
        got = ctx.call(mod.compute_image_cube_spectral_covariance, img, mk)
        ctx.check("covariance", not np.any(np.ma.getmaskarray(got)), dim + " covariance is masked")
        ctx.close("covariance", np.asarray(got), cov, dim + " covariance is not that of the unmasked pixels",
                  atol=t2, rtol=0)
        got = ctx.call(mod.demean_image_data, img, mk)
        ctx.equal("demean", np.shape(got), np.shape(img), dim + " demeaned image has another shape")
        g = np.asarray(np.ma.getdata(got)).reshape(-1, nb)
        ctx.close("demean", g[keep], flat[keep] - mean, dim + " demeaned pixel values", atol=t1 * 4, rtol=0)
        if garbage in ("none", "huge"):
            ctx.close("demean", g[~keep], flat[~keep] - mean, dim + " demeaned values of excluded pixels",
                      atol=t1 * 4, rtol=1e-6)
    a, b = s2.compute_image_cube_spectral_mean(c, m), s1.compute_image_cube_spectral_mean(c1, mflat)
    ctx.close("agree-1d-2d", np.asarray(a), np.asarray(b), "1-D and 2-D mean differ", atol=t1, rtol=0)
    # excluded pixels have no influence
    if m is not None and c.dtype.kind == "f":
        c2 = c.copy()
        c2[m.astype(bool)] = ctx.rng.normal(size=(int(m.astype(bool).sum()), nb)) * 100
        ctx.close("mean", np.asarray(ctx.call(s2.compute_image_cube_spectral_mean, c2, m)), mean,
                  "excluded pixels influence the mean", atol=t1, rtol=0)
        ctx.close("covariance", np.asarray(ctx.call(s2.compute_image_cube_spectral_covariance, c2, m)), cov,
                  "excluded pixels influence the covariance", atol=t2, rtol=0)


@P.scenario(quick=60, thorough=600, monitors=("permutation",))
def order_independent(ctx):
    """Statistics do not depend on where the pixels are."""
    c, m, garbage = setup(ctx)
    flat, keep, mean, cov = ref(c, m)
    t1, t2 = tol(c, m, mean)
    p = ctx.rng.permutation(len(flat))
    ny, nx, nb = c.shape
    cp = np.ascontiguousarray(c).reshape(-1, nb)[p].reshape(nx, ny, nb)
    mp = None if m is None else m.ravel()[p].reshape(nx, ny)
    ctx.close("permutation", np.asarray(ctx.call(s2.compute_image_cube_spectral_mean, cp, mp)), mean,
              "mean changes when pixels (and mask) are permuted", atol=t1, rtol=0)
    ctx.close("permutation", np.asarray(ctx.call(s2.compute_image_cube_spectral_covariance, cp, mp)), cov,
              "covariance changes when pixels (and mask) are permuted", atol=t2, rtol=0)


@P.scenario(quick=60, thorough=600, monitors=("flatten",), big=8)
def flatten_roundtrip(ctx):
    """Flattening and unflattening cubes and bands keeps every sample at its pixel."""
    r = ctx.rng
    nb = int(r.integers(1, 14 if not ctx.big else 200))
    ny, nx = ctx.shape(1, 14, 3e6 / nb)
    c, kind = gen.cube(r, ny, nx, nb)
    ctx.given(cube=c)
    ctx.cover(kind)
    f = ctx.call(spectral_utils.flatten_image_cube, c)
    ctx.equal("flatten", f.shape, (ny * nx, nb), "flattened shape")
    for _ in range(5):
        y, x = int(r.integers(0, ny)), int(r.integers(0, nx))
        ctx.equal("flatten", np.asarray(f[y * nx + x]), np.asarray(c[y, x]), "flattened sample is another pixel")
    ctx.equal("flatten", ctx.call(spectral_utils.unflatten_image_cube, f, nx, ny), c, "cube round trip")
    ctx.equal("flatten", tuple(ctx.call(spectral_utils.get_2d_cube_nx_ny_nbands, c)), (nx, ny, nb), "nx ny nbands")
    b = c[:, :, int(r.integers(0, nb))]
    fb = ctx.call(image_utils.flatten_image_band, b)
    ctx.equal("flatten", np.asarray(fb), np.ascontiguousarray(b).ravel(), "flattened band")
    ctx.equal("flatten", ctx.call(image_utils.unflatten_image_band, fb, nx, ny), b, "band round trip")
    ctx.check("flatten", spectral_utils.is_2d_cube(c) and not spectral_utils.is_1d_cube(c), "2-D cube classification")
    ctx.check("flatten", spectral_utils.is_1d_cube(f) and not spectral_utils.is_2d_cube(f), "1-D cube classification")
