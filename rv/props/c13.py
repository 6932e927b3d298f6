"""C13: anomaly / target detectors."""
import numpy as np
from rv.core import Registry
from rv import gen
from resippy.spectral import spectral_image_processing_1d as s1
from resippy.spectral import spectral_image_processing_2d as s2

P = Registry("C13", "Random well-conditioned cubes of several dtypes (float, integer sensor counts) with planted "
                    "targets, optional background statistics and masks; the monitor evaluates the published RX / ACE / "
                    "SAM formulas pixel by pixel in float64 and checks ranges, invariances and 1-D/2-D agreement.", boost=40)


def setup(ctx, nbs=(1, 2, 3, 5, 7), dtypes=None):
    r = ctx.rng
    nb = int(r.choice(nbs if not ctx.big else [1, 4, 12, 50, 120, 224]))
    ny, nx = ctx.shape(2, 12, 2e6 / nb, 6 * nb)
    while ny * nx < 4 * nb + 6:
        ny, nx = ny + 1, nx + 2
    kind = None if dtypes is None else str(r.choice(dtypes))
    c, kind = gen.cube(r, ny, nx, nb, kind)
    ctx.cover("dtype", kind)
    ctx.cover("bands", nb)
    ctx.given(cube=c)
    return c, kind


def stats(c, m=None):
    x = np.ascontiguousarray(c).reshape(-1, c.shape[2]).astype(float)
    k = np.ones(len(x), bool) if m is None else np.asarray(m).ravel() == 0
    mean = x[k].mean(axis=0)
    d = x[k] - mean
    return x, mean, d.T @ d / (k.sum() - 1)


def whole(ctx, c, v):
    """Sometimes the given statistics are whole numbers of the image's own type."""
    if v is None or c.dtype.kind not in "iu" or ctx.rng.random() < 0.5:
        return v
    i = np.iinfo(c.dtype)
    ctx.cover("given", "whole numbers")
    return np.clip(np.round(v), i.min, i.max).astype(c.dtype)


def fac(kind):
    return 2e-2 if kind == "f4" else 1e-6


@P.scenario(quick=120, thorough=2000, monitors=("rx-definition", "rx-invariant"), big=16)
def rx(ctx):
    c, kind = setup(ctx)
    x, mean, cov = stats(c)
    r = ctx.rng
    ny, nx, nb = c.shape
    mode = str(r.choice(["own", "mean_given", "icov_given", "both_given"]))
    ctx.cover("statistics", mode)
    gm, gi = None, None
    if mode in ("mean_given", "both_given"):
        gm = whole(ctx, c, mean + r.normal(size=nb) * np.sqrt(np.diag(cov)))
        mean_used = gm.astype(float)
    else:
        mean_used = mean
    if mode in ("icov_given", "both_given"):
        gi = np.linalg.inv(gen.random_cov(r, nb) * np.mean(np.diag(cov)))
        icov = gi
    else:
        icov = np.linalg.inv(cov)
    d = x - mean_used
    want = np.einsum("ij,jk,ik->i", d, icov, d)
    got = ctx.call(s2.rx_anomaly_detector, c, gm, gi)
    ctx.close("rx-definition", got, want.reshape(ny, nx), "RX is not the Mahalanobis distance of the pixel",
              atol=fac(kind), rtol=fac(kind))
    got1 = ctx.call(s1.rx_anomaly_detector, np.ascontiguousarray(c).reshape(-1, nb), gm, gi)
    ctx.close("rx-definition", got1, want, "1-D RX", atol=fac(kind), rtol=fac(kind))
    ctx.check("rx-invariant", np.all(np.asarray(got) >= -1e-6 * (1 + np.max(np.abs(want)))), "RX is negative")
    if mode == "own":
        n = ny * nx
        ctx.close("rx-invariant", np.mean(got), nb * (n - 1.0) / n, "mean RX over the scene is not bands*(n-1)/n",
                  atol=fac(kind), rtol=fac(kind))
        if kind != "f4":
            a = r.normal(size=(nb, nb)) + 3 * np.eye(nb)
            b = r.normal(size=nb) * 10
            xf = (x @ a.T + b).reshape(ny, nx, nb)
            if np.linalg.cond(a) < 200:
                ctx.close("rx-invariant", ctx.call(s2.rx_anomaly_detector, xf), got,
                          "RX changes under an invertible affine recombination of the bands", atol=1e-5, rtol=1e-5)


@P.scenario(quick=120, thorough=2000, monitors=("ace-definition", "ace-invariant"), big=16)
def ace(ctx):
    c, kind = setup(ctx)
    r = ctx.rng
    ny, nx, nb = c.shape
    masked = r.random() < 0.5
    m = gen.mask_for(r, ny, nx, 3 * nb + 4)[0] if masked else None
    x, mean, cov = stats(c, m)
    mode = str(r.choice(["own", "mean_given", "icov_given", "both_given"]))
    ctx.cover("statistics", mode, "masked" if masked else "unmasked")
    gm, gi = None, None
    if mode in ("mean_given", "both_given"):
        gm = whole(ctx, c, mean + r.normal(size=nb) * np.sqrt(np.diag(cov)))
    if mode in ("icov_given", "both_given"):
        gi = np.linalg.inv(gen.random_cov(r, nb) * np.mean(np.diag(cov)))
    mu = mean if gm is None else gm.astype(float)
    ic = np.linalg.inv(cov) if gi is None else gi
    t = mu + r.normal(size=nb) * np.sqrt(np.diag(cov)) * r.uniform(0.5, 4)
    planted = (int(r.integers(0, ny)), int(r.integers(0, nx)))
    if c.dtype.kind == "f" and mode == "both_given":
        c = c.copy()
        c[planted] = mu + (t - mu) * r.uniform(0.3, 3)
        x = np.ascontiguousarray(c).reshape(-1, nb).astype(float)
    ctx.given(target=t, mask=m)
    d, s = x - mu, t - mu
    num = (d @ ic @ s) ** 2
    den = (s @ ic @ s) * np.einsum("ij,jk,ik->i", d, ic, d)
    with np.errstate(all="ignore"):
        want = num / den
    sane = den > 1e-9 * np.max(den)
    got = ctx.call(s2.ace, c, t, gm, gi, m)
    ctx.equal("ace-definition", np.shape(got), (ny, nx), "ACE image has another shape")
    ctx.close("ace-definition", np.asarray(got).ravel()[sane], want[sane],
              "ACE is not the squared cosine in whitened space", atol=fac(kind), rtol=fac(kind))
    got1 = ctx.call(s1.ace, np.ascontiguousarray(c).reshape(-1, nb), t, gm, gi, None if m is None else m.ravel())
    ctx.close("ace-definition", np.asarray(got1)[sane], want[sane], "1-D ACE", atol=fac(kind), rtol=fac(kind))
    gd = ctx.call(s2.ace_demeaned, d.reshape(ny, nx, nb), s, ic)
    ctx.close("ace-definition", np.asarray(gd).ravel()[sane], want[sane], "ACE of demeaned data", atol=1e-6, rtol=1e-6)
    gd1 = ctx.call(s1.ace_demeaned, d, s, ic)
    ctx.close("ace-definition", np.asarray(gd1)[sane], want[sane], "1-D ACE of demeaned data", atol=1e-6, rtol=1e-6)
    gv = np.asarray(got).ravel()[sane]
    ctx.check("ace-invariant", np.all(gv >= -1e-9) and np.all(gv <= 1 + fac(kind)), "ACE outside [0,1]",
              lo=gv.min(), hi=gv.max())
    k = float(r.choice([-3.0, 0.25, 7.0]))
    ctx.close("ace-invariant", np.asarray(ctx.call(s2.ace_demeaned, d.reshape(ny, nx, nb), s * k, ic)).ravel()[sane],
              want[sane], "ACE depends on the length of the demeaned target", atol=1e-6, rtol=1e-6)
    if c.dtype.kind == "f" and mode == "both_given":
        ctx.close("ace-invariant", np.asarray(got)[planted], 1.0, "a planted scaled target does not score 1",
                  atol=max(1e-6, fac(kind)), rtol=0)


@P.scenario(quick=120, thorough=2000, monitors=("sam-definition", "sam-invariant"), big=16)
def sam(ctx):
    c, kind = setup(ctx)
    r = ctx.rng
    ny, nx, nb = c.shape
    x = np.ascontiguousarray(c).reshape(-1, nb).astype(float)
    tk = str(r.choice(["random", "pixel"]))
    t = r.normal(size=nb) + 2.0 if tk == "random" else c[int(r.integers(0, ny)), int(r.integers(0, nx))].copy()
    if not np.any(t):
        t = np.ones(nb)
    ctx.given(target=t)
    ctx.cover("target", tk)
    norms = np.sqrt((x * x).sum(axis=1))
    with np.errstate(all="ignore"):
        want = (x @ t.astype(float)) / (norms * np.sqrt(np.sum(t.astype(float) ** 2)))
    ok = norms > 0
    f = 1e-4 if kind == "f4" else 1e-8
    got = ctx.call(s2.sam, c, t)
    ctx.equal("sam-definition", np.shape(got), (ny, nx), "SAM image has another shape")
    ctx.close("sam-definition", np.asarray(got).ravel()[ok], want[ok],
              "SAM is not the cosine of the angle between pixel and target", atol=f, rtol=0)
    got1 = ctx.call(s1.sam, np.ascontiguousarray(c).reshape(-1, nb), t)
    ctx.close("sam-definition", np.asarray(got1)[ok], want[ok], "1-D SAM", atol=f, rtol=0)
    g = np.asarray(got).ravel()[ok]
    ctx.check("sam-invariant", np.all(np.abs(g) <= 1 + f), "SAM cosine outside [-1,1]")
    if c.dtype.kind == "f":
        gain = r.uniform(0.1, 8, size=(ny, nx, 1))
        ctx.close("sam-invariant", np.asarray(ctx.call(s2.sam, c * gain, t * 3.5)).ravel()[ok], want[ok],
                  "SAM depends on per-pixel illumination or target length", atol=f, rtol=0)
