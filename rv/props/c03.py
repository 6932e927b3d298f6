"""C03: conversions are pointwise, shape preserving, order independent, and commute with reprojection."""
import numpy as np
from rv.core import Registry
from rv import sensors as S

P = Registry("C03", "Each sensor of C01 is asked about a random point set as plain numbers, 1-D, 2-D, transposed, strided, "
                    "Fortran-ordered and integer-typed arrays, split and permuted, with scalar or per-point altitudes, and "
                    "in other coordinate systems; every answer is compared point by point with the answer for the point "
                    "alone. A case is a (sensor, points, arrangement) triple.", boost=2)

KINDS = ["pinhole", "opencv", "pix4d", "rpc", "geotiff", "igm", "multiband"]
ARR = ["1d", "2d-row", "2d-col", "2d", "2d-t", "strided", "fortran", "reversed", "f4-alt"]


def arrange(name, v, n=12):
    """(arranged array, function back to the original order)"""
    if name == "1d":
        return v, lambda a: a
    if name == "2d-row":
        return v.reshape(1, n), lambda a: a.ravel()
    if name == "2d-col":
        return v.reshape(n, 1), lambda a: a.ravel()
    if name in ("2d", "f4-alt"):
        return v.reshape(3, 4), lambda a: a.ravel()
    if name == "2d-t":
        return v.reshape(3, 4).T, lambda a: a.T.ravel()
    if name == "fortran":
        return np.asfortranarray(v.reshape(3, 4)), lambda a: np.ascontiguousarray(a).ravel()
    if name == "strided":
        big = np.zeros(3 * n, dtype=v.dtype)
        big[::3] = v
        return big[::3], lambda a: a
    if name == "reversed":
        return v[::-1], lambda a: a[::-1]


def check_set(ctx, mon, got, want, shape, msg, tol):
    ctx.check(mon + "-shape", np.shape(got[0]) == shape and np.shape(got[1]) == shape,
              "%s: answer of shape %s and %s for a question of shape %s" % (msg, np.shape(got[0]), np.shape(got[1]), shape))


@P.scenario(quick=350, thorough=6000, monitors=("ground-to-pixel", "ground-to-pixel-shape"))
def ground_to_pixel(ctx):
    r = ctx.rng
    kind = str(r.choice(KINDS))
    s = S.make(kind, r)
    n = 12
    b = int(r.integers(0, s.nbands))
    x, y = s.pixels(r, n)
    alt = s.alts(r, n)
    gx, gy = [np.asarray(v, float) for v in s.ground(x, y, alt, b)]
    if kind == "igm":
        gx = gx + r.uniform(-0.3, 0.3, n) * s.info["step"]
    use_proj = r.random() < 0.4
    name, wp = S.world_projs(r, *s.place)[int(r.integers(0, 9))] if use_proj else ("native", None)
    qx, qy = (gx, gy) if wp is None else S.transform(s.proj, wp, gx, gy)
    scalar_alt = r.random() < 0.3
    if scalar_alt:
        alt[:] = alt[0]
    ctx.given(kind=kind, x=qx, y=qy, alt=alt, proj=name)
    c = s.calc
    one = [ctx.call(c.lon_lat_alt_to_pixel_x_y, float(qx[i]), float(qy[i]), float(alt[i]), world_proj=wp, band=b)
           for i in range(n)]
    wu, wv = np.array([float(o[0]) for o in one]), np.array([float(o[1]) for o in one])
    ctx.check("ground-to-pixel-shape", all(np.ndim(o[0]) == 0 and np.ndim(o[1]) == 0 for o in one),
              "a single position is not answered with single numbers")
    # the answer in another coordinate system is the native answer of the transformed point
    if wp is not None:
        ou, ov = ctx.call(c.lon_lat_alt_to_pixel_x_y, gx, gy, alt, band=b)
        t = 1e-4 + 1e-6 / max(1e-9, _step(s))
        ctx.close("ground-to-pixel", wu, np.asarray(ou), "another coordinate system changes pixel x", atol=t, rtol=1e-9)
        ctx.close("ground-to-pixel", wv, np.asarray(ov), "another coordinate system changes pixel y", atol=t, rtol=1e-9)
    # permuted, arranged, with unrelated questions in between
    for a in r.choice(ARR, 3, replace=False):
        ctx.cover(kind, a, "scalar-alt" if scalar_alt else "alts", name if wp is None else "proj")
        perm = r.permutation(n)
        ax, back = arrange(a, qx[perm])
        ay, _ = arrange(a, qy[perm])
        az, _ = arrange(a, alt[perm])
        if scalar_alt:
            az = float(alt[0]) if r.random() < 0.7 else int(0) if False else np.float64(alt[0])
        u, v = ctx.call(c.lon_lat_alt_to_pixel_x_y, ax, ay, az, world_proj=wp, band=b)
        check_set(ctx, "ground-to-pixel", (u, v), None, np.shape(ax), "%s %s" % (kind, a), 0)
        t = 1e-7 * max(s.nx, s.ny) + 1e-9
        ctx.close("ground-to-pixel", back(np.asarray(u)), wu[perm], "%s: pixel x of an array (%s) is not that of its points"
                  % (kind, a), atol=t, rtol=1e-9)
        ctx.close("ground-to-pixel", back(np.asarray(v)), wv[perm], "%s: pixel y of an array (%s) is not that of its points"
                  % (kind, a), atol=t, rtol=1e-9)
    if max(np.abs(qx).max(), np.abs(qy).max()) > 1000 and r.random() < 0.6:
        # positions on whole metres, as whole numbers: heights and pixels keep their fractions
        ix, iy = np.round(qx).astype(np.int64), np.round(qy).astype(np.int64)
        az = float(alt[0]) if r.random() < 0.6 else alt
        if r.random() < 0.5:
            ix, iy, az = ix.reshape(3, 4), iy.reshape(3, 4), az if np.ndim(az) == 0 else az.reshape(3, 4)
        ctx.cover(kind, "whole-numbers", "scalar-alt" if np.ndim(az) == 0 else "alts", np.ndim(ix))
        u, v = ctx.call(c.lon_lat_alt_to_pixel_x_y, ix, iy, az, world_proj=wp, band=b)
        fu, fv = ctx.call(c.lon_lat_alt_to_pixel_x_y, ix.astype(float), iy.astype(float), az + np.zeros(ix.shape),
                          world_proj=wp, band=b)
        ctx.check("ground-to-pixel-shape", np.shape(u) == ix.shape and np.shape(v) == ix.shape, "shape for whole numbers")
        t = 1e-7 * max(s.nx, s.ny) + 1e-9
        ctx.close("ground-to-pixel", u, np.asarray(fu), "%s: x of a position in whole numbers differs" % kind, atol=t, rtol=1e-9)
        ctx.close("ground-to-pixel", v, np.asarray(fv), "%s: y of a position in whole numbers differs" % kind, atol=t, rtol=1e-9)
    if s.nbands > 1:
        o = int((b + 1) % s.nbands)
        ctx.call(c.lon_lat_alt_to_pixel_x_y, qx[::-1], qy[::-1], alt[::-1], band=o, world_proj=wp)
        ctx.cover("other-band-between")
    u, v = ctx.call(c.lon_lat_alt_to_pixel_x_y, qx, qy, alt, world_proj=wp, band=b)
    ctx.close("ground-to-pixel", np.asarray(u), wu, "asked again, x differs", atol=1e-7 * max(s.nx, s.ny), rtol=1e-9)


def _step(s):
    if s.kind == "geotiff":
        g = s.info["g"]
        return np.hypot(g[1], g[4]) * (1e5 if s.info["native"] == "lonlat" else 0.3)
    if s.kind == "igm":
        return s.info["step"] * (1e5 if s.info["native"] == "lonlat" else 1)
    if s.kind == "rpc":
        return 0.01
    return s.info["h"] * 1e-5


@P.scenario(quick=300, thorough=5000, monitors=("pixel-to-ground", "pixel-to-ground-shape"))
def pixel_to_ground(ctx):
    r = ctx.rng
    kind = str(r.choice(KINDS))
    s = S.make(kind, r)
    n = 12
    b = int(r.integers(0, s.nbands))
    x, y = s.pixels(r, n)
    alt = s.alts(r, n)
    scalar_alt = r.random() < 0.3
    if scalar_alt:
        alt[:] = alt[0]
    use_proj = r.random() < 0.4
    name, wp = S.world_projs(r, *s.place)[int(r.integers(0, 9))] if use_proj else ("native", None)
    ctx.given(kind=kind, x=x, y=y, alt=alt, proj=name)
    c = s.calc
    kw = {"pixel_error_threshold": 1e-6} if r.random() < 0.3 else {}
    conv = int if s.integer else float
    with np.errstate(all="ignore"):
        one = [ctx.call(c.pixel_x_y_alt_to_lon_lat, conv(x[i]), conv(y[i]), float(alt[i]), world_proj=wp, band=b, **kw)
               for i in range(n)]
        ctx.check("pixel-to-ground-shape", all(np.ndim(o[0]) == 0 and np.ndim(o[1]) == 0 for o in one),
                  "a single pixel is not answered with single numbers")
        wx, wy = np.array([float(o[0]) for o in one]), np.array([float(o[1]) for o in one])
        nx_, ny_ = (wx, wy) if wp is None else S.transform(wp, s.proj, wx, wy)
        gx, gy = s.ground(x, y, alt, b)
        tol = 3e-6 if kw else 0.022
        if s.ref is not None:
            g = s.gsd(np.asarray(gx, float), np.asarray(gy, float), alt, b)
        else:
            g = np.full(n, s.info["step"])
        slack = 1e-9 * (np.abs(gx).max() + np.abs(gy).max()) + (0 if wp is None else 1e-6 / 0.3 *
                                                               (1e-5 if abs(gx).max() < 361 else 1))

        def same(px, py, perm, msg):
            px, py = np.asarray(px), np.asarray(py)
            qx, qy = (px, py) if wp is None else S.transform(wp, s.proj, px, py)
            e = np.hypot(qx - nx_[perm], qy - ny_[perm])
            ctx.count("pixel-to-ground", n)
            if not np.all(e <= tol * g[perm] + slack):
                ctx.fail("pixel-to-ground", "%s: %s (%.3g pixels)" % (kind, msg, np.max(e / g[perm])), got=qx, want=nx_[perm])
        if wp is not None:
            ox, oy = ctx.call(c.pixel_x_y_alt_to_lon_lat, x, y, alt, band=b, **kw)
            ox, oy = S.transform(s.proj, wp, ox, oy)
            same(ox, oy, np.arange(n), "asking in another coordinate system is not transforming the answer")
        for a in r.choice([q for q in ARR if q != "f4-alt"], 3, replace=False):
            ctx.cover(kind, a, "scalar-alt" if scalar_alt else "alts", name if wp is None else "proj")
            perm = r.permutation(n)
            ax, back = arrange(a, x[perm])
            ay, _ = arrange(a, y[perm])
            az, _ = arrange(a, alt[perm])
            if scalar_alt:
                az = float(alt[0])
            u, v = ctx.call(c.pixel_x_y_alt_to_lon_lat, ax, ay, az, world_proj=wp, band=b, **kw)
            check_set(ctx, "pixel-to-ground", (u, v), None, np.shape(ax), "%s %s" % (kind, a), 0)
            same(back(np.asarray(u)), back(np.asarray(v)), perm, "position of an array (%s) is not that of its points" % a)


@P.scenario(quick=120, thorough=1500, monitors=("unknown", "known"))
def unknown_among(ctx):
    """Points without altitude or position, asked with others, have no answer and do not change those of the others."""
    r = ctx.rng
    kind = str(r.choice([k for k in KINDS if k != "igm"]))
    s = S.make(kind, r)
    n = int(r.choice([2, 6, 12, 40]))
    b = int(r.integers(0, s.nbands))
    x, y = s.pixels(r, n)
    alt = s.alts(r, n)
    bad = r.random(n) < r.choice([0.1, 0.5, 0.9])
    bad[int(r.integers(0, n))] = True
    bad[int(r.integers(0, n))] = False
    sh = (n,) if r.random() < 0.5 else (2, n // 2)
    name, wp = S.world_projs(r, *s.place)[int(r.integers(0, 9))] if r.random() < 0.3 else ("native", None)
    ctx.given(kind=kind, x=x, y=y, alt=alt, bad=bad, proj=name)
    ctx.cover(kind, name, len(sh))
    c = s.calc
    gx, gy = [np.array(v, float) for v in s.ground(x, y, alt, b)]
    g = s.gsd(gx, gy, alt, b)
    if kind != "geotiff":
        q = np.where(bad, np.nan, alt)
        with np.errstate(all="ignore"):
            lo, la = [np.asarray(v, float).ravel() for v in ctx.call(c.pixel_x_y_alt_to_lon_lat, x.reshape(sh), y.reshape(sh),
                                                                    q.reshape(sh), band=b)]
        ctx.check("unknown", np.all(np.isnan(lo[bad]) & np.isnan(la[bad])), "%s: a ground position without altitude" % kind)
        e = np.hypot(lo - gx, la - gy)[~bad] / g[~bad]
        ctx.count("known", n)
        if not np.all(e <= 0.03):
            ctx.fail("known", "%s: the ground position of a pixel depends on another one without altitude" % kind,
                     got=lo[~bad], want=gx[~bad])
    qx, qy = (gx, gy) if wp is None else [np.array(v, float) for v in S.transform(s.proj, wp, gx, gy)]
    want = ctx.call(c.lon_lat_alt_to_pixel_x_y, qx.reshape(sh), qy.reshape(sh), alt.reshape(sh), world_proj=wp, band=b)
    which = int(r.integers(0, 3))
    v = [qx.copy(), qy.copy(), alt.copy()]
    v[which][bad] = np.nan
    with np.errstate(all="ignore"):
        got = ctx.call(c.lon_lat_alt_to_pixel_x_y, *[a.reshape(sh) for a in v], world_proj=wp, band=b)
    for a, w in zip(got, want):
        a, w = np.asarray(a, float).ravel(), np.asarray(w, float).ravel()
        if which < 2 and kind != "geotiff":
            ctx.check("unknown", not np.isfinite(a[bad]).any(), "%s: a position without coordinates has a pixel" % kind)
        ctx.close("known", a[~bad], w[~bad], "%s: the pixel of a position depends on others without coordinates" % kind,
                  atol=1e-6 * max(s.nx, s.ny), rtol=1e-9)


@P.scenario(quick=40, thorough=400, monitors=("integer-input",))
def integer_inputs(ctx):
    """Whole-number arrays mean the same as the float arrays of the same values."""
    r = ctx.rng
    kind = str(r.choice(["pinhole", "opencv", "pix4d", "geotiff"]))
    s = S.make(kind, r)
    if s.kind == "geotiff" and s.info["native"] == "lonlat":
        s = S.make("pinhole", r)
    b = 0
    x, y = s.pixels(r, 8)
    x, y = np.floor(x).astype(int), np.floor(y).astype(int)
    alt = np.floor(s.alts(r, 8))
    dt = r.choice(["i4", "i8", "u2"])
    ctx.given(kind=kind, x=x, y=y, alt=alt, dtype=str(dt))
    ctx.cover(kind, dt)
    c = s.calc
    lo1, la1 = ctx.call(c.pixel_x_y_alt_to_lon_lat, x.astype(float), y.astype(float), alt, pixel_error_threshold=1e-6)
    lo2, la2 = ctx.call(c.pixel_x_y_alt_to_lon_lat, x.astype(dt), y.astype(dt), alt.astype("i4"), pixel_error_threshold=1e-6)
    g = s.gsd(np.asarray(lo1, float), np.asarray(la1, float), alt, b)
    ctx.check("integer-input", np.all(np.hypot(lo1 - lo2, la1 - la2) <= 1e-4 * g + 1e-6),
              "ground position of whole-number pixels differs")
    gx, gy = np.floor(lo1), np.floor(la1)
    if dt != "u2":
        u1, v1 = ctx.call(c.lon_lat_alt_to_pixel_x_y, gx, gy, alt)
        u2, v2 = ctx.call(c.lon_lat_alt_to_pixel_x_y, gx.astype(dt), gy.astype(dt), alt.astype(dt))
        ctx.close("integer-input", np.asarray(u2), np.asarray(u1), "pixel x of whole-number positions", atol=1e-5, rtol=1e-9)
        ctx.close("integer-input", np.asarray(v2), np.asarray(v1), "pixel y of whole-number positions", atol=1e-5, rtol=1e-9)


@P.scenario(quick=0, thorough=0, monitors=("many-points",), big=16)
def many_points(ctx):
    """Long lists and large grids of points are answered like their points alone or in small companies."""
    r = ctx.rng
    kind = str(r.choice(KINDS))
    s = S.make(kind, r)
    rows, cols = ctx.shape(1, 2, 200000)
    n = rows * cols
    b = int(r.integers(0, s.nbands))
    x, y = s.pixels(r, n)
    alt = s.alts(r, n)
    if r.random() < 0.3:
        alt[:] = alt[0]
    name, wp = S.world_projs(r, *s.place)[int(r.integers(0, 9))] if r.random() < 0.3 else ("native", None)
    how = str(r.choice(["1d", "2d", "2d-t", "fortran"]))
    ctx.given(kind=kind, x=x, y=y, alt=alt, proj=name)
    ctx.cover(kind, how, name)

    def put(v):
        return {"1d": v, "2d": v.reshape(rows, cols), "2d-t": v.reshape(cols, rows).T,
                "fortran": np.asfortranarray(v.reshape(rows, cols))}[how]

    def back(v):
        v = np.asarray(v)
        return v.T.ravel() if how == "2d-t" else np.ascontiguousarray(v).ravel()
    c = s.calc
    some = np.unique(np.concatenate([[0, 1, n - 2, n - 1], r.integers(0, n, 16)]))
    size = int(r.integers(50, 900))
    first = r.integers(0, n, 3)
    with np.errstate(all="ignore"):
        lo, la = ctx.call(c.pixel_x_y_alt_to_lon_lat, put(x), put(y), put(alt), world_proj=wp, band=b)
        ctx.check("many-points", np.shape(lo) == np.shape(put(x)) == np.shape(la), "%s: answer of shape %s for a question of shape %s"
                  % (kind, np.shape(lo), np.shape(put(x))))
        lo, la = back(lo), back(la)
        gx, gy = s.ground(x, y, alt, b)
        conv = int if s.integer else float
        g = s.gsd(np.asarray(gx, float), np.asarray(gy, float), alt, b) if s.ref is not None else np.full(n, s.info["step"])

        def same(at, px, py, msg):
            p, q = (px, py) if wp is None else S.transform(wp, s.proj, px, py)
            f, h = (lo[at], la[at]) if wp is None else S.transform(wp, s.proj, lo[at], la[at])
            slack = 1e-9 * (np.abs(gx).max() + np.abs(gy).max()) + (0 if wp is None else 3e-6 * (1e-5 if abs(gx).max() < 361 else 1))
            ctx.count("many-points", len(at))
            if not np.all(np.hypot(p - f, q - h) <= 0.022 * g[at] + slack):
                ctx.fail("many-points", "%s: %s" % (kind, msg), got=f, want=p)
        one = [ctx.call(c.pixel_x_y_alt_to_lon_lat, conv(x[i]), conv(y[i]), float(alt[i]), world_proj=wp, band=b) for i in some]
        same(some, np.array([float(o[0]) for o in one]), np.array([float(o[1]) for o in one]),
             "the position of a pixel among many is not that of the pixel alone")
        for f in first:
            at = np.arange(f, min(n, f + size))
            p, q = ctx.call(c.pixel_x_y_alt_to_lon_lat, x[at], y[at], alt[at], world_proj=wp, band=b)
            same(at, np.asarray(p), np.asarray(q), "the position of a pixel among many is not that in a smaller company")
        u, v = ctx.call(c.lon_lat_alt_to_pixel_x_y, put(lo),
                        put(la), put(alt), world_proj=wp, band=b)
        u, v = back(u), back(v)
        t = 1e-7 * max(s.nx, s.ny) + 1e-9
        for i in some:
            o = ctx.call(c.lon_lat_alt_to_pixel_x_y, float(lo[i]), float(la[i]), float(alt[i]), world_proj=wp, band=b)
            ctx.close("many-points", [u[i], v[i]], [float(o[0]), float(o[1])], "%s: the pixel of a point among many is not that of the "
                      "point alone" % kind, atol=t, rtol=1e-9)
        for f in first:
            at = np.arange(f, min(n, f + size))
            o = ctx.call(c.lon_lat_alt_to_pixel_x_y, lo[at], la[at], alt[at], world_proj=wp, band=b)
            ctx.close("many-points", np.array([u[at], v[at]]), np.array(o), "%s: the pixel of a point among many is not that in a "
                      "smaller company" % kind, atol=t, rtol=1e-9)
