"""C21: obstruction masks against a walk along each line of sight."""
import numpy as np
from rv.core import Registry
from rv.gen import LAYOUTS, layout
from rv import images, sensors as S, terrain as T
from rv.props.c05 import longest_run, metres
from rv.props.c08 import SizeOnly
from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory
from resippy.photogrammetry import ortho_tools
from resippy.photogrammetry.dem.geotiff_dem import GeotiffDem

P = Registry("C21", "Frame, distorted, Pix4D, separate-band and satellite sensors over constant, sloped, rolling, rough, cliff "
                    "and ridge terrain (nearest and bilinear, own or other coordinate system), ground points in every "
                    "direction from the sensor, on and above the terrain, fine and coarse sampling; the monitor walks the "
                    "line of sight of every point over its own reference surface.")
KINDS = ["pinhole", "pinhole", "opencv", "pix4d", "rpc", "rpc", "multiband"]


def setting(ctx, kind=None, tkind=None, steep=True):
    r = ctx.rng
    kind = kind or str(r.choice(KINDS))
    s = S.make(kind, r, small=bool(r.random() < (0.1 if kind == "rpc" else 0.5)), **(dict(max_tilt=55) if kind == "pinhole" else {}))
    span = s.alt_hi - s.alt_lo
    f = 10 ** r.uniform(-0.5, -0.02) if steep else 10 ** r.uniform(-2, -0.5)
    mid = s.alt_lo + span * 0.5
    lo, hi = mid - 0.5 * f * span, mid + 0.5 * f * span
    n = (int(r.integers(20, 90)), int(r.integers(20, 90))) if r.random() < 0.7 else None
    t = T.make(r, s, float(lo), float(hi), ctx, kind=tkind, n=n)
    b = int(r.integers(0, s.nbands))
    im = SizeOnly(s, s.nbands) if s.nx * s.ny > 4000 else images.make(ctx, s, dtype="u1", source="memory")[0]
    return r, s, t, b, im


def ground_points(r, s, t, b, n):
    """Points on the terrain inside the footprint, hidden or not, with the pixel that looks at each."""
    cx = np.array([0, s.nx - 1, s.nx - 1, 0], float)
    cy = np.array([0, 0, s.ny - 1, s.ny - 1], float)
    gx, gy = s.ground(cx, cy, np.full(4, 0.5 * (t.lo + t.hi)), b)
    w = r.dirichlet(np.ones(4) * 0.7, n)
    X, Y = w @ np.asarray(gx, float), w @ np.asarray(gy, float)
    Z = np.asarray(t.elev(X, Y, s.proj), float)
    px, py = s.ref(X, Y, Z, b)
    return X, Y, Z, np.asarray(px, float), np.asarray(py, float)


def walk(t, s, X, Y, Z, TX, TY, top, length, step, band, longest):
    """(certainly blocked, certainly clear) for the line from (X, Y, Z) up to (TX, TY, top), arrays over points of the line."""
    n = len(TX)
    f = (np.arange(n) + 0.0) / (n - 1)
    h = Z + (top - Z) * f
    # ground positions of a pixel are good to 0.01 pixels
    d, e = float(s.gsd(X, Y, Z, band)), 1e-3
    if t.g is not None:
        x0, y0 = t.grid_pos(np.array([X, X + d, X]), np.array([Y, Y, Y + d]), s.proj)
        e = max(e, 0.012 * max(np.abs(x0 - x0[0]).max(), np.abs(y0 - y0[0]).max()))
    a, c = t.bounds(TX, TY, s.proj, eps=e)
    e = np.asarray(t.elev(TX, TY, s.proj), float)
    rel = max(t.hi - t.lo, 1e-3)
    blocked = longest_run(a > h + 1e-6 * rel + 1e-6) * length / (n - 1) > 1.05 * step + 2 * length / (n - 1)
    near = f * longest < 0.4 * step             # before the first sample: all lines have the samples of the longest one
    clear = np.all(c[~near] <= h[~near] - 1e-6 * rel - 1e-6) and np.all(e[near] <= h[near] + 1e-6 * rel)
    return blocked, clear


@P.scenario(quick=500, thorough=8000, monitors=("blocked", "clear", "shape"), big=8)
def masks(ctx):
    r, s, t, b, im = setting(ctx, tkind=str(ctx.rng.choice(["plane", "hills", "rough", "cliff", "towers", "towers"])))
    n = 24 * ctx.many(1, 150)
    X, Y, Z, px, py = ground_points(r, s, t, b, n)
    kw = {}
    given = r.random()
    if given < 0.2:
        kw["alts"] = Z.copy()
    elif given < 0.4:
        Z = Z + (t.hi - t.lo) * r.uniform(0, 0.3, n)
        px, py = [np.asarray(v, float) for v in s.ref(X, Y, Z, b)]
        kw["alts"] = Z.copy()
        ctx.cover("above the terrain")
    top = t.hi + 0.001
    tx, ty = [np.asarray(v, float) for v in s.ground(px, py, np.full(n, top), b)]
    length = metres(s, tx - X, ty - Y, s.place[1])
    longest = float(length.max())
    step = longest / float(10 ** r.uniform(0.2, 3.0 if n == 24 and r.random() < 0.3 else 2.0))
    if longest / 5.0 < 150 and r.random() < 0.3:
        step = 5.0
    else:
        kw["dem_resolution"] = step
    if s.nbands > 1 or r.random() < 0.3:
        kw["band"] = b
    shape = [(n,), (n // 4, 4), (3, n // 3), (n, 1)][int(r.integers(0, 4))]
    ctx.cover(s.kind, t.kind, t.method)
    ctx.given(kind=s.kind, terrain=t.kind, z=t.z, X=X, Y=Y, Z=Z, step=step, band=b)
    if "alts" in kw:
        kw["alts"] = layout(r, np.reshape(kw["alts"], shape))
    how = str(r.choice(LAYOUTS))
    got = ctx.call(ortho_tools.are_pixels_obstructed_by_dem, im,
                   *[layout(r, np.reshape(v, shape), how) for v in (px, py, X, Y)], t.dem, **kw)
    if not ctx.check("shape", np.shape(got) == shape, "a mask of shape %s for points of shape %s" % (np.shape(got), shape)):
        return
    got = np.asarray(got).ravel()
    ctx.check("shape", np.all((got == 0) | (got == 1)), "mask values other than 0 and 1: %s" % np.unique(got))
    m = 400
    f = np.linspace(0, 1, m)
    for i in range(n) if n == 24 else r.choice(n, min(n, 120), replace=False):
        if Z[i] >= t.hi:
            ctx.check("clear", got[i] == 0, "a point above all terrain is marked as obstructed")
            continue
        v = walk(t, s, X[i], Y[i], Z[i], X[i] + f * (tx[i] - X[i]), Y[i] + f * (ty[i] - Y[i]), top, length[i], step, b, longest)
        if s.kind == "rpc":
            # the line of sight of a polynomial model is not quite straight
            q, p = [np.asarray(u, float) for u in s.ground(np.full(m, px[i]), np.full(m, py[i]), Z[i] + (top - Z[i]) * f, b)]
            v2 = walk(t, s, X[i], Y[i], Z[i], q, p, top, length[i], step, b, longest)
            v = (v[0] and v2[0], v[1] and v2[1])
        if v[0]:
            az = np.degrees(np.arctan2(tx[i] - X[i], ty[i] - Y[i]))
            ctx.cover("blocked " + s.kind)
            ctx.cover("blocked towards %s" % ["N", "E", "S", "W"][int(((az + 45) % 360) // 90)])
            ctx.check("blocked", got[i] == 1, "point %d is behind terrain on its line of sight (towards azimuth %.0f), and not "
                      "marked" % (i, az))
        elif v[1]:
            ctx.check("clear", got[i] == 0, "point %d is in full view of the sensor and marked as obstructed" % i)
        else:
            ctx.cover("grazing")


@P.scenario(quick=100, thorough=1500, monitors=("clear",))
def flat(ctx):
    """Level terrain hides nothing."""
    r, s, t, b, im = setting(ctx, tkind=str(ctx.rng.choice(["constant", "flat-grid"])))
    n = int(r.integers(1, 30))
    X, Y, Z, px, py = ground_points(r, s, t, b, n)
    ctx.given(kind=s.kind, terrain=t.kind, X=X, Y=Y, Z=Z)
    ctx.cover(s.kind, t.kind)
    tx, ty = [np.asarray(v, float) for v in s.ground(px, py, np.full(n, t.hi + 0.001), b)]
    resolution = max(float(metres(s, tx - X, ty - Y, s.place[1]).max()) / float(10 ** r.uniform(-0.3, 2)), 1e-3)
    got = ctx.call(ortho_tools.are_pixels_obstructed_by_dem, im, px, py, X, Y, t.dem, dem_resolution=resolution,
                   band=b)
    ctx.check("clear", not np.any(got), "level terrain obstructs %d of %d points" % (int(np.sum(got)), n))


@P.scenario(quick=150, thorough=2500, monitors=("again", "alone"))
def company(ctx):
    """The answer for a point does not depend on when it is asked, and hardly on the other points asked with it."""
    r, s, t, b, im = setting(ctx, tkind=str(ctx.rng.choice(["hills", "rough", "cliff", "towers"])))
    n = 10
    X, Y, Z, px, py = ground_points(r, s, t, b, n)
    tx, ty = [np.asarray(v, float) for v in s.ground(px, py, np.full(n, t.hi + 0.001), b)]
    length = metres(s, tx - X, ty - Y, s.place[1])
    step = float(length.max() / 70)
    ctx.given(kind=s.kind, terrain=t.kind, X=X, Y=Y, step=step)
    a = ctx.call(ortho_tools.are_pixels_obstructed_by_dem, im, px, py, X, Y, t.dem, dem_resolution=step, band=b)
    o = r.permutation(n)
    c = ctx.call(ortho_tools.are_pixels_obstructed_by_dem, im, px[o], py[o], X[o], Y[o], t.dem, dem_resolution=step, band=b)
    ctx.equal("again", np.asarray(c), np.asarray(a)[o], "the mask depends on the order of the points")
    f = np.linspace(0, 1, 600)
    few = r.choice(n, 3, replace=False)
    for i in range(n):
        if Z[i] >= t.hi or s.kind == "rpc" or i not in few:
            continue
        v = walk(t, s, X[i], Y[i], Z[i], X[i] + f * (tx[i] - X[i]), Y[i] + f * (ty[i] - Y[i]), t.hi + 0.001, length[i], step, b, length.max())
        if v[0] or v[1]:
            k = slice(i, i + 1)
            d = ctx.call(ortho_tools.are_pixels_obstructed_by_dem, im, px[k], py[k], X[k], Y[k], t.dem, dem_resolution=step, band=b)
            ctx.check("alone", d[0] == a[i] == int(v[0]), "a point alone is marked %s and with others %s" % (d[0], a[i]))


@P.scenario(quick=700, thorough=10000, monitors=("blocked", "clear"))
def narrow(ctx):
    """One post standing on a plain, little wider than the sampling distance, on or beside the line of sight."""
    r = ctx.rng
    kind = str(r.choice(KINDS))
    s = S.make(kind, r, small=False)
    b = int(r.integers(0, s.nbands))
    im = SizeOnly(s, s.nbands)
    span = s.alt_hi - s.alt_lo
    lo = float(s.alt_lo + span * r.uniform(0.1, 0.4))
    hi = float(lo + span * r.uniform(0.1, 0.5))
    px, py = [np.array([v]) for v in (r.uniform(0, s.nx - 1), r.uniform(0, s.ny - 1))]
    X, Y = [float(np.asarray(v)[0]) for v in s.ground(px, py, np.array([lo]), b)]
    tx, ty = [float(np.asarray(v)[0]) for v in s.ground(px, py, np.array([hi + 0.001]), b)]
    length = float(metres(s, np.array([tx - X]), np.array([ty - Y]), s.place[1])[0])
    if length < 1e-2 * (hi - lo):
        return ctx.cover("nearly vertical")
    # sampling distances along the line of sight, none below half a pixel
    pixel = float(s.gsd(X, Y, lo, b)) * float(metres(s, 1.0, 0.0, s.place[1]))
    n = float(max(6.0, min(10 ** r.uniform(0.8, 3.5), length / (0.5 * pixel))))
    ctx.cover("steps", "10^%d" % np.log10(n))
    step, k = length / n, float(r.uniform(1.15, 1.6))
    # half sizes of the post: the line of sight crosses it from corner to corner, over k sampling distances
    a, c = [max(abs(v) / n * k / 2, 0.2 * float(s.gsd(X, Y, lo, b))) for v in (tx - X, ty - Y)]
    f = float(r.uniform(0.2, 0.7))
    beside = r.random() < 0.4
    cx, cy = X + f * (tx - X), Y + f * (ty - Y)
    if beside:
        side = float(r.choice([-1, 1])) * 2.5
        cx, cy = (cx + side * a, cy) if abs(tx - X) > 0.3 * abs(ty - Y) else (cx, cy + side * c)
        if abs(ty - Y) < 0.3 * abs(tx - X):
            cx, cy = X + f * (tx - X), cy + side * c
    if abs(cx - X) < 1.1 * a and abs(cy - Y) < 1.1 * c:
        return ctx.cover("the point is on the post")
    m = int(min(np.ceil(n / k) + 6, 30))        # the plain goes on beyond the grid
    g = [cx - a * (2 * m + 1), 2 * a, 0.0, cy + c * (2 * m + 1), 0.0, -2 * c]
    z = np.full((2 * m + 1, 2 * m + 1), lo)
    z[m, m] = hi
    dem = GeotiffDem()
    dem.set_geotiff_image(GeotiffImageFactory.from_numpy_array(z.copy(), g, s.proj))
    dem.set_interpolation_to_nearest()
    t = T.Terrain("post", dem, s.proj, z, g, "nearest", lo, hi)
    ctx.given(kind=s.kind, X=X, Y=Y, lo=lo, hi=hi, step=step, g=g, beside=beside)
    got = ctx.call(ortho_tools.are_pixels_obstructed_by_dem, im, px, py, np.array([X]), np.array([Y]), dem, dem_resolution=step,
                   band=b)
    fine = max(800, int(12 * n))
    q = np.linspace(0, 1, fine)
    v = walk(t, s, X, Y, lo, X + q * (tx - X), Y + q * (ty - Y), hi + 0.001, length, step, b, length)
    if s.kind == "rpc":
        qx, qy = [np.asarray(u, float) for u in s.ground(np.full(fine, px[0]), np.full(fine, py[0]), lo + (hi + 0.001 - lo) * q, b)]
        v2 = walk(t, s, X, Y, lo, qx, qy, hi + 0.001, length, step, b, length)
        v = (v[0] and v2[0], v[1] and v2[1])
    ctx.cover(s.kind, "blocked" if v[0] else "clear" if v[1] else "grazing")
    if v[0]:
        ctx.check("blocked", got[0] == 1, "a post %.2f sampling distances wide on the line of sight is not seen" % k)
    elif v[1]:
        ctx.check("clear", got[0] == 0, "a post beside the line of sight is taken for an obstruction")
