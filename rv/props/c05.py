"""C05: rays cast onto terrain meet it where the pixel first sees it."""
import numpy as np
from rv.core import Registry
from rv.gen import LAYOUTS, layout
from rv import sensors as S
from rv import terrain as T
from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory
from resippy.photogrammetry.dem.geotiff_dem import GeotiffDem

P = Registry("C05", "All sensor kinds over constant, sloped, rolling, rough, cliff and flat-grid terrain in the sensor's own, "
                    "lon/lat or UTM coordinates, nearest and bilinear, with fine and coarse sampling distances; the monitor "
                    "walks the true line of sight of every answered pixel over the reference surface.", boost=3)

KINDS = ["pinhole", "opencv", "pix4d", "rpc", "geotiff", "igm", "multiband"]


def metres(s, dx, dy, lat):
    if s.proj.crs.is_geographic:
        return np.hypot(dx * 111320.0 * np.cos(np.deg2rad(lat)), dy * 111320.0)
    return np.hypot(dx, dy)


def relief(r, s):
    lo, hi = s.alt_lo, s.alt_hi
    mid = r.uniform(lo, hi)
    d = (hi - lo) * 10 ** r.uniform(-2.5, -0.5 if s.kind != "rpc" else -1)
    a, b = max(lo, mid - d), min(hi, mid + d)
    return float(a), float(b)


def case(ctx, kind=None, tkind=None):
    r = ctx.rng
    kind = kind or str(r.choice(KINDS))
    s = S.make(kind, r)
    lo, hi = relief(r, s)
    t = T.make(r, s, lo, hi, ctx, kind=tkind)
    n = 12 * ctx.many(1, 2000)
    x, y = s.pixels(r, n)
    b = int(r.integers(0, s.nbands))
    return r, s, t, x, y, b, n


@P.scenario(quick=300, thorough=5000, monitors=("line-of-sight", "on-terrain", "first-hit", "shape"), big=12)
def hits(ctx):
    r, s, t, x, y, b, n = case(ctx)
    rel = t.hi - t.lo
    kw = {}
    hi, lo = t.hi, t.lo
    if r.random() < 0.5:
        # the caller names limits: either, both, close or generous
        room = max(min(s.alt_hi, t.hi + 2 * rel + 20) - t.hi, 0.0)
        depth = max(t.lo - max(s.alt_lo, t.lo - 2 * rel - 20), 0.0)
        more = float(r.choice([0.0, r.uniform(0, 1)]))
        if r.random() < 0.7:
            hi = t.hi + more * room
            kw["dem_highest_alt"] = hi
        if r.random() < 0.7:
            lo = t.lo - more * depth
            kw["dem_lowest_alt"] = lo
        ctx.cover("limits", "-".join(sorted(kw)), "generous" if more else "exact")
    m = (hi - lo) * 0.01 if hi > lo else 1.0
    top, bot = hi + m, lo - m
    tx, ty = [np.asarray(v, float) for v in s.ground(x, y, np.full(n, top), b)]
    bx, by = [np.asarray(v, float) for v in s.ground(x, y, np.full(n, bot), b)]
    length = metres(s, tx - bx, ty - by, s.place[1])
    longest = float(length.max())
    dist = longest / r.uniform(2, 200 if not ctx.big else min(200, 1e6 / n)) if longest > 1e-6 else 5.0
    if longest / 5.0 < (400 if not ctx.big else 50) and r.random() < 0.2:
        dist = 5.0
    else:
        kw["dem_sample_distance"] = float(dist)
    ctx.given(kind=s.kind, terrain=t.kind, z=t.z if t.z is not None else t.lo, x=x, y=y, dist=dist)
    ctx.cover(s.kind, t.kind, t.method)
    ctx.cover("vertical" if longest < 1e-6 else "oblique")
    shape = [(n,), (3, n // 3), (n // 3, 3), (1, n), (n, 1), (1,)][int(r.integers(0, 6 if not ctx.big else 5))]
    if shape == (1,):
        k = int(r.integers(0, n))
        x, y, tx, ty, bx, by, length = [v[k:k + 1] for v in (x, y, tx, ty, bx, by, length)]
    how = str(r.choice(LAYOUTS))
    got = ctx.call(s.calc.pixel_x_y_to_lon_lat_alt, layout(r, np.reshape(x, shape), how), layout(r, np.reshape(y, shape), how), t.dem,
                   band=b, **kw)
    ctx.check("shape", all(np.shape(q) == shape for q in got), "answers of shape %s for pixels of shape %s"
              % ([np.shape(q) for q in got], shape))
    X, Y, Z = [np.asarray(q, float).ravel() for q in got]
    ctx.check("on-terrain", np.all(np.isfinite(X) & np.isfinite(Y) & np.isfinite(Z)), "a pixel over terrain has no ground point",
              X=X, Z=Z)
    lat = s.place[1]
    # the position on the true line of sight at the answered altitude
    f = np.linspace(0, 1, 9)
    if s.kind in ("geotiff", "igm"):
        gx, gy = tx, ty
        err = metres(s, X - gx, Y - gy, lat)
        tol = metres(s, abs(s.info["step"]) * 0.02, abs(s.info["step"]) * 0.02, lat) + 1e-6
        ctx.check("line-of-sight", np.all(err <= tol), "the ground point is not that of the pixel", err=err)
    else:
        u, v = s.ref(X, Y, Z, b)
        # line of sight is straight, up to the curvature of a rational polynomial
        bend = np.zeros(len(X))
        if s.kind == "rpc":
            for q in f[1:-1]:
                uu, vv = s.ref(tx + q * (bx - tx), ty + q * (by - ty), np.full(len(X), top + q * (bot - top)), b)
                bend = np.maximum(bend, np.hypot(uu - x, vv - y))
        ctx.check("line-of-sight", np.all(np.hypot(u - x, v - y) <= 0.025 + 2 * bend),
                  "the ground point is not on the line of sight of its pixel", err=np.hypot(u - x, v - y), bend=bend)
    ctx.check("on-terrain", np.all(Z >= t.lo - m * 1.01) and np.all(Z <= t.hi + m * 1.01), "the altitude is outside the terrain",
              Z=Z, lo=t.lo, hi=t.hi)
    # distance of the answered point along its ray, as a fraction, and the sampling step as a fraction
    lmax = float(length.max())
    nstep = max(int(np.ceil(lmax / dist * (1 - 1e-9))) + 1, 2)
    eps_z = 1e-6 * max(1.0, abs(t.hi), abs(t.lo)) + 1e-3 * rel
    for i in range(len(X)) if not ctx.big else np.unique(np.r_[0, 1, n - 2, n - 1, r.integers(0, n, 40)]):
        q = (top - Z[i]) / (top - bot)
        h = 1.0 / (nstep - 1) * 1.02
        if length[i] < 1e-6:
            a, c = t.bounds(X[i:i + 1], Y[i:i + 1], s.proj)
        else:
            w = np.clip(np.linspace(q - h, q + h, 201), 0, 1)
            a, c = t.bounds(X[i] + (w - q) * (bx[i] - tx[i]), Y[i] + (w - q) * (by[i] - ty[i]), s.proj, eps=1e-3)
        ctx.check("on-terrain", a.min() - eps_z <= Z[i] <= c.max() + eps_z,
                  "the point is not on the terrain: altitude %.6g, terrain within a sampling step %.6g to %.6g"
                  % (Z[i], a.min(), c.max()))
        if length[i] >= 1e-6:
            w = np.linspace(0, max(q, 0), 600)
            a, c = t.bounds(X[i] + (w - q) * (bx[i] - tx[i]), Y[i] + (w - q) * (by[i] - ty[i]), s.proj, eps=1e-3)
            above = a > top + w * (bot - top) + eps_z
            run = longest_run(above) * (w[1] - w[0]) if len(w) > 1 else 0.0
            ctx.check("first-hit", run <= h + 2 * (w[1] - w[0]), "terrain nearer to the sensor blocks the ray over %.3g of its "
                      "length, sampling step %.3g" % (run, h))
        else:
            ctx.count("first-hit")


@P.scenario(quick=100, thorough=2500, monitors=("line-of-sight", "on-terrain", "known-terrain"))
def holes(ctx):
    """Terrain with places of unknown altitude: no ground point is made up there, and pixels that see none of it see what they would."""
    r = ctx.rng
    s = S.make(str(r.choice(KINDS)), r)
    lo, hi = relief(r, s)
    t = T.make(r, s, lo, hi, ctx, kind=str(r.choice(["plane", "hills", "flat-grid", "rough", "cliff"])), dtype=str(r.choice(["f4", "f8"])),
               holes=float(r.choice([0.02, 0.1, 0.3])))
    n = 24
    x, y = s.pixels(r, n)
    b = int(r.integers(0, s.nbands))
    m = (t.hi - t.lo) * 0.01 if t.hi > t.lo else 1.0
    top, bot = t.hi + m, t.lo - m
    tx, ty = [np.asarray(v, float) for v in s.ground(x, y, np.full(n, top), b)]
    bx, by = [np.asarray(v, float) for v in s.ground(x, y, np.full(n, bot), b)]
    length = metres(s, tx - bx, ty - by, s.place[1])
    longest = float(length.max())
    k = float(r.uniform(2, 150))
    dist = longest / k if longest > 1e-6 else 5.0
    ctx.given(kind=s.kind, terrain=t.kind, z=t.z, x=x, y=y, dist=dist)
    ctx.cover(s.kind, t.kind, t.method)
    got = ctx.call(s.calc.pixel_x_y_to_lon_lat_alt, x, y, t.dem, band=b, dem_sample_distance=dist)
    X, Y, Z = [np.asarray(q, float) for q in got]
    seen = np.isfinite(Z)
    whole = GeotiffDem()
    z = np.where(np.isnan(t.z), t.lo, t.z)
    whole.set_geotiff_image(GeotiffImageFactory.from_numpy_array(z, t.g, t.proj))
    whole.set_interpolation_to_nearest() if t.method == "nearest" else whole.set_interpolation_to_bilinear()
    W = [np.asarray(q, float) for q in ctx.call(s.calc.pixel_x_y_to_lon_lat_alt, x, y, whole, band=b, dem_sample_distance=dist,
                                                dem_highest_alt=t.hi, dem_lowest_alt=t.lo)]
    nstep = 2 if longest < 1e-6 else max(int(np.ceil(k * (1 - 1e-9))) + 1, 2)
    h = 1.02 / (nstep - 1)
    eps_z = 1e-6 * max(1.0, abs(t.hi), abs(t.lo)) + 1e-3 * (t.hi - t.lo)
    seen_all = 0
    q = np.linspace(-0.01, 1.01, max(400, 4 * nstep))
    for i in range(n):
        # known all along its line of sight, and a little beside it
        qx, qy = t.grid_pos(tx[i] + q * (bx[i] - tx[i]), ty[i] + q * (by[i] - ty[i]), s.proj)
        c = 0.02 if s.kind != "rpc" else 0.3
        around = [t.at(qx + u, qy + v) for u in (-c, 0, c) for v in (-c, 0, c)]
        if not np.isnan(around).any():
            seen_all += 1
            w = [float(v[i]) for v in W]
            ctx.check("known-terrain", bool(seen[i]), "a pixel that sees known terrain only has no ground point", i=i)
            d = max(float(metres(s, np.array([X[i] - w[0]]), np.array([Y[i] - w[1]]), s.place[1])[0]), abs(Z[i] - w[2]))
            ctx.check("known-terrain", d <= eps_z + 1e-6 * longest + 1e-6, "unknown terrain elsewhere moves the ground point of a pixel by "
                      "%.3g m" % d, i=i)
        if not seen[i]:
            continue
        ctx.check("on-terrain", t.lo - m * 1.01 <= Z[i] <= t.hi + m * 1.01, "the altitude is outside the terrain", Z=Z[i])
        if s.kind not in ("geotiff", "igm"):
            u, v = [float(w) for w in s.ref(X[i], Y[i], Z[i], b)]
            bend = 0.0
            if s.kind == "rpc":
                w = np.linspace(0, 1, 9)
                e, o = s.ref(tx[i] + w * (bx[i] - tx[i]), ty[i] + w * (by[i] - ty[i]), top + w * (bot - top), b)
                bend = float(np.hypot(e - x[i], o - y[i]).max())
            ctx.check("line-of-sight", np.hypot(u - x[i], v - y[i]) <= 0.025 + 2 * bend,
                      "the ground point is not on the line of sight of its pixel", u=u, v=v)
        f = (top - Z[i]) / (top - bot)
        w = np.clip(np.linspace(f - h, f + h, 201), 0, 1) if length[i] >= 1e-6 else np.array([f])
        px, py = t.grid_pos(X[i] + (w - f) * (bx[i] - tx[i]), Y[i] + (w - f) * (by[i] - ty[i]), s.proj)
        v = np.stack([t.at(px + a, py + c) for a in (-1e-3, 0, 1e-3) for c in (-1e-3, 0, 1e-3)])
        ctx.check("on-terrain", not np.isnan(v).all() and np.nanmin(v) - eps_z <= Z[i] <= np.nanmax(v) + eps_z,
                  "the ground point of a pixel is not on known terrain", Z=Z[i], i=i)
    ctx.cover("known", "all" if seen_all == n else "some" if seen_all else "none", "seen", bool(seen.all()))


def longest_run(mask):
    best = cur = 0
    for m in mask:
        cur = cur + 1 if m else 0
        best = max(best, cur)
    return best


@P.scenario(quick=60, thorough=800, monitors=("other-system", "alone", "again"))
def systems(ctx):
    """Other coordinate systems, pixels alone or in company, and repeated questions give the same point."""
    r, s, t, x, y, b, n = case(ctx)
    ctx.given(kind=s.kind, terrain=t.kind, x=x, y=y)
    bx = s.ground(x, y, np.full(n, t.lo), b)
    tx = s.ground(x, y, np.full(n, t.hi), b)
    longest = float(metres(s, tx[0] - bx[0], tx[1] - bx[1], s.place[1]).max())
    kw = dict(dem_sample_distance=max(longest / 60, 1e-3))
    X, Y, Z = ctx.call(s.calc.pixel_x_y_to_lon_lat_alt, x, y, t.dem, band=b, **kw)
    name, wp = S.world_projs(r, *s.place)[int(r.integers(0, 9))]
    ctx.cover(name, s.kind)
    U, V, W = ctx.call(s.calc.pixel_x_y_to_lon_lat_alt, x, y, t.dem, world_proj=wp, band=b, **kw)
    eu, ev = S.transform(s.proj, wp, X, Y)
    scale = 1e-9 if wp.crs.is_geographic else 1e-3
    ctx.close("other-system", U, eu, "the ground point in another coordinate system is another point", atol=scale, rtol=1e-10)
    ctx.close("other-system", V, ev, "the ground point in another coordinate system is another point", atol=scale, rtol=1e-10)
    ctx.equal("other-system", np.asarray(W), np.asarray(Z), "the altitude changes with the coordinate system")
    X2, Y2, Z2 = ctx.call(s.calc.pixel_x_y_to_lon_lat_alt, x, y, t.dem, band=b, **kw)
    ctx.check("again", np.array_equal(X, X2) and np.array_equal(Y, Y2) and np.array_equal(Z, Z2), "asking again gives another point")
    if t.kind in ("constant", "flat-grid"):
        k = int(r.integers(0, n))
        X3, Y3, Z3 = ctx.call(s.calc.pixel_x_y_to_lon_lat_alt, x[k:k + 1], y[k:k + 1], t.dem, band=b, **kw)
        e = float(metres(s, X3[0] - X[k], Y3[0] - Y[k], s.place[1]))
        g = s.info.get("step", 1) if s.proj.crs.is_geographic is False else s.info.get("step", 1e-5) * 111320
        ctx.check("alone", e <= 0.03 * max(pixel_metres(s, X[k], Y[k], t.lo, b), 1e-6) + 1e-6 and abs(Z3[0] - Z[k]) < 1e-6,
                  "a pixel alone has another ground point than in company", e=e)
    else:
        ctx.count("alone")


def pixel_metres(s, x, y, z, b):
    if s.ref is None:
        return 100.0
    g = float(s.gsd(x, y, z, b))
    return g * 111320.0 if s.proj.crs.is_geographic else g


@P.scenario(quick=60, thorough=600, monitors=("exact",))
def flat(ctx):
    """On flat terrain the answer is the projection to that altitude."""
    r, s, t, x, y, b, n = case(ctx, tkind=str(ctx.rng.choice(["constant", "flat-grid"])))
    ctx.given(kind=s.kind, terrain=t.kind, x=x, y=y)
    ctx.cover(s.kind, t.kind)
    X, Y, Z = ctx.call(s.calc.pixel_x_y_to_lon_lat_alt, x, y, t.dem, band=b, dem_sample_distance=1000.0)
    ctx.close("exact", Z, np.full(n, t.lo), "the altitude is not that of the flat terrain", atol=1e-6, rtol=1e-9)
    gx, gy = s.ground(x, y, np.full(n, t.lo), b)
    for i in range(n):
        tol = 0.02 * max(pixel_metres(s, gx[i], gy[i], t.lo, b), 1e-9) + 1e-6
        ctx.check("exact", float(metres(s, X[i] - gx[i], Y[i] - gy[i], s.place[1])) <= tol,
                  "the ground point is not that of the pixel at the altitude of the terrain")


@P.scenario(quick=40, thorough=400, monitors=("no-ground",))
def beyond(ctx):
    """A ray that ends above the terrain has no ground point."""
    r, s, t, x, y, b, n = case(ctx)
    rel = max(t.hi - t.lo, 1.0)
    room = s.alt_hi + (s.info.get("h", 1.0) * 0.3) - t.hi
    lo = t.hi + 0.2 * min(rel, room)
    hi = lo + 0.2 * min(rel, room)
    ctx.given(kind=s.kind, terrain=t.kind, lo=lo, hi=hi)
    ctx.cover(s.kind)
    X, Y, Z = ctx.call(s.calc.pixel_x_y_to_lon_lat_alt, x, y, t.dem, band=b, dem_highest_alt=hi, dem_lowest_alt=lo,
                       dem_sample_distance=1e5)
    ctx.check("no-ground", np.all(np.isnan(X)) and np.all(np.isnan(Y)) and np.all(np.isnan(Z)),
              "a ray that does not reach the terrain has a ground point", X=X, Z=Z)


@P.scenario(quick=400, thorough=6000, monitors=("first-hit", "line-of-sight"))
def narrow(ctx):
    """One post standing on a plain, little wider than the sampling distance, on or beside the line of sight."""
    r = ctx.rng
    s = S.make(str(r.choice(["pinhole", "opencv", "pix4d", "rpc", "multiband"])), r)
    b = int(r.integers(0, s.nbands))
    span = s.alt_hi - s.alt_lo
    lo = float(s.alt_lo + span * r.uniform(0.1, 0.4))
    hi = float(lo + span * r.uniform(0.1, 0.5))
    m = 0.01 * (hi - lo)
    px, py = [np.array([v]) for v in (r.uniform(0, s.nx - 1), r.uniform(0, s.ny - 1))]
    X, Y, tx, ty = [float(np.asarray(v)[0]) for a in (lo - m, hi + m) for v in s.ground(px, py, np.array([a]), b)]
    length = float(metres(s, np.array([tx - X]), np.array([ty - Y]), s.place[1])[0])
    if length < 1e-2 * (hi - lo):
        return ctx.cover("nearly vertical")
    pixel = float(s.gsd(X, Y, lo, b)) * float(metres(s, 1.0, 0.0, s.place[1]))
    n = float(max(6.0, min(10 ** r.uniform(0.8, 3.7), length / (0.5 * pixel))))
    step, k = length / n, float(r.uniform(1.15, 1.6))
    ctx.cover("steps", "10^%d" % np.log10(n))
    # half sizes of the post: the line of sight crosses it from corner to corner, over k sampling distances
    a, c = [max(abs(v) / n * k / 2, 0.2 * float(s.gsd(X, Y, lo, b))) for v in (tx - X, ty - Y)]
    f = float(r.uniform(0.2, 0.8))
    beside = r.random() < 0.3
    cx, cy = X + f * (tx - X), Y + f * (ty - Y)
    if s.kind == "rpc":
        cx, cy = [float(np.asarray(v)[0]) for v in s.ground(px, py, np.array([lo - m + f * (hi - lo + 2 * m)]), b)]
    if beside:
        side = float(r.choice([-1, 1])) * 2.5
        if abs(ty - Y) < 0.3 * abs(tx - X):
            cy += side * c
        else:
            cx += side * a
    g = [cx - a * 41, 2 * a, 0.0, cy + c * 41, 0.0, -2 * c]
    z = np.full((41, 41), lo)
    z[20, 20] = hi
    dem = GeotiffDem()
    dem.set_geotiff_image(GeotiffImageFactory.from_numpy_array(z.copy(), g, s.proj))
    dem.set_interpolation_to_nearest()
    t = T.Terrain("post", dem, s.proj, z, g, "nearest", lo, hi)
    ctx.given(kind=s.kind, px=px, py=py, lo=lo, hi=hi, step=step, g=g, beside=beside)
    got = ctx.call(s.calc.pixel_x_y_to_lon_lat_alt, px, py, dem, dem_sample_distance=step, band=b)
    gx, gy, gz = [float(np.asarray(v)[0]) for v in got]
    # the line of sight over the plain and the post
    N = max(800, int(12 * n))
    q = np.linspace(0, 1, N)
    lx, ly = X + q * (tx - X), Y + q * (ty - Y)
    bend = 0.0
    if s.kind == "rpc":
        ex, ey = [np.asarray(v, float) for v in s.ground(np.full(N, px[0]), np.full(N, py[0]), lo - m + q * (hi - lo + 2 * m), b)]
        wu, wv = s.ref(lx, ly, lo - m + q * (hi - lo + 2 * m), b)
        bend = float(np.hypot(wu - px[0], wv - py[0]).max())
        if float(metres(s, ex - lx, ey - ly, s.place[1]).max()) > 0.1 * step:
            return ctx.cover("curved line of sight")
    low, high = t.bounds(lx, ly, s.proj, eps=0.02)
    on, near = np.nonzero(low > lo + m)[0], high > lo + m
    u, v = [float(w) for w in s.ref(gx, gy, gz, b)]
    ctx.check("line-of-sight", np.hypot(u - px[0], v - py[0]) <= 0.025 + 2 * bend,
              "the ground point is not on the line of sight of its pixel", u=u, v=v)
    h = (gz - (lo - m)) / (hi - lo + 2 * m)
    if len(on) / (N - 1.0) > 1.05 / n:
        ctx.cover(s.kind, "post hit")
        ctx.check("first-hit", q[on[0]] - 1.5 / n <= h <= q[on[-1]] + 2.5 / n, "a post %.2f sampling distances wide on the line of sight, "
                  "at %.4f to %.4f of it, is not where the pixel meets the terrain (%.4f)" % (k, q[on[0]], q[on[-1]], h))
    elif not near.any():
        ctx.cover(s.kind, "post beside")
        ctx.check("first-hit", abs(gz - lo) <= 1e-3 * (hi - lo), "a post beside the line of sight is taken for where the pixel meets the "
                  "terrain", gz=gz)
    else:
        ctx.cover("grazing")
