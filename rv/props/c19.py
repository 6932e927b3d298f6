"""C19: navigation solutions against the tables they were read from."""
import numpy as np
import pyproj
from rv.core import Registry
from rv.gen import layout
from rv import env

env.install_pdal_stub()
from resippy.photogrammetry.nav.nav_factory import NavFactory  # noqa: E402

P = Registry("C19", "Applanix exterior-orientation text files (headers, comments, blank and truncated lines, tabs, CRLF, exponents, "
                    "extra columns, missing latitude / longitude) and SBET record arrays (pdal is a stand-in that serves arrays) with "
                    "1 to 400 records at regular and irregular times, asked at recorded times, between them, outside them, as "
                    "numbers, 1-D and 2-D arrays in any order; the monitor interpolates the generated table itself.", boost=3)

EO = ["gps_time", "easting", "northing", "height", "omega", "phi", "kappa", "lat", "lon"]
SBET = ["GpsTime", "Y", "X", "Z", "XVelocity", "YVelocity", "ZVelocity", "Roll", "Pitch", "PlatformHeading", "WanderAngle",
        "XBodyAccel", "YBodyAccel", "ZBodyAccel", "XBodyAngRate", "YBodyAngRate", "ZBodyAngRate", "Azimuth"]
SNAKE = {"GpsTime": "gps_time", "X": "x", "Y": "y", "Z": "z", "Roll": "roll", "Pitch": "pitch", "Azimuth": "azimuth",
         "XVelocity": "x_velocity", "YVelocity": "y_velocity", "ZVelocity": "z_velocity", "PlatformHeading": "platform_heading",
         "WanderAngle": "wander_angle", "XBodyAccel": "x_body_accel", "YBodyAccel": "y_body_accel",
         "ZBodyAccel": "z_body_accel", "XBodyAngRate": "x_body_ang_rate", "YBodyAngRate": "y_body_ang_rate",
         "ZBodyAngRate": "z_body_ang_rate"}
QUERIES = {"get_world_xs": ("easting", "x"), "get_world_ys": ("northing", "y"), "get_alts": ("height", "z"),
           "get_rolls": ("omega", "roll"), "get_pitches": ("phi", "pitch"), "get_headings": ("kappa", "azimuth")}


def times(r, n):
    kind = str(r.choice(["regular", "irregular", "bursts", "whole"]))
    start = float(r.choice([0.0, r.uniform(0, 604800), r.uniform(0, 604800), -r.uniform(0, 100)]))
    if kind == "regular":
        t = start + np.arange(n) * float(r.choice([0.005, 0.5, 1.0, 7.25]))
    elif kind == "whole":
        t = np.floor(start) + np.cumsum(r.integers(1, 6, n))
    else:
        gaps = r.uniform(0.1, 3, n) if kind == "irregular" else np.where(r.random(n) < 0.2, r.uniform(10, 500, n), r.uniform(0.004, 0.006, n))
        t = start + np.cumsum(gaps)
    return kind, np.round(t.astype(float), 6)


def walk(r, n, lo, hi, step):
    """A bounded random walk, without jumps across the ends of the range."""
    v = r.uniform(lo, hi) + np.cumsum(r.uniform(-step, step, n))
    span = hi - lo
    u = (v - lo) % (2 * span)
    return lo + np.where(u > span, 2 * span - u, u)


def eo_table(r, n, wrap=False):
    kind, t = times(r, n)
    cols = dict(gps_time=t, easting=walk(r, n, 2e5, 8e5, 40), northing=walk(r, n, 1e5, 9e6, 40), height=walk(r, n, -100, 9000, 8),
                omega=walk(r, n, -60, 60, 2), phi=walk(r, n, -60, 60, 2), kappa=walk(r, n, -180, 180, 20),
                lat=walk(r, n, -80, 84, 0.01), lon=walk(r, n, -180, 180, 0.01))
    return kind, cols


def fmt(r, v):
    if not np.isfinite(v):
        return "nan"
    k = r.integers(0, 5)
    return ("%.6f" % v, "%.3f" % v, repr(float(v)), "%.9e" % v, "%+.4f" % v)[k]


def write_eo(ctx, r, cols, hostile=True):
    """Write the table; returns the path and the values as the text holds them."""
    n = len(cols["gps_time"])
    nl = str(r.choice(["\n", "\r\n"]))
    sep = lambda: str(r.choice(["\t", " ", "   ", " \t "]))  # noqa: E731
    junk = ["", "   ", "# comment", "# 12 events in this file", "# 1 2", "POSPac MMS", "ID EVENT EASTING NORTHING ELLIPSOID HEIGHT OMEGA PHI KAPPA LAT LONG",
            "# POSPROC SBET file: sbet_Mission 1.out", "(sec) (m) (m) (m) (deg) (deg) (deg) (deg) (deg)", "=====", "1", "image_07 104.5",
            "img 1.5 2.5 3.5 4.5", "# kappa cardan rotation = 0.000 0.000 0.000", "Grid: Universal Transverse Mercator; Zone: UTM North 10; Datum: WGS84"]
    short = r.random() < 0.25
    lines, kept = [], {k: [] for k in EO}
    for _ in range(int(r.integers(0, 8)) if hostile else 0):
        lines.append(str(r.choice(junk)))
    full_time = {i: repr(float(cols["gps_time"][i])) for i in range(n)}
    for i in range(n):
        if hostile and r.random() < 0.08:
            lines.append(str(r.choice(junk)))
            ctx.cover("junk between records")
        text = [full_time[i]] + [fmt(r, cols[k][i]) for k in EO[1:]]
        vals = [float(v) for v in text]
        if short:
            m = 7
            text, vals = text[:m], vals[:m] + [np.nan] * (9 - m)
            ctx.cover("no latitude or longitude")
        elif hostile and r.random() < 0.1:
            text = text + [str(x) for x in r.choice(["0", "7", "3.25", "OK", "cam_2"], int(r.integers(1, 4)))]
            ctx.cover("extra columns")
        name = str(r.choice(["%d" % (i + 1), "IMG_%04d" % i, "2018-07-03T10:00:%02d" % (i % 60)]))
        lead = str(r.choice(["", "", "  ", "\t"]))
        lines.append(lead + name + sep() + "".join(v + sep() for v in text).rstrip())
        for k, v in zip(EO, vals):
            kept[k].append(v)
    if hostile and r.random() < 0.3:
        cut = int(r.integers(1, 7))
        lines.append("IMG_last " + " ".join(["%.3f" % (cols["gps_time"][-1] + 1)] + ["1.25"] * (cut - 1)))
        ctx.cover("file cut in its last record")
    text = nl.join(lines) + (nl if r.random() < 0.7 else "")
    p = ctx.path("eo_%d.txt" % r.integers(1e9))
    with open(p, "w", newline="") as f:
        f.write(text)
    return p, {k: np.array(v, float) for k, v in kept.items()}


def projection(r):
    k = r.integers(0, 3)
    if k == 0:
        z = int(r.integers(1, 61))
        return dict(proj="utm", zone=z if r.random() < 0.5 else str(z), ellps="WGS84", datum=str(r.choice(["WGS84", "NAD83"])))
    if k == 1:
        return dict(proj="longlat", zone=None if r.random() < 0.5 else "", ellps="WGS84", datum="WGS84")
    return dict(proj="merc", zone=None, ellps="WGS84", datum="WGS84")


def loaded(ctx, factory, path, pr):
    """A navigation solution of a file; sometimes of an object that had loaded another file before."""
    r = ctx.rng
    if r.random() < 0.8:
        return ctx.call(factory, path, pr["proj"], pr["zone"], pr["ellps"], pr["datum"])
    ctx.cover("loaded twice")
    n = int(r.choice([1, 2, 5, 30, 300]))
    if factory is NavFactory.from_applanix_eo_file:
        kind, cols = eo_table(r, n)
        other, table = write_eo(ctx, r, cols)
    else:
        kind, t = times(r, n)
        arr = np.zeros(n, dtype=[(v, "f8") for v in SBET])
        for v in SBET:
            arr[v] = walk(r, n, -3, 3, 0.05)
        arr["GpsTime"], table = t, {"gps_time": t}
        other = ctx.path("sbet_%d.out" % r.integers(1e9))
        env.FakePdalPipeline.FILES[other] = arr
    nav = ctx.call(factory, other, "utm", 17, "WGS84", "WGS84")
    for name in QUERIES:
        ctx.call(getattr(nav, name), ask(r, table, 3))
    ctx.call(nav.get_nav_records, float(table["gps_time"][0]))
    ctx.call(nav.load_from_file, path, pr["proj"], pr["zone"], pr["ellps"], pr["datum"])
    return nav


def make(ctx, source=None, n=None):
    """(navigation solution, table by key, names of the six channels' keys, projection arguments)."""
    r = ctx.rng
    source = source or str(r.choice(["eo", "sbet"]))
    n = n or ctx.many(int(r.choice([1, 2, 3, 10, 60, 400])), 20000)
    pr = projection(r)
    ctx.cover(source, "one record" if n == 1 else "few" if n < 5 else "many")
    if source == "eo":
        kind, cols = eo_table(r, n)
        path, table = write_eo(ctx, r, cols)
        ctx.given(source=source, n=n, file=path, projection=pr, times=kind)
        nav = loaded(ctx, NavFactory.from_applanix_eo_file, path, pr)
        which = 0
    else:
        kind, t = times(r, n)
        names = [str(v) for v in r.permutation(SBET)] if r.random() < 0.3 else SBET
        arr = np.zeros(n, dtype=[(v, "f8") for v in names])
        for v in names:
            arr[v] = walk(r, n, -3, 3, 0.05)
        arr["GpsTime"], arr["Z"] = t, walk(r, n, -100, 9000, 8)
        arr["X"], arr["Y"] = walk(r, n, -3.1, 3.1, 1e-4), walk(r, n, -1.5, 1.5, 1e-4)
        path = ctx.path("sbet_%d.out" % r.integers(1e9))
        env.FakePdalPipeline.FILES[path] = arr.copy()
        ctx.given(source=source, n=n, projection=pr, times=kind)
        nav = loaded(ctx, NavFactory.from_applanix_sbet_file, path, pr)
        table = {SNAKE[v]: arr[v].astype(float) for v in names}
        which = 1
    return nav, table, which, pr


def expected(table, key, t):
    t = np.asarray(t, float)
    T, V = table["gps_time"], table[key]
    if len(T) == 1:
        return np.full(t.shape, V[0])
    j = np.clip(np.searchsorted(T, t.ravel(), side="right") - 1, 0, len(T) - 2)
    f = (t.ravel() - T[j]) / (T[j + 1] - T[j])
    # an undefined neighbour does not spoil a record asked at its own time
    v = np.where(f == 0, V[j], np.where(f == 1, V[j + 1], V[j] + f * (V[j + 1] - V[j])))
    return v.reshape(t.shape)


def scale(table, key):
    """Rounding allowance: values of the channel, and the times' resolution against the gaps."""
    T, V = table["gps_time"], table[key]
    v = np.abs(V[np.isfinite(V)])
    top = float(v.max()) if v.size else 1.0
    gap = float(np.diff(T).min()) if len(T) > 1 else 1.0
    jump = float(np.nanmax(np.abs(np.diff(V)))) if len(T) > 1 and np.isfinite(V).sum() > 1 and not np.all(np.isnan(np.diff(V))) else 0.0
    return 1e-12 * top + 1e-12 + 8 * np.spacing(np.abs(T).max() + 1) / gap * (top * 1e-3 + jump) + 1e-14 * top * len(T)


def ask(r, table, n=24):
    T = table["gps_time"]
    rec = T[r.integers(0, len(T), n)]
    t = np.where(r.random(n) < 0.4, rec, r.uniform(T[0], T[-1], n))
    t[0], t[1] = T[0], T[-1]
    return r.permutation(np.clip(t, T[0], T[-1]))


@P.scenario(quick=1500, thorough=15000, monitors=("recorded", "between", "records"), big=10)
def channels(ctx):
    nav, table, which, pr = make(ctx)
    r = ctx.rng
    T = table["gps_time"]
    ctx.equal("records", ctx.call(nav.get_num_records), len(T), "number of records")
    for name, keys in QUERIES.items():
        key = keys[which]
        got = ctx.call(getattr(nav, name), T.copy())
        ctx.equal("recorded", np.asarray(got).shape, T.shape, "%s: one answer for each time" % name)
        ctx.close("recorded", got, table[key], "%s at the recorded times" % name, atol=scale(table, key), rtol=0)
        for i in (0, len(T) - 1, int(r.integers(0, len(T)))):
            ctx.close("recorded", ctx.call(getattr(nav, name), float(T[i])), table[key][i],
                      "%s at one recorded time" % name, atol=scale(table, key), rtol=0)
        t = ask(r, table, ctx.many(24, 100000))
        ctx.close("between", ctx.call(getattr(nav, name), t), expected(table, key, t), "%s at %s" % (name, t[:30]),
                  atol=scale(table, key), rtol=0)


@P.scenario(quick=800, thorough=8000, monitors=("shape", "pointwise"), big=8)
def shapes(ctx):
    nav, table, which, pr = make(ctx)
    r = ctx.rng
    n = 12 * ctx.many(1, 8000)
    for name in r.permutation(sorted(QUERIES))[:3]:
        key = QUERIES[name][which]
        q = getattr(nav, str(name))
        t = ask(r, table, n)
        base = ctx.call(q, t)
        ny, nx = [(n // 4, 4), (4, n // 4), (n // 3, 3), (1, n), (n, 1)][r.integers(0, 5)]
        grid = ctx.call(q, layout(r, t.reshape(ny, nx)))
        ctx.equal("shape", grid.shape, (ny, nx), "a grid of times gives a grid of answers")
        ctx.equal("pointwise", grid.ravel(), base, "a grid of times gives each time's answer")
        order = r.permutation(n)
        ctx.equal("pointwise", ctx.call(q, layout(r, t[order])), base[order], "the answer for a time does not depend on the others")
        some = ctx.call(q, t[order[:1]])
        ctx.equal("shape", some.shape, (1,), "one-element array")
        ctx.equal("pointwise", some, base[order[:1]], "one-element array")
        cell = ctx.call(q, t[order[:1]].reshape(1, 1))
        ctx.equal("shape", cell.shape, (1, 1), "a grid of one time")
        ctx.equal("pointwise", cell[0, 0], base[order[0]], "a grid of one time")
        i = int(r.integers(0, n))
        one = ctx.call(q, [float, np.float64][r.integers(0, 2)](t[i]))
        ctx.equal("shape", np.ndim(one), 0, "a number for a number")
        ctx.equal("pointwise", float(one), float(base[i]), "a number for a number")
        w = np.floor(t).astype(int)
        w = w[(w >= table["gps_time"][0]) & (w <= table["gps_time"][-1])]
        if w.size:
            ctx.cover("whole seconds")
            ctx.close("pointwise", ctx.call(q, w), expected(table, key, w), "times given as integers", atol=scale(table, key), rtol=0)
            ctx.close("pointwise", ctx.call(q, int(w[0])), expected(table, key, w[:1])[0], "time given as an integer",
                      atol=scale(table, key), rtol=0)
        ctx.equal("pointwise", ctx.call(q, t), base, "asking again gives the same answer")


@P.scenario(quick=600, thorough=6000, monitors=("complete", "values"), big=6)
def records(ctx):
    """Whole records: every channel of the table, together, at each time asked."""
    nav, table, which, pr = make(ctx)
    r = ctx.rng
    t = ask(r, table, 10)
    recs = ctx.call(nav.get_nav_records, t)
    ctx.equal("complete", len(recs), 10, "one record for each time")
    for k, rec in enumerate(recs):
        ctx.equal("complete", sorted(rec), sorted(table), "the record holds every channel")
        for key in table:
            ctx.close("values", rec[key], expected(table, key, t[k:k + 1])[0], "%s of the record at %r" % (key, t[k]),
                      atol=scale(table, key), rtol=0)
    one = ctx.call(nav.get_nav_records, float(t[0]))
    for key in table:
        ctx.close("values", one[key], expected(table, key, t[:1])[0], "%s of the record at one time" % key, atol=scale(table, key), rtol=0)
    g = ctx.call(nav.get_nav_records, t.reshape(5, 2))
    ctx.equal("complete", np.shape(g), (5, 2), "a grid of records")
    ctx.close("values", g[3, 1]["gps_time"], t[7], "record of a grid", atol=scale(table, "gps_time"), rtol=0)


@P.scenario(quick=400, thorough=4000, monitors=("outside", "projection"))
def limits(ctx):
    """Nothing is made up before the first or after the last record; the projection is the one named."""
    nav, table, which, pr = make(ctx)
    r = ctx.rng
    T = table["gps_time"]
    far = float(r.choice([1e-3, 0.5, 100.0, 1e5]))
    for bad in (T[0] - far, T[-1] + far):
        ctx.cover("before" if bad < T[0] else "after", far)
        for name in list(QUERIES) + ["get_nav_records"]:
            q = getattr(nav, name)
            for ask_ in (float(bad), np.array([bad]), np.array([T[0], bad, T[-1]]), np.array([[T[0], T[-1]], [bad, T[0]]])):
                try:
                    got = ctx.call(q, ask_)
                except (ValueError, IndexError, KeyError) as e:
                    ctx.check("outside", "index" not in str(e), "%s: refused by accident: %s" % (name, e))
                    continue
                if got is None:
                    ctx.check("outside", True, "")
                    continue
                v = np.ravel(got)[np.ravel(ask_) == bad]
                ctx.check("outside", name != "get_nav_records" and np.all(np.isnan(np.asarray(v, float))),
                          "%s made up a value outside the recorded times" % name, got=got)
    p = ctx.call(nav.get_projection)
    lon, lat = r.uniform(-179, 179, 6), r.uniform(-75, 75, 6)
    if pr["proj"] == "utm":
        lon = (-183 + 6 * int(pr["zone"])) + r.uniform(-3, 3, 6)
        lat = np.abs(lat)
        ref = pyproj.CRS.from_epsg((32600 if pr["datum"] == "WGS84" else 26900) + int(pr["zone"])) \
            if pr["datum"] == "WGS84" or 1 <= int(pr["zone"]) <= 23 else None
    else:
        ref = pyproj.CRS.from_epsg(4326 if pr["proj"] == "longlat" else 3395)
    if ref is not None:
        ctx.cover("projection", pr["proj"])
        tr = pyproj.Transformer.from_crs(4326, ref, always_xy=True)
        x, y = tr.transform(lon, lat)
        if pr["proj"] == "longlat":
            ctx.check("projection", p.crs.is_geographic, "geographic projection")
            px, py = lon, lat
        else:
            px, py = p(lon, lat)
        ctx.close("projection", px, x, "easting in the navigation's projection", atol=2.0 if pr["datum"] != "WGS84" else 1e-3, rtol=0)
        ctx.close("projection", py, y, "northing in the navigation's projection", atol=2.0 if pr["datum"] != "WGS84" else 1e-3, rtol=0)


@P.scenario(quick=20, thorough=100, monitors=("short way",))
def heading_through_north(ctx):
    """Between 359 and 1 degrees the platform heads north."""
    r = ctx.rng
    n = int(r.integers(2, 6))
    _, cols = eo_table(r, n)
    full, turn = (360.0, r.uniform(0.5, 20)) if r.random() < 0.5 else (2 * np.pi, r.uniform(0.01, 0.3))
    head = np.zeros(n)
    lo = -full / 2 if r.random() < 0.5 else 0.0
    head = lo + (np.where(np.arange(n) % 2, turn, -turn) % full)
    ctx.given(headings=head)
    if full == 360.0:
        cols["kappa"] = head
        p, table = write_eo(ctx, r, cols, hostile=False)
        nav, head = ctx.call(NavFactory.from_applanix_eo_file, p, "utm", 10, "WGS84", "WGS84"), table["kappa"]
    else:
        arr = np.zeros(n, dtype=[(v, "f8") for v in SBET])
        arr["GpsTime"], arr["Azimuth"] = cols["gps_time"], head
        p = ctx.path("wrap.out")
        env.FakePdalPipeline.FILES[p] = arr
        nav = ctx.call(NavFactory.from_applanix_sbet_file, p, "longlat", None, "WGS84", "WGS84")
    T = cols["gps_time"]
    f = r.uniform(0.2, 0.8)
    got = float(ctx.call(nav.get_headings, float(T[0] + f * (T[1] - T[0]))))
    d = (head[1] - head[0] + full / 2) % full - full / 2
    err = (got - (head[0] + f * d) + full / 2) % full - full / 2
    ctx.known_check("heading-wrap", "short way", abs(err) < 1e-3 * full / 360, "heading %r between %r and %r" % (got, head[0], head[1]))
