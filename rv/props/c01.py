"""C01: pixel -> ground -> pixel and ground -> pixel -> ground close."""
import numpy as np
from osgeo import gdal, osr
from rv.core import Registry
from rv import sensors as S
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.geotiff_point_calc import GeotiffPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.rpc_point_calc import RPCPointCalc

P = Registry("C01", "Random sensors of every kind (map grid, coordinate grid, RPC, pinhole, lens-distorted, Pix4D, "
                    "multi-band mount) at random places on Earth, attitudes (headings at multiples of 90 degrees "
                    "included), altitudes, bands and pixels (corners included); every conversion chain the library "
                    "answers is closed, natively and in eight other coordinate systems, and its ground answer is compared "
                    "with a reference inverse.")


def shape_pts(rng, n):
    return {"1d": (n,), "2d": (2, n // 2)}[str(rng.choice(["1d", "1d", "2d"]))]


def band_arg(s, b, rng):
    if s.nbands > 1:
        return b
    return [None, 0][int(rng.integers(0, 2))]


def chain(ctx, kind):
    r = ctx.rng
    opts = {"small": True} if r.random() < 0.15 and kind != "igm" else {}
    if kind == "pinhole" and r.random() < 0.3:
        opts["max_tilt"] = 60           # seen far from the side
    s = S.make(kind, r, **opts)
    n = 2 * ctx.many(6, 100000)
    x, y = s.pixels(r, n)
    alt = s.alts(r, n)
    name, wp = (("native", None) if r.random() < 0.4 else
                S.world_projs(r, *s.place)[int(r.integers(0, 9))])
    b = int(r.integers(0, s.nbands))
    barg = band_arg(s, b, r)
    shp = shape_pts(r, n)
    scalar_alt = r.random() < 0.3
    a = float(alt[0]) if scalar_alt else alt.reshape(shp)
    xs, ys = x.reshape(shp), y.reshape(shp)
    alt = np.zeros(n) + alt[0] if scalar_alt else alt
    ctx.given(kind=kind, nx=s.nx, ny=s.ny, x=x, y=y, alt=alt, proj=name, band=b, place=s.place)
    ctx.cover(kind, name)
    ctx.cover(kind, "2d" if len(shp) == 2 else "1d", "scalar-alt" if scalar_alt else "alts")
    c = s.calc
    kw = {}
    tol = s.tol
    iterative = kind in ("pinhole", "opencv", "pix4d", "rpc") or kind == "multiband"
    # a tighter threshold has to be honoured
    if iterative and r.random() < 0.3:
        kw["pixel_error_threshold"] = 1e-5
        tol = 2e-5
        ctx.cover("threshold", "tight")
    with np.errstate(all="ignore"):
        lo, la = ctx.call(c.pixel_x_y_alt_to_lon_lat, xs, ys, a, world_proj=wp, band=barg, **kw)
        px, py = ctx.call(c.lon_lat_alt_to_pixel_x_y, lo, la, a, world_proj=wp, band=barg)
    slack = 0.0 if wp is None else 2e-5 + (s.info.get("slack", 0))
    if kind == "geotiff":
        tol = 1e-4 + 1e-9 * max(s.nx, s.ny)
    if wp is not None:
        # the transformation itself is exact to about 2e-8 m (utm), i.e. this many pixels
        slack += 1e-6 / max(1e-12, float(np.min(step_m(s))))
    ctx.close("pixel-ground-pixel", px, xs.astype(float), "pixel x did not come back", atol=tol + slack, rtol=0)
    ctx.close("pixel-ground-pixel", py, ys.astype(float), "pixel y did not come back", atol=tol + slack, rtol=0)
    # against the reference inverse: the ground point itself
    gx, gy = s.ground(x, y, alt, b)
    if wp is None:
        nlo, nla = np.asarray(lo), np.asarray(la)
    else:
        nlo, nla = S.transform(wp, s.proj, lo, la)
    if s.ref is not None:
        g = s.gsd(gx, gy, alt, b)
        e = np.hypot(np.ravel(nlo) - gx, np.ravel(nla) - gy) / g
        t = tol * 1.5 + slack + 1e-9 * (abs(gx).max() + abs(gy).max()) / g.min() * 1e-3
        ctx.check("ground-position", np.all(e <= t), "ground position %.3g pixels away from the reference (allowed %.3g)"
                  % (np.max(e), t), x=x, y=y, alt=alt, got_x=nlo, got_y=nla, want_x=gx, want_y=gy)
    else:
        ctx.close("ground-position", np.ravel(nlo), gx, "ground x", atol=1e-9 + slack * s.info["step"], rtol=1e-9)
        ctx.close("ground-position", np.ravel(nla), gy, "ground y", atol=1e-9 + slack * s.info["step"], rtol=1e-9)
    # ground -> pixel -> ground, from reference ground points
    if not s.integer:
        if wp is None:
            qx, qy = gx, gy
        else:
            qx, qy = S.transform(s.proj, wp, gx, gy)
        with np.errstate(all="ignore"):
            u, v = ctx.call(c.lon_lat_alt_to_pixel_x_y, qx.reshape(shp), qy.reshape(shp), a, world_proj=wp, band=barg)
            bx, by = ctx.call(c.pixel_x_y_alt_to_lon_lat, u, v, a, world_proj=wp, band=barg, **kw)
        bx, by = (np.asarray(bx), np.asarray(by)) if wp is None else S.transform(wp, s.proj, bx, by)
        e = np.hypot(np.ravel(bx) - gx, np.ravel(by) - gy) / g
        ctx.check("ground-pixel-ground", np.all(e <= t),
                  "a ground point came back %.3g pixels away (allowed %.3g)" % (np.max(e), t), alt=alt, x=gx, y=gy)


def step_m(s):
    """Rough ground size of a pixel in metres."""
    if s.kind in ("geotiff", "igm"):
        unit = 111000.0 if s.info["native"] == "lonlat" else 0.3048 if s.info["native"] == "utm-feet" else 1.0
        if s.kind == "igm":
            return s.info["step"] * unit
        g = s.info["g"]
        return min(np.hypot(g[1], g[4]), np.hypot(g[2], g[5])) * unit
    if s.kind == "rpc":
        c = s.info["c"]
        return min(c["lon_scale"] / c["s_scale"], c["lat_scale"] / c["l_scale"]) * 50000
    return s.info["h"] * 1e-5


def _add(kind, q):
    def fn(ctx):
        chain(ctx, kind)
    fn.__name__ = "closure_" + kind
    mons = ["pixel-ground-pixel", "ground-position"] + ([] if kind == "igm" else ["ground-pixel-ground"])
    P.scenario(quick=q, thorough=q * 12, monitors=tuple(mons), big=3)(fn)


for _k, _q in (("pinhole", 250), ("opencv", 250), ("pix4d", 250), ("rpc", 250), ("geotiff", 150), ("igm", 150),
               ("multiband", 120)):
    _add(_k, _q)


@P.scenario(quick=30, thorough=400, monitors=("single-point",))
def single_points(ctx):
    """A single pixel, given as plain numbers, closes too."""
    r = ctx.rng
    kind = str(r.choice(["pinhole", "opencv", "pix4d", "rpc", "geotiff"]))
    s = S.make(kind, r)
    x, y = s.pixels(r, 6)
    i = int(r.integers(0, 6))
    x, y, alt = float(x[i]), float(y[i]), float(s.alts(r, 1)[0])
    ctx.given(kind=kind, x=x, y=y, alt=alt, place=s.place)
    ctx.cover(kind)
    with np.errstate(all="ignore"):
        lo, la = ctx.call(s.calc.pixel_x_y_alt_to_lon_lat, x, y, alt)
        u, v = ctx.call(s.calc.lon_lat_alt_to_pixel_x_y, float(lo), float(la), alt)
    ctx.close("single-point", u, x, "pixel x did not come back", atol=max(s.tol, 1e-3), rtol=0)
    ctx.close("single-point", v, y, "pixel y did not come back", atol=max(s.tol, 1e-3), rtol=0)


@P.scenario(quick=20, thorough=200, monitors=("file-closure", "file-model"))
def from_files(ctx):
    """Point calculators made from a GeoTIFF or from a file with RPC metadata."""
    r = ctx.rng
    if r.random() < 0.5:
        s = S.make("geotiff", r)
        nx, ny = int(r.integers(2, 60)), int(r.integers(2, 60))
        f = ctx.path("a.tif")
        d = gdal.GetDriverByName("GTiff").Create(f, nx, ny, 1, gdal.GDT_Byte)
        srs = osr.SpatialReference()
        srs.ImportFromProj4(s.proj.srs if "init" not in s.proj.srs else "+init=epsg:3857")
        d.SetProjection(srs.ExportToWkt())
        d.SetGeoTransform(s.info["g"])
        d = None
        ctx.cover("geotiff", s.info["native"])
        c = ctx.call(GeotiffPointCalc.init_from_file, f)
        tol = 1e-4
    else:
        s = S.make_rpc(r)
        nx, ny = 40, 30
        cc = s.info["c"]
        f = ctx.path("a.tif")
        d = gdal.GetDriverByName("GTiff").Create(f, nx, ny, 1, gdal.GDT_Byte)
        md = {"LINE_OFF": cc["l_off"], "SAMP_OFF": cc["s_off"], "LAT_OFF": cc["lat_off"], "LONG_OFF": cc["lon_off"],
              "HEIGHT_OFF": cc["h_off"], "LINE_SCALE": cc["l_scale"], "SAMP_SCALE": cc["s_scale"],
              "LAT_SCALE": cc["lat_scale"], "LONG_SCALE": cc["lon_scale"], "HEIGHT_SCALE": cc["h_scale"]}
        md = {k: repr(float(v)) for k, v in md.items()}
        for k, v in (("LINE_NUM_COEFF", "ln"), ("LINE_DEN_COEFF", "ld"), ("SAMP_NUM_COEFF", "sn"), ("SAMP_DEN_COEFF", "sd")):
            md[k] = " ".join(repr(float(q)) for q in cc[v])
        d.SetMetadata(md, "RPC")
        d = None
        ctx.cover("rpc")
        c = ctx.call(RPCPointCalc.init_from_file, f)
        tol = 0.0105
    n = 8
    x, y = r.uniform(0, s.nx, n), r.uniform(0, s.ny, n)
    alt = s.alts(r, n)
    ctx.given(kind=s.kind, x=x, y=y, alt=alt)
    with np.errstate(all="ignore"):
        lo, la = ctx.call(c.pixel_x_y_alt_to_lon_lat, x, y, alt)
        u, v = ctx.call(c.lon_lat_alt_to_pixel_x_y, lo, la, alt)
    ctx.close("file-closure", u, x, "pixel x did not come back", atol=tol, rtol=1e-9)
    ctx.close("file-closure", v, y, "pixel y did not come back", atol=tol, rtol=1e-9)
    rx, ry = s.ref(lo, la, alt)
    ctx.close("file-model", u, rx, "pixel x is not what the parameters in the file give", atol=1e-3, rtol=1e-9)
    ctx.close("file-model", v, ry, "pixel y is not what the parameters in the file give", atol=1e-3, rtol=1e-9)
