"""C02: ground points are imaged where the published model equations put them."""
import numpy as np
from osgeo import gdal
from rv.core import Registry
from rv import sensors as S
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pinhole_camera import PinholeCamera
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.rpc_point_calc import RPCPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc import Pix4dPointCalc
from resippy.utils.units import ureg

try:
    import cv2
except ImportError:       # the own reference still judges
    cv2 = None

P = Registry("C02", "Random parameter sets of every sensor model (all RPC00B terms, all distortion coefficients, all "
                    "attitudes, lever arms, boresights, pixel pitches and parameter units); ground points over and around "
                    "the footprint are projected and compared with independently written model equations, cv2.projectPoints "
                    "and GDAL's RPC transformer.", boost=5)


def ground_points(s, r, n, b=0):
    """Ground points over the footprint and somewhat outside it."""
    px = r.uniform(-0.2 * s.nx, 1.2 * s.nx, n)
    py = r.uniform(-0.2 * s.ny, 1.2 * s.ny, n)
    alt = s.alts(r, n)
    with np.errstate(all="ignore"):
        if hasattr(s, "ground0"):
            x, y = s.ground0(px, py, alt)
        elif s.kind == "multiband":
            x, y = s.info["subs"][b].ground0(px, py, alt)
        else:
            x, y = s.ground(px, py, alt, b)
    if s.kind == "rpc":
        c = s.info["c"]
        x = c["lon_off"] + c["lon_scale"] * r.uniform(-1, 1, n)
        y = c["lat_off"] + c["lat_scale"] * r.uniform(-1, 1, n)
    return x, y, alt


def _add(kind, q):
    def fn(ctx):
        r = ctx.rng
        s = S.make(kind, r)
        b = int(r.integers(0, s.nbands))
        x, y, alt = ground_points(s, r, ctx.many(16, 300000), b)
        ctx.given(kind=kind, x=x, y=y, alt=alt, band=b)
        name, wp = ("native", None)
        if r.random() < 0.25:
            name, wp = S.world_projs(r, *s.place)[int(r.integers(0, 9))]
        ctx.cover(kind, name)
        given = alt
        if r.random() < 0.25:
            # one altitude for all points, as a number of any type; whole altitudes
            given = alt = [float(alt[0]), np.float64(alt[0]), np.float32(np.round(alt[0])), int(alt[0]), np.round(alt).astype(int)][
                int(r.integers(0, 5))]
            alt = np.zeros(x.shape) + alt
            ctx.cover("altitudes", type(given).__name__, str(np.asarray(given).dtype), np.ndim(given))
        if wp is None and not s.proj.crs.is_geographic and r.random() < 0.3:
            # whole metres
            which = int(r.integers(0, 3))
            x = x if which == 0 else np.round(x).astype("i8" if r.random() < 0.5 else "i4")
            y = y if which == 1 else np.round(y).astype("i8")
            ctx.cover("whole metres", kind, which)
        qx, qy = (x, y) if wp is None else S.transform(s.proj, wp, x, y)
        x, y = np.asarray(x, float), np.asarray(y, float)
        with np.errstate(all="ignore"):
            u, v = ctx.call(s.calc.lon_lat_alt_to_pixel_x_y, qx, qy, given, world_proj=wp, band=b)
            ru, rv = s.ref(x, y, alt, b)
        # positions of millions of metres carry an error of 1e-9 m
        t = 1e-6 * max(1.0, s.nx, s.ny) * (1 if wp is None else 20)
        if s.kind == "geotiff":
            t = 1e-5 + 1e-7 * max(s.nx, s.ny) * (1 if wp is None else 100)
        if wp is not None:
            t += 2e-7 / max(1e-9, s.info["h"] * 1e-5 if "h" in s.info else 1e-2)
        ctx.close("model-x", u, ru, "%s: pixel x differs from the model equations" % kind, atol=t, rtol=1e-9)
        ctx.close("model-y", v, rv, "%s: pixel y differs from the model equations" % kind, atol=t, rtol=1e-9)
    fn.__name__ = "model_" + kind
    P.scenario(quick=q, thorough=q * 15, monitors=("model-x", "model-y"), big=3)(fn)


for _k, _q in (("pinhole", 250), ("opencv", 250), ("pix4d", 250), ("rpc", 250), ("geotiff", 150), ("multiband", 100)):
    _add(_k, _q)


@P.scenario(quick=100, thorough=1500, monitors=("opencv",))
def against_opencv(ctx):
    """cv2.projectPoints with the camera seen by OpenCV: x right, y down, z forward."""
    r = ctx.rng
    s = S.make("opencv", r)
    x, y, alt = ground_points(s, r, 12)
    i = s.info
    ctx.given(params=i["params"], x=x, y=y, alt=alt)
    ctx.cover("cv2" if cv2 is not None else "own-model")
    with np.errstate(all="ignore"):
        u, v = ctx.call(s.calc.lon_lat_alt_to_pixel_x_y, x, y, alt)
    if cv2 is None:
        ru, rv = s.ref(x, y, alt)
    else:
        d = i["d"]
        # the camera of the library: first row = x, v axis against the second row
        obj = np.stack([x, y, alt], axis=1) - i["C"]
        cam = obj @ i["M"].T
        k = np.array([[i["fx"], 0, i["cx"]], [0, -i["fy"], i["cy"]], [0, 0, 1.0]])
        out, _ = cv2.projectPoints(np.ascontiguousarray(cam).reshape(-1, 1, 3), np.zeros(3), np.zeros(3), k,
                                   np.array([d["k1"], d["k2"], d["p1"], d["p2"], d["k3"]]))
        ru, rv = out[:, 0, 0], out[:, 0, 1]
    ctx.close("opencv", u, ru, "pixel x differs from OpenCV", atol=1e-4, rtol=1e-7)
    ctx.close("opencv", v, rv, "pixel y differs from OpenCV", atol=1e-4, rtol=1e-7)


@P.scenario(quick=60, thorough=800, monitors=("gdal-rpc", "rpc-terms"))
def against_gdal_rpc(ctx):
    """GDAL's own RPC transformer, from the same file the point calculator is made from."""
    r = ctx.rng
    s = S.make_rpc(r)
    cc = s.info["c"]
    f = ctx.path("a.tif")
    d = gdal.GetDriverByName("GTiff").Create(f, 8, 8, 1, gdal.GDT_Byte)
    md = {"LINE_OFF": cc["l_off"], "SAMP_OFF": cc["s_off"], "LAT_OFF": cc["lat_off"], "LONG_OFF": cc["lon_off"],
          "HEIGHT_OFF": cc["h_off"], "LINE_SCALE": cc["l_scale"], "SAMP_SCALE": cc["s_scale"],
          "LAT_SCALE": cc["lat_scale"], "LONG_SCALE": cc["lon_scale"], "HEIGHT_SCALE": cc["h_scale"]}
    md = {k: repr(float(v)) for k, v in md.items()}
    for k, v in (("LINE_NUM_COEFF", "ln"), ("LINE_DEN_COEFF", "ld"), ("SAMP_NUM_COEFF", "sn"), ("SAMP_DEN_COEFF", "sd")):
        md[k] = " ".join(repr(float(q)) for q in cc[v])
    d.SetMetadata(md, "RPC")
    d = None
    c = ctx.call(RPCPointCalc.init_from_file, f)
    n = 10
    x = cc["lon_off"] + cc["lon_scale"] * r.uniform(-1, 1, n)
    y = cc["lat_off"] + cc["lat_scale"] * r.uniform(-1, 1, n)
    z = float(cc["h_off"] + cc["h_scale"] * r.uniform(-1, 1))
    ctx.given(x=x, y=y, z=z, coeffs=cc["sn"])
    u, v = ctx.call(c.lon_lat_alt_to_pixel_x_y, x, y, z)
    ds = gdal.Open(f)
    tr = gdal.Transformer(ds, None, ["METHOD=RPC"])
    got = [tr.TransformPoint(1, float(a), float(b), z) for a, b in zip(x, y)]
    ds = None
    gu = np.array([g[1][0] for g in got])
    gv = np.array([g[1][1] for g in got])
    ctx.close("gdal-rpc", u, gu, "pixel x differs from GDAL", atol=1e-6, rtol=1e-10)
    ctx.close("gdal-rpc", v, gv, "pixel y differs from GDAL", atol=1e-6, rtol=1e-10)
    # each term by itself
    k = int(r.integers(0, 20))
    e = np.zeros(20)
    e[k] = 1.0
    P_, L_, H_ = r.uniform(-1, 1, 5), r.uniform(-1, 1, 5), r.uniform(-1, 1, 5)
    ctx.cover("term", k)
    w = S.RPC_TERMS[k](L_, P_, H_)
    cc2 = dict(cc, sn=e, sd=S.np.eye(20)[0], ln=e, ld=S.np.eye(20)[0], s_scale=1.0, s_off=0.0, l_scale=1.0, l_off=0.0,
               lat_off=0.0, lat_scale=1.0, lon_off=0.0, lon_scale=1.0, h_off=0.0, h_scale=1.0)
    u, v = ctx.call(S.rpc_calc(cc2).lon_lat_alt_to_pixel_x_y, L_, P_, H_)
    ctx.close("rpc-terms", u, w + 0.5, "RPC00B term %d" % (k + 1), atol=1e-12, rtol=1e-12)
    ctx.close("rpc-terms", v, w + 0.5, "RPC00B term %d" % (k + 1), atol=1e-12, rtol=1e-12)


LEN = {"meters": 1.0, "millimeter": 1e-3, "km": 1e3, "feet": 0.3048, "inch": 0.0254, "micrometer": 1e-6, "cm": 1e-2}
ANG = {"radians": 1.0, "degrees": np.pi / 180, "mrad": 1e-3, "arcminute": np.pi / 180 / 60}


@P.scenario(quick=200, thorough=3000, monitors=("collinearity", "camera-state"))
def pinhole_units(ctx):
    """The bare pinhole camera, every parameter in its own unit."""
    r = ctx.rng
    lu = [str(q) for q in r.choice(sorted(LEN), 4)]
    au = [str(q) for q in r.choice(sorted(ANG), 3)]
    C = np.array([r.uniform(-1000, 1000), r.uniform(-1000, 1000), r.uniform(50, 5000)])
    o, p, k = S.attitude(r, 60)
    f = float(r.uniform(0.005, 2))
    ctx.given(C=C, opk=[o, p, k], f=f, lu=lu, au=au)
    for q in lu + au:
        ctx.cover("unit", q)
    cam = PinholeCamera()
    ctx.call(cam.init_pinhole_from_coeffs, C[0] / LEN[lu[0]], C[1] / LEN[lu[1]], C[2] / LEN[lu[2]], o / ANG[au[0]],
             p / ANG[au[1]], k / ANG[au[2]], f / LEN[lu[3]], x_units=lu[0], y_units=lu[1], z_units=lu[2],
             omega_units=au[0], phi_units=au[1], kappa_units=au[2], focal_length_units=lu[3])
    M = S.m_of(o, p, k)
    w = C[:, None] + M.T @ np.stack([r.uniform(-0.4, 0.4, 9), r.uniform(-0.4, 0.4, 9), -np.ones(9)]) * r.uniform(10, 900, 9)
    x, y = ctx.call(cam.world_to_image_plane, w[0], w[1], w[2])
    c = M @ (w - C[:, None])
    ctx.close("collinearity", np.asarray(x), -f * c[0] / c[2], "image x", atol=1e-9 * f, rtol=1e-7)
    ctx.close("collinearity", np.asarray(y), -f * c[1] / c[2], "image y", atol=1e-9 * f, rtol=1e-7)
    ctx.close("camera-state", np.asarray(cam.M, dtype=float), M, "rotation matrix", atol=1e-12)
    ctx.close("camera-state", [cam.X, cam.Y, cam.Z, cam.f], [C[0], C[1], C[2], f], "position or focal length in metres",
              atol=1e-9, rtol=1e-12)
    ctx.close("camera-state", [cam.omega, cam.phi, cam.kappa], [o, p, k], "angles in radians", atol=1e-14, rtol=1e-12)


@P.scenario(quick=80, thorough=800, monitors=("ifov",))
def pinhole_ifov(ctx):
    r = ctx.rng
    s = S.make_pinhole(r, small=bool(r.random() < 0.4))
    f = s.info["f"]
    c = s.calc
    u, v = str(r.choice(["microradians", "degrees", "radians", "mrad"])), str(r.choice(["microradians", "degrees"]))
    ctx.given(units=[u, v], f=f)
    ctx.cover(u)
    sc = {"microradians": 1e6, "degrees": 180 / np.pi, "radians": 1.0, "mrad": 1e3}
    # a pixel at the optical axis subtends the angle between two neighbouring lines of sight
    M, C = s.info["M"], s.info["C"]
    d = 1000.0
    n = C - M.T @ np.array([0, 0, d])
    px = []
    for ax, fn in ((0, c.compute_ifov_x), (1, c.compute_ifov_y)):
        unit = u if ax == 0 else v
        ang = ctx.call(fn, output_units=unit) / sc[unit]
        w = n + M.T @ (np.eye(3)[ax] * d * np.tan(ang))
        a = s.ref(n[0], n[1], n[2])
        b = s.ref(w[0], w[1], w[2])
        px.append(abs(b[ax] - a[ax]))
    ctx.close("ifov", px, [1.0, 1.0], "a pixel does not subtend its IFOV", atol=1e-6)
    ctx.close("ifov", ctx.call(c.compute_ifov_x), ctx.call(c.compute_ifov_x, output_units="radians") * 1e6, "default unit",
              rtol=1e-9)


@P.scenario(quick=120, thorough=1500, monitors=("pix4d-variants", "pix4d-stages"))
def pix4d_variants(ctx):
    """Distortion on or off, pixel axes reversed or not."""
    r = ctx.rng
    s = S.make("pix4d", r)
    par, d, calc = s.info["par"], s.info["d"], s.calc
    rx, ry = bool(r.random() < 0.5), bool(r.random() < 0.5)
    dist = "regular" if r.random() < 0.5 else None
    ctx.cover(rx, ry, dist)
    ref, g0 = S.pix4d_ref(par, d, dist=dist == "regular", rev=(rx, ry))
    px, py, alt = r.uniform(0, s.nx, 10), r.uniform(0, s.ny, 10), s.alts(r, 10)
    x, y = s.ground0(px, py, alt)
    ctx.given(x=x, y=y, alt=alt, rev=[rx, ry], dist=dist)
    out = ctx.call(calc.world_xyzs_to_pixel_locations, x, y, alt, distortion_model=dist, reverse_y_pixels=ry,
                   reverse_x_pixels=rx)
    calc.distortion_model = dist
    # un-reversed: the principal point stays where the parameters put it, and the focal axis changes sign
    u, v = ref(x, y, alt)
    if rx == calc.reverse_x_pixels and ry == calc.reverse_y_pixels:
        ctx.close("pix4d-variants", out[0], u, "x", atol=1e-6 * s.nx, rtol=1e-9)
        ctx.close("pix4d-variants", out[1], v, "y", atol=1e-6 * s.ny, rtol=1e-9)
    calc.reverse_x_pixels, calc.reverse_y_pixels = rx, ry
    pu, pv = ctx.call(calc.lon_lat_alt_to_pixel_x_y, x, y, alt)
    ctx.close("pix4d-variants", pu, u, "x with reversal %s" % rx, atol=1e-6 * s.nx, rtol=1e-9)
    ctx.close("pix4d-variants", pv, v, "y with reversal %s" % ry, atol=1e-6 * s.ny, rtol=1e-9)
    R, C = np.asarray(par["camera_rotation_r"]), np.asarray(par["external_params"][:3])
    cc = ctx.call(calc.world_to_camera_coordinates, np.stack([x, y, alt]))
    ctx.close("pix4d-stages", cc, R @ (np.stack([x, y, alt]) - C[:, None]), "camera coordinates", atol=1e-6, rtol=1e-9)


@P.scenario(quick=60, thorough=500, monitors=("mount",))
def mounts(ctx):
    """A multi-band sensor answers each band with that band's own camera, also after replacing cameras."""
    r = ctx.rng
    s = S.make("multiband", r)
    m, subs = s.calc, list(s.info["subs"])
    ctx.given(n=len(subs))
    ctx.check("mount", m.get_num_point_calcs() == len(subs), "number of point calculators")
    if r.random() < 0.7:
        i = int(r.integers(0, len(subs)))
        base = dict(att=(subs[0].info["o"], subs[0].info["p"], subs[0].info["k"]), h=s.info["h"], ga=100.0,
                    size=(s.nx, s.ny))
        new = S.make("opencv", r, place=s.place, proj=s.proj, base=base)
        if r.random() < 0.5:
            ctx.call(m.update_point_calc, i, new.calc)
            subs[i] = new
            ctx.cover("update")
        else:
            ctx.call(m.add_point_calc, new.calc)
            subs.append(new)
            ctx.cover("add")
    order = r.permutation(len(subs))
    for i in order:
        x, y, alt = ground_points(subs[i], r, 5)
        u, v = ctx.call(m.lon_lat_alt_to_pixel_x_y, x, y, alt, band=int(i))
        ru, rv = subs[i].ref(x, y, alt)
        ctx.close("mount", u, ru, "band %d x" % i, atol=1e-3, rtol=1e-9)
        ctx.close("mount", v, rv, "band %d y" % i, atol=1e-3, rtol=1e-9)
        ctx.check("mount", m.get_point_calc(int(i)) is subs[i].calc, "point calculator of band %d" % i)
