"""Generated sensors with independent reference projections (none of resippy's geometry code is used by ``ref``)."""
import numpy as np
from resippy.image_objects.image_factory import ImageFactory
import pyproj
from pyproj import Proj

from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.geotiff_point_calc import GeotiffPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.igm_point_calc import IGMPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.rpc_point_calc import RPCPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.opencv_point_calc import OpenCVPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc import Pix4dPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.earth_overhead_sensor_model import \
    EarthOverheadSensorModel
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.ideal_pinhole_fpa_local_utm_point_calc \
    import IdealPinholeFpaLocalUtmPointCalc

LL = Proj("+proj=longlat +datum=WGS84 +no_defs", preserve_units=True)


def transform(src, dst, x, y):
    """Reference reprojection (x = east/longitude first)."""
    t = pyproj.Transformer.from_crs(src.crs, dst.crs, always_xy=True)
    return t.transform(np.asarray(x, dtype=float), np.asarray(y, dtype=float))


def utm_zone(lon):
    return int(np.clip(np.floor((lon + 180) / 6) + 1, 1, 60))


def utm_proj(lon, lat):
    return Proj("+proj=utm +zone=%d %s+datum=WGS84 +units=m +no_defs" % (utm_zone(lon), "+south " if lat < 0 else ""),
                preserve_units=True)


def location(rng):
    """A place on Earth away from the poles, and away from UTM special zones."""
    lat = float(rng.choice([rng.uniform(-65, 55), rng.uniform(-2, 2), rng.uniform(30, 50)]))
    lon = float(rng.choice([rng.uniform(-176, 176), rng.uniform(-90, -60), rng.uniform(-4, 4)]))
    return lon, lat


def world_projs(rng, lon, lat):
    """Coordinate systems in which a caller may ask about a place."""
    z = utm_zone(lon)
    z2 = z + (1 if z < 60 and rng.random() < 0.5 else -1 if z > 1 else 1)
    south = "+south " if lat < 0 else ""
    c = [("lonlat", LL),
         ("epsg4326", Proj(init="epsg:4326")),
         ("epsg3857", Proj(init="epsg:3857")),
         ("utm", utm_proj(lon, lat)),
         ("utm-next-zone", Proj("+proj=utm +zone=%d %s+datum=WGS84" % (z2, south), preserve_units=True)),
         ("utm-feet", Proj("+proj=utm +zone=%d %s+datum=WGS84 +units=us-ft" % (z, south), preserve_units=True)),
         ("lcc", Proj("+proj=lcc +lat_1=%f +lat_2=%f +lon_0=%f +datum=WGS84"
                       % (lat - 1 if lat < 0 else lat + 1, lat - 3 if lat < 0 else lat + 3, lon + 1),
                       preserve_units=True)),
         ("merc", Proj("+proj=merc +datum=WGS84 +lon_0=%f" % lon, preserve_units=True)),
         ("EPSG:4326", Proj("EPSG:4326"))]
    return c


def rot(axis, a):
    c, s = np.cos(a), np.sin(a)
    if axis == 0:
        return np.array([[1, 0, 0], [0, c, s], [0, -s, c]])
    if axis == 1:
        return np.array([[c, 0, -s], [0, 1, 0], [s, 0, c]])
    return np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])


def attitude(rng, max_tilt_deg=40):
    """omega, phi, kappa of a downward looking camera, including exact multiples of 90 degrees of heading."""
    t = np.deg2rad(rng.choice([0.0, rng.uniform(0, 5), rng.uniform(0, max_tilt_deg)]))
    az = rng.uniform(0, 2 * np.pi)
    kappa = rng.choice([0.0, np.pi / 2, -np.pi / 2, np.pi, rng.uniform(-np.pi, np.pi), rng.uniform(-np.pi, np.pi)])
    return float(t * np.cos(az)), float(t * np.sin(az)), float(kappa)


def m_of(o, p, k):
    return rot(2, k) @ rot(1, p) @ rot(0, o)


class Sensor(object):
    def __init__(self, kind, calc, proj, nx, ny, ref, alt_lo, alt_hi, place, nbands=1, tol=0.0105, integer=False,
                 info=None, ground=None):
        self.kind, self.calc, self.proj, self.nx, self.ny = kind, calc, proj, nx, ny
        self.ref, self.alt_lo, self.alt_hi, self.place = ref, alt_lo, alt_hi, place
        self.nbands, self.tol, self.integer, self.info = nbands, tol, integer, info or {}
        self.ground = ground            # reference pixel -> native ground point at an altitude (exact, or None)

    def pixels(self, rng, n, inset=0.0):
        """Pixel positions inside the image, the corners included."""
        lo, hx, hy = inset, self.nx - 1 - inset, self.ny - 1 - inset
        x, y = rng.uniform(lo, hx, n), rng.uniform(lo, hy, n)
        c = [(lo, lo), (hx, lo), (lo, hy), (hx, hy), ((lo + hx) / 2, (lo + hy) / 2)]
        for i, (a, b) in enumerate(c):
            if i < n:
                x[i], y[i] = a, b
        if self.integer:
            return np.round(x).astype(int), np.round(y).astype(int)
        if rng.random() < 0.3:
            x, y = np.round(x), np.round(y)
        return x, y

    def alts(self, rng, n):
        return rng.uniform(self.alt_lo, self.alt_hi, n)

    def gsd(self, lon, lat, alt, band=0):
        """Local ground step (native units) of one pixel, from the reference model."""
        h = self.info.get("step", 1.0)
        x0, y0 = self.ref(lon, lat, alt, band)
        x1, y1 = self.ref(lon + h, lat, alt, band)
        x2, y2 = self.ref(lon, lat + h, alt, band)
        j = np.array([[x1 - x0, x2 - x0], [y1 - y0, y2 - y0]]) / h
        jm = np.moveaxis(j, -1, 0) if j.ndim == 3 else j
        return 1.0 / np.linalg.svd(jm, compute_uv=False)[..., -1]


def frame_ground(M, C, px_to_cam):
    """Reference inverse of a distortion free frame camera: pixel, altitude -> ground."""
    def g(px, py, alt, band=0):
        d = np.stack(px_to_cam(np.asarray(px, float), np.asarray(py, float)), axis=0)      # camera frame directions
        w = np.tensordot(M.T, d, axes=1)
        s = (alt - C[2]) / w[2]
        return C[0] + s * w[0], C[1] + s * w[1]
    return g


# ---------------------------------------------------------------------------------------------------------------
def make_pinhole(rng, max_tilt=40, small=False, via=None):
    lon, lat = location(rng)
    o, p, k = attitude(rng, max_tilt)
    h = float(10 ** rng.uniform(1.5, 4))
    nx, ny = (int(rng.integers(6, 24)), int(rng.integers(6, 24))) if small else \
        (int(rng.integers(20, 4000)), int(rng.integers(20, 4000)))
    fov = np.deg2rad(rng.uniform(2, 35))
    pitch = float(rng.choice([3.45e-6, 5e-6, 12e-6, 30e-6]))
    pitch_y = pitch * float(rng.choice([1.0, 1.0, rng.uniform(0.7, 1.4)]))
    f = max(nx * pitch, ny * pitch_y) / (2 * np.tan(fov / 2))
    flip_x, flip_y = bool(rng.random() < 0.4), bool(rng.random() < 0.4)
    via = via or rng.choice(["local", "wgs84"])
    ground_alt = float(rng.choice([0.0, rng.uniform(-300, 3000)]))
    alt = ground_alt + h
    deg = bool(rng.random() < 0.5)
    a_u = "degrees" if deg else "radians"
    ang = [np.rad2deg(v) if deg else v for v in (o, p, k)]
    pu, pv = [("micrometer", 1e6), ("millimeter", 1e3), ("meter", 1.0)][int(rng.integers(0, 3))]
    fu, fv = [("mm", 1e3), ("meter", 1.0), ("centimeter", 1e2)][int(rng.integers(0, 3))]
    au, av = [("meters", 1.0), ("kilometers", 1e-3), ("feet", 1 / 0.3048)][int(rng.integers(0, 3))]
    # each with its own unit, one time in three
    aus, puy, pvy = [a_u] * 3, pu, pv
    if rng.random() < 0.33:
        aus = [str(v) for v in rng.choice(["degrees", "radians"], 3)]
        ang = [np.rad2deg(v) if w == "degrees" else v for v, w in zip((o, p, k), aus)]
        puy, pvy = [("micrometer", 1e6), ("millimeter", 1e3), ("meter", 1.0)][int(rng.integers(0, 3))]
    kw = dict(alt_units=au, omega_units=aus[0], phi_units=aus[1], kappa_units=aus[2], pixel_pitch_x_units=pu,
              pixel_pitch_y_units=puy, focal_length_units=fu, flip_x=flip_x, flip_y=flip_y)
    rest = (ang[0], ang[1], ang[2], nx, ny, pitch * pv, pitch_y * pvy, f * fv)
    if via == "local":
        proj = utm_proj(lon, lat)
        X, Y = [float(v) for v in transform(LL, proj, lon, lat)]
        calc = IdealPinholeFpaLocalUtmPointCalc.init_from_local_params(X, Y, alt * av, proj, *rest, **kw)
    else:
        calc = IdealPinholeFpaLocalUtmPointCalc.init_from_wgs84_params(lon, lat, alt * av, *rest, **kw)
        proj = calc.get_projection()
        X, Y = [float(v) for v in transform(LL, utm_proj(lon, lat), lon, lat)]
    M = m_of(o, p, k)
    C = np.array([X, Y, alt])
    sx, sy = (-1 if flip_x else 1), (-1 if flip_y else 1)

    def ref(x, y, z, band=0):
        d = np.stack(np.broadcast_arrays(np.asarray(x, float) - C[0], np.asarray(y, float) - C[1],
                                         np.asarray(z, float) - C[2]))
        c = np.tensordot(M, d, axes=1)
        return (sx * -f * c[0] / c[2] / pitch + nx / 2.0, sy * -f * c[1] / c[2] / pitch_y + ny / 2.0)

    def to_cam(px, py):
        return (sx * (px - nx / 2.0) * pitch, sy * (py - ny / 2.0) * pitch_y, np.full(np.shape(px), -f))
    return Sensor("pinhole", calc, proj, nx, ny, ref, ground_alt - 0.1 * h, ground_alt + 0.3 * h, (lon, lat),
                  info=dict(o=o, p=p, k=k, C=C, f=f, via=via, flip=(flip_x, flip_y), M=M, h=h, units=(a_u, pu, fu, au),
                            step=h * 1e-4),
                  ground=frame_ground(M, C, to_cam))


def brown(x, y, k1, k2, k3, p1, p2):
    r2 = x * x + y * y
    rad = 1 + r2 * (k1 + r2 * (k2 + r2 * k3))
    return x * rad + 2 * p1 * x * y + p2 * (r2 + 2 * x * x), y * rad + p1 * (r2 + 2 * y * y) + 2 * p2 * x * y


def distortion(rng):
    if rng.random() < 0.15:
        return dict(k1=0.0, k2=0.0, k3=0.0, p1=0.0, p2=0.0)
    return dict(k1=float(rng.uniform(-0.2, 0.2)), k2=float(rng.uniform(-0.2, 0.2)), k3=float(rng.uniform(-0.2, 0.2)),
                p1=float(rng.uniform(-0.01, 0.01)), p2=float(rng.uniform(-0.01, 0.01)))


def make_opencv(rng, max_tilt=25, small=False, place=None, proj=None, base=None):
    lon, lat = place or location(rng)
    o, p, k = base["att"] if base else attitude(rng, max_tilt)
    h = base["h"] if base else float(10 ** rng.uniform(1.5, 3.3))
    nx, ny = base["size"] if base else ((int(rng.integers(6, 24)), int(rng.integers(6, 24))) if small else
                                        (int(rng.integers(40, 2000)), int(rng.integers(40, 2000))))
    fov = np.deg2rad(rng.uniform(10, 45))
    fx = max(nx, ny) / (2 * np.tan(fov / 2))
    fy = fx * rng.uniform(0.95, 1.05)
    cx, cy = nx / 2 + rng.uniform(-0.1, 0.1) * nx, ny / 2 + rng.uniform(-0.1, 0.1) * ny
    d = distortion(rng)
    bo = rng.uniform(-0.05, 0.05, 3) if rng.random() < 0.7 else np.zeros(3)
    lev = rng.uniform(-2, 2, 3) if rng.random() < 0.7 else np.zeros(3)
    proj = proj or utm_proj(lon, lat)
    X, Y = [float(v) for v in transform(LL, proj, lon, lat)]
    ground_alt = base["ga"] if base else float(rng.uniform(-100, 2000))
    alt = ground_alt + h
    params = dict(fx_pixels=fx, fy_pixels=fy, cx_pixels=cx, cy_pixels=cy, pixel_pitch_microns=3.75,
                  x_offset_meters=lev[0], y_offset_meters=lev[1], z_offset_meters=lev[2], omega_offset_radians=bo[0],
                  phi_offset_radians=bo[1], kappa_offset_radians=bo[2], band_number=1, **d)
    calc = OpenCVPointCalc.init_from_params(params)
    calc.set_projection(proj)
    calc.init_extrinsic(X, Y, alt, o, p, k)
    calc.set_approximate_lon_lat_center(X, Y)
    F = m_of(o, p, k)
    M = m_of(*bo) @ F
    C = np.array([X, Y, alt]) + F.T @ lev

    def ref(x, y, z, band=0):
        v = np.stack(np.broadcast_arrays(np.asarray(x, float) - C[0], np.asarray(y, float) - C[1],
                                         np.asarray(z, float) - C[2]))
        c = np.tensordot(M, v, axes=1)
        a, b = brown(c[0] / c[2], c[1] / c[2], **d)
        return fx * a + cx, -fy * b + cy

    def g0(px, py, alt, band=0):
        return frame_ground(M, C, lambda a, b: ((a - cx) / fx, -(b - cy) / fy, np.ones(np.shape(a))))(px, py, alt)

    s = Sensor("opencv", calc, proj, nx, ny, ref, ground_alt - 0.1 * h, ground_alt + 0.2 * h, (lon, lat),
               info=dict(o=o, p=p, k=k, X=(X, Y, alt), C=C, fx=fx, fy=fy, cx=cx, cy=cy, d=d, M=M, bo=bo, lev=lev, h=h, params=params,
                         step=h * 1e-4))
    s.ground0 = g0
    s.ground = invert(ref, g0, s.info["step"])
    return s


def pix4d_params(rng, name, proj, X, Y, alt, o, p, k, nx, ny):
    """A parameter dictionary as resippy's Pix4D reader makes it, for one image."""
    fov = np.deg2rad(rng.uniform(10, 45))
    width = float(rng.uniform(4, 36))
    ppm = nx / width
    F = max(nx, ny) / (2 * np.tan(fov / 2)) / ppm
    Px, Py = (nx / 2 + rng.uniform(-0.1, 0.1) * nx) / ppm, (ny / 2 + rng.uniform(-0.1, 0.1) * ny) / ppm
    d = distortion(rng)
    R = np.diag([1.0, -1.0, -1.0]) @ m_of(o, p, k)       # camera looks along +z, y down
    rd = np.array([d["k1"], d["k2"], d["k3"]])
    td = np.array([d["p1"], d["p2"]])
    return {"n_x_pixels": nx, "n_y_pixels": ny, "camera_matrix_k": np.array([[F * ppm, 0, Px * ppm], [0, F * ppm, Py * ppm],
                                                                          [0, 0, 1.0]]),
            "radial_distortion": rd, "tangential_distortion": td, "camera_position_t": np.array([[X, Y, alt]]),
            "camera_rotation_r": R, "external_params": [X, Y, alt, np.rad2deg(o), np.rad2deg(p), np.rad2deg(k)],
            "internal_params": {"F": F, "Px": Px, "Py": Py, "K1": d["k1"], "K2": d["k2"], "K3": d["k3"], "T1": d["p1"],
                                "T2": d["p2"], "fpa_width_mm": width, "fpa_height_mm": width * ny / nx}}, d


def pix4d_ref(par, d, dist=True, rev=(True, True)):
    R, C = np.asarray(par["camera_rotation_r"]), np.asarray(par["external_params"][:3])
    nx, ny = par["n_x_pixels"], par["n_y_pixels"]
    ppm = nx / par["internal_params"]["fpa_width_mm"]
    f, cx, cy = [par["internal_params"][q] * ppm for q in ("F", "Px", "Py")]

    def ref(x, y, z, band=0):
        v = np.stack(np.broadcast_arrays(np.asarray(x, float) - C[0], np.asarray(y, float) - C[1],
                                         np.asarray(z, float) - C[2]))
        c = np.tensordot(R, v, axes=1)
        a, b = c[0] / c[2], c[1] / c[2]
        if dist:
            a, b = brown(a, b, **d)
        return (f * a if rev[0] else -f * a) + cx, (f * b if rev[1] else -f * b) + cy

    def ground0(px, py, alt, band=0):
        return frame_ground(R, C, lambda a, b: ((a - cx) / f * (1 if rev[0] else -1), (b - cy) / f * (1 if rev[1] else -1),
                                                np.ones(np.shape(a))))(px, py, alt)
    return ref, ground0


def make_pix4d(rng, max_tilt=25, small=False):
    lon, lat = location(rng)
    o, p, k = attitude(rng, max_tilt)
    h = float(10 ** rng.uniform(1.5, 3.3))
    nx, ny = (int(rng.integers(6, 24)), int(rng.integers(6, 24))) if small else \
        (int(rng.integers(40, 2000)), int(rng.integers(40, 2000)))
    proj = utm_proj(lon, lat)
    X, Y = [float(v) for v in transform(LL, proj, lon, lat)]
    ga = float(rng.uniform(-100, 2000))
    par, d = pix4d_params(rng, "img_1.tif", proj, X, Y, ga + h, o, p, k, nx, ny)
    model = "regular" if rng.random() < 0.75 else None
    calc = Pix4dPointCalc.init_from_params("/data/img_1.tif", {"img_1.tif": par, "projection": proj},
                                           distortion_model=model)
    ref, g0 = pix4d_ref(par, d, dist=model == "regular")
    s = Sensor("pix4d", calc, proj, nx, ny, ref, ga - 0.1 * h, ga + 0.2 * h, (lon, lat),
               info=dict(o=o, p=p, k=k, h=h, model=model, par=par, d=d, step=h * 1e-4))
    s.ground0 = g0
    s.ground = invert(ref, g0, s.info["step"])
    return s


RPC_TERMS = [lambda L, P, H: 1.0 + 0 * L, lambda L, P, H: L, lambda L, P, H: P, lambda L, P, H: H,
             lambda L, P, H: L * P, lambda L, P, H: L * H, lambda L, P, H: P * H, lambda L, P, H: L ** 2,
             lambda L, P, H: P ** 2, lambda L, P, H: H ** 2, lambda L, P, H: P * L * H, lambda L, P, H: L ** 3,
             lambda L, P, H: L * P ** 2, lambda L, P, H: L * H ** 2, lambda L, P, H: L ** 2 * P,
             lambda L, P, H: P ** 3, lambda L, P, H: P * H ** 2, lambda L, P, H: L ** 2 * H,
             lambda L, P, H: P ** 2 * H, lambda L, P, H: H ** 3]


def rpc_ref(c):
    def ref(x, y, z, band=0):
        L = (np.asarray(x, float) - c["lon_off"]) / c["lon_scale"]
        Q = (np.asarray(y, float) - c["lat_off"]) / c["lat_scale"]
        H = (np.asarray(z, float) - c["h_off"]) / c["h_scale"]
        L, Q, H = np.broadcast_arrays(L, Q, H)

        def poly(a):
            return sum(a[i] * t(L, Q, H) for i, t in enumerate(RPC_TERMS))
        return (poly(c["sn"]) / poly(c["sd"]) * c["s_scale"] + c["s_off"] + 0.5,
                poly(c["ln"]) / poly(c["ld"]) * c["l_scale"] + c["l_off"] + 0.5)
    return ref


def rpc_coeffs(rng, lon, lat, nx, ny):
    amp = rng.choice([1e-4, 3e-3])
    gsd = rng.uniform(0.3, 5)
    dlon = gsd * nx / 2 / 111320.0 / np.cos(np.deg2rad(lat))
    dlat = gsd * ny / 2 / 110540.0
    def small():
        return rng.uniform(-1, 1, 20) * amp
    sn, ln, sd, ld = small(), small(), small(), small()
    a = np.deg2rad(rng.choice([0, rng.uniform(-30, 30)]))
    sn[1] += np.cos(a); sn[2] += np.sin(a) * 0.5; sn[3] += rng.uniform(-0.1, 0.1)
    ln[2] += -np.cos(a); ln[1] += np.sin(a) * 0.5; ln[3] += rng.uniform(-0.1, 0.1)
    sd[0] = ld[0] = 1.0
    return dict(sn=sn, sd=sd, ln=ln, ld=ld, s_scale=nx / 2.0, s_off=nx / 2.0 + rng.uniform(-5, 5),
                l_scale=ny / 2.0, l_off=ny / 2.0 + rng.uniform(-5, 5), lat_scale=dlat * 1.1, lat_off=lat,
                lon_scale=dlon * 1.1, lon_off=lon, h_scale=float(rng.uniform(100, 1000)),
                h_off=float(rng.uniform(-50, 2000)))


def rpc_calc(c):
    return RPCPointCalc.init_from_coeffs(c["sn"], c["sd"], c["s_scale"], c["s_off"], c["ln"], c["ld"], c["l_scale"],
                                         c["l_off"], c["lat_scale"], c["lat_off"], c["lon_scale"], c["lon_off"],
                                         c["h_scale"], c["h_off"])


def make_rpc(rng, small=False):
    lon, lat = location(rng)
    nx, ny = (int(rng.integers(6, 24)), int(rng.integers(6, 24))) if small else \
        (int(rng.integers(200, 30000)), int(rng.integers(200, 30000)))
    c = rpc_coeffs(rng, lon, lat, nx, ny)
    if small:
        c["s_off"], c["l_off"] = nx / 2.0, ny / 2.0
    ref = rpc_ref(c)
    calc = rpc_calc(c)
    step = c["lat_scale"] * 1e-3

    def g0(px, py, alt, band=0):
        return (np.full(np.shape(px), c["lon_off"]), np.full(np.shape(px), c["lat_off"]))
    s = Sensor("rpc", calc, calc.get_projection(), nx, ny, ref, c["h_off"] - 1.1 * c["h_scale"],
               c["h_off"] + 1.1 * c["h_scale"], (lon, lat), info=dict(c=c, step=step))
    s.ground0 = g0
    s.ground = invert(ref, g0, step)
    return s


def geot_for(rng, lon, lat, nx, ny, rotated=None):
    native = rng.choice(["utm", "lonlat", "epsg3857", "utm-feet"])
    proj = {"utm": utm_proj(lon, lat), "lonlat": LL, "epsg3857": Proj(init="epsg:3857"),
            "utm-feet": Proj("+proj=utm +zone=%d %s+datum=WGS84 +units=us-ft +no_defs"
                             % (utm_zone(lon), "+south " if lat < 0 else ""), preserve_units=True)}[str(native)]
    x, y = [float(v) for v in transform(LL, proj, lon, lat)]
    gsd = float(10 ** rng.uniform(-1, 2)) * (1 / 111000.0 if native == "lonlat" else 1.0)
    # stay on this side of the antimeridian, beyond which positions have two names
    room = (180.0 - abs(lon)) * (1.0 if native == "lonlat" else 111000.0)
    gsd = min(gsd, 0.2 * room / max(nx, ny))
    gy = gsd * float(rng.choice([1.0, rng.uniform(0.5, 2.0)]))
    rotated = (rng.random() < 0.4) if rotated is None else rotated
    if rotated:
        a = rng.uniform(-np.pi, np.pi)
        g = [x, gsd * np.cos(a), gy * np.sin(a), y, gsd * np.sin(a), -gy * np.cos(a)]
        if rng.random() < 0.25:
            # sheared along one axis only
            k, v = (2, gy) if rng.random() < 0.5 else (4, gsd)
            g = [x, gsd, 0.0, y, 0.0, -gy]
            g[k] = float(rng.uniform(0.1, 1.2) * rng.choice([-1, 1])) * v
    else:
        g = [x, gsd, 0.0, y, 0.0, -gy]
    return str(native), proj, [float(v) for v in g]


def make_geotiff(rng, small=False, rotated=None):
    lon, lat = location(rng)
    nx, ny = (int(rng.integers(6, 24)), int(rng.integers(6, 24))) if small else \
        (int(rng.integers(2, 20000)), int(rng.integers(2, 20000)))
    native, proj, g = geot_for(rng, lon, lat, nx, ny, rotated)
    calc = GeotiffPointCalc()
    calc.set_geot(g)
    calc.set_npix_x(nx)
    calc.set_npix_y(ny)
    calc.set_projection(proj)
    A = np.array([[g[1], g[2]], [g[4], g[5]]])
    Ai = np.linalg.inv(A)

    def ref(x, y, z=0, band=0):
        dx, dy = np.asarray(x, float) - g[0], np.asarray(y, float) - g[3]
        return Ai[0, 0] * dx + Ai[0, 1] * dy, Ai[1, 0] * dx + Ai[1, 1] * dy

    def ground(px, py, alt=0, band=0):
        px, py = np.asarray(px, float), np.asarray(py, float)
        return g[0] + px * g[1] + py * g[2], g[3] + px * g[4] + py * g[5]
    return Sensor("geotiff", calc, proj, nx, ny, ref, -500.0, 5000.0, (lon, lat), tol=1e-3,
                  info=dict(g=g, native=native, step=abs(g[1]) + abs(g[2])), ground=ground)


def make_igm(rng, small=True, native=None):
    """Per-pixel coordinates of a gently varying, rotated grid."""
    lon, lat = location(rng)
    nx, ny = int(rng.integers(4, 40)), int(rng.integers(4, 40))
    native = native or rng.choice(["utm", "lonlat"])
    proj = utm_proj(lon, lat) if native == "utm" else LL
    x0, y0 = [float(v) for v in transform(LL, proj, lon, lat)]
    gsd = float(rng.choice([1.0, 5.0, 30.0])) * (1e-5 if native == "lonlat" else 1.0)
    a = rng.uniform(-np.pi, np.pi)
    jj, ii = np.mgrid[0:ny, 0:nx].astype(float)
    w = rng.uniform(0, 0.15)
    u = ii + w * np.sin(jj * 0.7 + 1) + w * np.cos(ii * 0.5)
    v = jj + w * np.sin(ii * 0.6) - w * np.cos(jj * 0.8)
    lons = x0 + gsd * (np.cos(a) * u + np.sin(a) * v)
    lats = y0 + gsd * (np.sin(a) * u - np.cos(a) * v)
    alts = rng.uniform(0, 100, lons.shape)
    calc = IGMPointCalc(lons, lats, alts, proj)
    return Sensor("igm", calc, proj, nx, ny, None, 0.0, 100.0, (lon, lat), tol=0.06, integer=True,
                  info=dict(lons=lons, lats=lats, alts=alts, native=str(native), step=gsd),
                  ground=lambda px, py, alt=0, band=0: (lons[py, px], lats[py, px]))


def make_multiband(rng, small=False, n=None):
    """Bands with their own, not coregistered, lens-distorted cameras on one mount."""
    n = n or int(rng.integers(2, 5))
    place = location(rng)
    proj = utm_proj(*place)
    base = dict(att=attitude(rng, 15), h=float(10 ** rng.uniform(1.5, 3)), ga=float(rng.uniform(0, 500)),
                size=(int(rng.integers(8, 24)), int(rng.integers(8, 24))) if small else
                (int(rng.integers(40, 1500)), int(rng.integers(40, 1500))))
    subs = [make_opencv(rng, place=place, proj=proj, base=base) for _ in range(n)]
    m = EarthOverheadSensorModel()
    m.set_point_calcs([s.calc for s in subs])
    m.set_projection(proj)
    m._bands_coregistered = False
    if m.bands_coregistered():          # the flag has another name by now
        m.bands_coregistered = lambda: False
    m.set_approximate_lon_lat_center(*subs[0].calc.get_approximate_lon_lat_center())
    s0 = subs[0]
    s = Sensor("multiband", m, proj, s0.nx, s0.ny, lambda x, y, z, band=0: subs[band].ref(x, y, z), s0.alt_lo, s0.alt_hi,
               place, nbands=n, info=dict(subs=subs, h=base["h"], step=base["h"] * 1e-4))
    s.ground = lambda px, py, alt, band=0: subs[band].ground(px, py, alt)
    return s


def five_band_image(ctx, names, subs):
    """The image of five band files with a lens-distorted camera each."""
    factory = ImageFactory.micasense
    if hasattr(factory, "_from_point_calcs"):
        return ctx.call(factory._from_point_calcs, names, [s.calc for s in subs])
    im = ctx.call(factory.from_image_number_and_opencv, names, [dict(s.info["params"], band_number=b + 1) for b, s in enumerate(subs)])
    im.get_point_calculator().set_point_calcs([s.calc for s in subs])
    im.get_point_calculator().set_projection(subs[0].proj)
    return im


def invert(ref, g0, step):
    """Newton inverse of a reference projection at given altitude (used where no closed form exists)."""
    def g(px, py, alt, band=0):
        px, py = np.asarray(px, float), np.asarray(py, float)
        x, y = g0(px, py, alt)
        x, y = np.array(x, float), np.array(y, float)
        for _ in range(30):
            u, v = ref(x, y, alt)
            ux, vx = ref(x + step, y, alt)
            uy, vy = ref(x, y + step, alt)
            a, b, c, d = (ux - u) / step, (uy - u) / step, (vx - v) / step, (vy - v) / step
            ex, ey = px - u, py - v
            det = a * d - b * c
            x = x + (d * ex - b * ey) / det
            y = y + (a * ey - c * ex) / det
        return x, y
    return g


MAKERS = {"pinhole": make_pinhole, "opencv": make_opencv, "pix4d": make_pix4d, "rpc": make_rpc,
          "geotiff": make_geotiff, "igm": make_igm, "multiband": make_multiband}
KINDS = sorted(MAKERS)


def _redo_opencv(calc, s, rng):
    i, q = s.info, s.info["params"]
    steps = [lambda: calc.init_intrinsic(*[q[n] for n in ("fx_pixels", "fy_pixels", "cx_pixels", "cy_pixels", "k1", "k2", "k3",
                                                          "p1", "p2", "pixel_pitch_microns")]),
             lambda: calc.init_offsets(*[q[n] for n in ("x_offset_meters", "y_offset_meters", "z_offset_meters",
                                                        "omega_offset_radians", "phi_offset_radians", "kappa_offset_radians")]),
             lambda: calc.init_extrinsic(*(list(i["X"]) + [i["o"], i["p"], i["k"]])),
             lambda: (calc.set_projection(s.proj), calc.set_approximate_lon_lat_center(i["X"][0], i["X"][1]))]
    for n in rng.permutation(len(steps)):
        steps[n]()


def _redo_pix4d(calc, s, rng):
    names = [n for n in vars(s.calc) if not n.startswith("_")]
    for n in rng.permutation(names):
        setattr(calc, str(n), getattr(s.calc, str(n)))
    calc.set_projection(s.proj)
    calc.set_approximate_lon_lat_center(*s.calc.get_approximate_lon_lat_center())


def _redo_geotiff(calc, s, rng):
    steps = [lambda: calc.set_geot(s.info["g"]), lambda: (calc.set_npix_x(s.nx), calc.set_npix_y(s.ny)),
             lambda: calc.set_projection(s.proj)]
    for n in rng.permutation(len(steps)):
        steps[n]()


def _redo_multiband(calc, s, rng):
    subs = [c.calc for c in s.info["subs"]]
    if rng.random() < 0.5 and calc.get_num_point_calcs() <= len(subs):
        for n, c in enumerate(subs):
            if n < calc.get_num_point_calcs():
                calc.update_point_calc(n, c)
            else:
                calc.add_point_calc(c)
    else:
        calc.set_point_calcs(subs)
    calc.set_projection(s.proj)
    calc.set_approximate_lon_lat_center(*s.calc.get_approximate_lon_lat_center())


REDO = {"opencv": _redo_opencv, "pix4d": _redo_pix4d, "geotiff": _redo_geotiff, "multiband": _redo_multiband}


def use(s, rng):
    """Ask a sensor model something, as a caller would before re-configuring it."""
    b = int(rng.integers(0, s.nbands))
    px, py = s.pixels(rng, 3)
    alt = s.alts(rng, 3)
    with np.errstate(all="ignore"):
        x, y = s.ground(px, py, alt, b)
        for _ in range(int(rng.integers(1, 3))):
            s.calc.lon_lat_alt_to_pixel_x_y(x, y, alt, band=b)
        if rng.random() < 0.5:
            s.calc.lon_lat_alt_to_pixel_x_y(*transform(s.proj, LL, x, y), alt, world_proj=LL, band=b)
        if rng.random() < 0.5:
            s.calc.pixel_x_y_alt_to_lon_lat(px, py, alt, band=b)


def make(kind, rng, **kw):
    """A sensor; some of its point calculators have served another sensor before."""
    s = MAKERS[kind](rng, **kw)
    if kind in REDO and rng.random() < 0.2:
        old = MAKERS[kind](rng, **kw)
        use(old, rng)
        REDO[kind](old.calc, s, rng)
        s.calc = old.calc
        s.info["reused"] = True
    return s
