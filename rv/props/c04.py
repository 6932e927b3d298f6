"""C04: rotation matrices, recovered angles, camera mounts, boresights and their units."""
import numpy as np
from rv.core import Registry
from rv import sensors as S
from resippy.utils import photogrammetry_utils as pu
from resippy.utils import pix4d_utils
from resippy.utils.units import ureg
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.fixtured_camera import FixturedCamera
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.opencv_point_calc import OpenCVPointCalc

P = Registry("C04", "Random and singular angles (multiples of 90 degrees, tiny angles, near gimbal lock), all six rotation "
                    "orders and unknown ones, plain and unit-carrying angles, mounts with lever arms and boresights in "
                    "mixed units; the monitor composes elementary rotations itself.", boost=6)

ORDERS = ["rpy", "ryp", "pry", "pyr", "yrp", "ypr"]
ANG = {"radians": 1.0, "degrees": np.pi / 180, "mrad": 1e-3, "arcminute": np.pi / 180 / 60, "arcsecond": np.pi / 648000,
       "microradians": 1e-6}
LEN = {"meters": 1.0, "millimeter": 1e-3, "cm": 1e-2, "inch": 0.0254, "feet": 0.3048, "km": 1e3}


def angle(r):
    return float(r.choice([0.0, np.pi / 2, -np.pi / 2, np.pi, r.uniform(-np.pi, np.pi), r.uniform(-np.pi, np.pi),
                           r.uniform(-np.pi, np.pi), r.uniform(-1e-6, 1e-6), np.pi / 2 - r.uniform(0, 1e-5)]))


def product(o, p, k, order):
    m = np.eye(3)
    for ch in order:                       # first letter turns first
        m = {"r": S.rot(0, o), "p": S.rot(1, p), "y": S.rot(2, k)}[ch] @ m
    return m


@P.scenario(quick=500, thorough=8000, monitors=("proper", "product"))
def matrices(ctx):
    r = ctx.rng
    o, p, k = angle(r), angle(r), angle(r)
    order = ORDERS[int(r.integers(0, 6))]
    ctx.given(o=o, p=p, k=k, order=order)
    ctx.cover(order)
    if order == "rpy" and r.random() < 0.5:
        m = ctx.call(pu.create_M_matrix, o, p, k)
        ctx.cover("default-order")
    elif r.random() < 0.3:
        q = ureg["radians"]
        m = ctx.call(pu.create_M_matrix, o * q, p * q, k * q, order=order)
        ctx.cover("with-units")
    else:
        m = ctx.call(pu.create_M_matrix, o, p, k, order=order)
    m = np.asarray(m, dtype=float)
    ctx.close("proper", m @ m.T, np.eye(3), "the matrix is not orthogonal", atol=1e-12)
    ctx.close("proper", np.linalg.det(m), 1.0, "the matrix is not a proper rotation", atol=1e-12)
    ctx.close("product", m, product(o, p, k, order), "the matrix is not the product of its rotations (%s)" % order, atol=1e-12)


@P.scenario(quick=40, monitors=("refused",))
def unknown_orders(ctx):
    r = ctx.rng
    bad = ["xyz", "", "rp", "rpyr", "RPY", "opk", "rrr", "yaw", None, "zyx", "r p y", "py"][ctx.index % 12]
    ctx.given(order=bad)
    ctx.cover(bad)
    ctx.must_raise("refused", pu.create_M_matrix, "an unknown rotation order gave a matrix", 0.1, 0.2, 0.3, order=bad)
    c = FixturedCamera()
    ctx.must_raise("refused", c.set_fixture_orientation_by_roll_pitch_yaw, "an unknown rotation order was accepted", 0.1, 0.2,
                   0.3, order=bad)


@P.scenario(quick=500, thorough=8000, monitors=("recovered", "same-angles"))
def recover_angles(ctx):
    r = ctx.rng
    o, p, k = angle(r), angle(r), angle(r)
    via = str(r.choice(["rpy", "any-order", "composed"]))
    if via == "rpy":
        m = S.m_of(o, p, k)
    elif via == "any-order":
        m = product(o, p, k, ORDERS[int(r.integers(0, 6))])
    else:
        m = S.m_of(o, p, k) @ S.m_of(angle(r), angle(r), angle(r))
    ctx.given(m=m)
    ctx.cover(via)
    a, b, c = [float(v) for v in ctx.call(pu.solve_for_omega_phi_kappa, m)]
    m2 = np.asarray(ctx.call(pu.create_M_matrix, a, b, c), float)
    ctx.close("recovered", m2, m, "the recovered angles do not rebuild the matrix", atol=1e-7)
    if via == "rpy" and abs(p) < np.pi / 2 - 1e-3:
        d = np.array([a - o, b - p, c - k])
        d = (d + np.pi) % (2 * np.pi) - np.pi
        ctx.close("same-angles", d, np.zeros(3), "recovered angles are not the angles (pitch below 90 degrees)", atol=1e-7)
    elif ctx.mode == "normal":
        ctx.count("same-angles", 0)


@P.scenario(quick=150, thorough=2000, monitors=("boresight",))
def boresight(ctx):
    """Offsets solved from a rough and an ideal attitude take the one to the other."""
    r = ctx.rng
    rough = product(angle(r), angle(r), angle(r), ORDERS[int(r.integers(0, 6))])
    ideal = product(angle(r), angle(r), angle(r), ORDERS[int(r.integers(0, 6))])
    ctx.given(rough=rough, ideal=ideal)
    off = ctx.call(pu.solve_for_boresight_angle_offsets, rough, ideal)
    ctx.close("boresight", rough @ off, ideal, "the offsets do not take the rough attitude to the ideal one", atol=1e-10)
    o, p, k = ctx.call(pu.solve_for_omega_phi_kappa, off)
    ctx.close("boresight", rough @ S.m_of(float(o), float(p), float(k)), ideal, "offset angles do not reproduce the pair",
              atol=1e-7)


@P.scenario(quick=300, thorough=4000, monitors=("mount-rotation", "mount-position"))
def mounts(ctx):
    r = ctx.rng
    au = [str(q) for q in r.choice(sorted(ANG), 6)]
    lu = [str(q) for q in r.choice(sorted(LEN), 3)]
    of, ob = ORDERS[int(r.integers(0, 6))], ORDERS[int(r.integers(0, 6))]
    f = [angle(r) for _ in range(3)]
    b = [angle(r) for _ in range(3)]
    lev = r.uniform(-5, 5, 3)
    xyz = r.uniform(-1000, 1000, 3)
    ctx.given(f=f, b=b, lev=lev, xyz=xyz, au=au, lu=lu, of=of, ob=ob)
    for q in au + lu:
        ctx.cover("unit", q)
    ctx.cover("orders", of, ob)
    cam = FixturedCamera()

    def set_fix():
        if r.random() < 0.3:
            ctx.call(cam.set_fixture_orientation, product(*f, order=of))
            ctx.cover("orientation-matrix")
        else:
            ctx.call(cam.set_fixture_orientation_by_roll_pitch_yaw, f[0] / ANG[au[0]], f[1] / ANG[au[1]], f[2] / ANG[au[2]],
                     roll_units=au[0], pitch_units=au[1], yaw_units=au[2], order=of)

    def set_bore():
        if r.random() < 0.3:
            ctx.call(cam.set_boresight_matrix, product(*b, order=ob))
        else:
            ctx.call(cam.set_boresight_matrix_from_camera_relative_rpy_params, b[0] / ANG[au[3]], b[1] / ANG[au[4]],
                     b[2] / ANG[au[5]], roll_units=au[3], pitch_units=au[4], yaw_units=au[5], order=ob)

    def set_lev():
        ctx.call(cam.set_relative_camera_xyz, lev[0] / LEN[lu[0]], lev[1] / LEN[lu[1]], lev[2] / LEN[lu[2]], x_units=lu[0],
                 y_units=lu[1], z_units=lu[2])

    steps = [set_fix, set_bore, set_lev, lambda: ctx.call(cam.set_fixture_xyz, *[float(v) for v in xyz])]
    for i in r.permutation(4):
        steps[int(i)]()
    F, B = product(*f, order=of), product(*b, order=ob)

    def judge():
        ctx.close("mount-rotation", np.asarray(ctx.call(cam.get_camera_absolute_M_matrix), float), B @ F,
                  "camera rotation is not boresight after mount", atol=1e-11)
        got = ctx.call(cam.get_camera_absolute_xyz)
        ctx.close("mount-position", np.array([float(v) for v in got]), xyz + F.T @ lev, "camera position is not mount + lever arm",
                  atol=1e-9, rtol=1e-10)
        ctx.close("mount-position", np.array([float(v) for v in ctx.call(cam.get_fixture_xyz)]), xyz, "mount position", atol=0,
                  rtol=0)
    judge()
    # the platform moves on: only what is set again changes
    if r.random() < 0.6:
        f = [angle(r) for _ in range(3)]
        set_fix()
        F = product(*f, order=of)
        judge()
        xyz = r.uniform(-1000, 1000, 3)
        ctx.call(cam.set_fixture_xyz, *[float(v) for v in xyz])
        judge()
        ctx.cover("moved")


@P.scenario(quick=120, thorough=1500, monitors=("camera-moves",))
def opencv_camera_moves(ctx):
    """A camera on a moving platform: new extrinsics or offsets replace the old ones completely, in any order."""
    r = ctx.rng
    s = S.make("opencv", r)
    i = s.info
    calc = OpenCVPointCalc()
    calc.set_projection(s.proj)
    p = i["params"]
    intr = [p[q] for q in ("fx_pixels", "fy_pixels", "cx_pixels", "cy_pixels", "k1", "k2", "k3", "p1", "p2",
                           "pixel_pitch_microns")]
    ctx.given(params=p)
    k_ = [lambda: ctx.call(calc.init_intrinsic, *intr),
          lambda: ctx.call(calc.init_offsets, *i["lev"], *i["bo"])]
    X = i["C"] - S.m_of(i["o"], i["p"], i["k"]).T @ i["lev"]
    ext = lambda: ctx.call(calc.init_extrinsic, X[0], X[1], X[2], i["o"], i["p"], i["k"])
    # an older pose first
    if r.random() < 0.5:
        ctx.call(calc.init_extrinsic, X[0] + 100, X[1] - 50, X[2] + 7, 0.1, -0.05, 2.0)
        ctx.call(calc.init_offsets, 1.0, 2.0, 3.0, 0.3, 0.2, 0.1)
        ctx.cover("moved")
    steps = k_ + [ext]
    for j in r.permutation(3):
        steps[int(j)]()
    px, py, alt = r.uniform(0, s.nx, 8), r.uniform(0, s.ny, 8), s.alts(r, 8)
    x, y = s.ground0(px, py, alt)
    u, v = ctx.call(calc.lon_lat_alt_to_pixel_x_y, x, y, alt)
    ru, rv = s.ref(x, y, alt)
    ctx.close("camera-moves", u, ru, "pixel x after moving the camera", atol=1e-6 * s.nx + 1e-6, rtol=1e-9)
    ctx.close("camera-moves", v, rv, "pixel y after moving the camera", atol=1e-6 * s.ny + 1e-6, rtol=1e-9)


@P.scenario(quick=150, thorough=1500, monitors=("pix4d-rotation",))
def pix4d_rotation(ctx):
    """Pix4D's omega-phi-kappa matrix is the transpose of the photogrammetric one."""
    r = ctx.rng
    o, p, k = angle(r), angle(r), angle(r)
    ctx.given(o=o, p=p, k=k)
    m = ctx.call(pix4d_utils.create_r_matrix, [1.0, 2.0, 3.0, np.rad2deg(o), np.rad2deg(p), np.rad2deg(k)])
    ctx.close("pix4d-rotation", m, S.m_of(o, p, k).T, "Pix4D rotation matrix", atol=1e-12)
