"""C23: images simulated for a camera from a map."""
import numpy as np
from rv.core import Registry
from rv import images, sensors as S
from rv.props.c04 import ANG, ORDERS, product
from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory
from resippy.utils.physical_camera_simulator import PhysicalCameraSimulator

P = Registry("C23", "Map images (four data types, upright and rotated grids, several bands) with analytic content, cameras "
                    "with boresights in all rotation orders, attitudes and positions in mixed units, map projections other "
                    "than that of the camera, footprints inside and beyond the map, several exposures of one simulator; the "
                    "monitor computes the ground point of each pixel with its own camera and the map value analytically.", boost=2)
LEN = {"meters": 1.0, "feet": 0.3048, "kilometers": 1e3}
PITCH = {"micrometer": 1e-6, "millimeter": 1e-3, "meter": 1.0}
FOC = {"mm": 1e-3, "meter": 1.0, "centimeter": 1e-2}


class Scene(object):
    def __init__(self, ctx):
        r = ctx.rng
        self.lon, self.lat = S.location(r)
        self.proj = S.utm_proj(self.lon, self.lat)
        self.X, self.Y = [float(v) for v in S.transform(S.LL, self.proj, self.lon, self.lat)]
        self.ny, self.nx = ctx.shape(4, 30, 400000)
        self.h = float(10 ** r.uniform(1.5, 3.7))
        fov = np.deg2rad(r.uniform(4, 35))
        self.px = float(r.choice([3.45e-6, 5e-6, 30e-6]))
        self.py = self.px * float(r.choice([1.0, r.uniform(0.7, 1.4)]))
        self.f = max(self.nx * self.px, self.ny * self.py) / (2 * np.tan(fov / 2))
        self.foot = 2 * self.h * np.tan(fov / 2)
        self.bore = np.deg2rad(r.uniform(-6, 6, 3)) if r.random() < 0.7 else np.zeros(3)
        self.border = ORDERS[int(r.integers(0, 6))]

    def map(self, ctx, dtype):
        """A map with a smooth content that can be evaluated anywhere."""
        r = ctx.rng
        n, m = (int(v) for v in r.integers(60, 900 if ctx.big else 140, 2))
        size = self.foot * float(r.uniform(2.0, 5.0))
        d = size / min(n, m)
        a = float(r.choice([0.0, 0.0, r.uniform(0, 2 * np.pi)]))
        c = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]]) @ np.diag([d, -d])
        o = np.array([self.X, self.Y]) + r.uniform(-0.6, 0.6, 2) * size - c @ np.array([m / 2, n / 2])
        self.g = [float(o[0]), float(c[0, 0]), float(c[0, 1]), float(o[1]), float(c[1, 0]), float(c[1, 1])]
        self.c, self.o, self.m, self.n, self.d = c, o, m, n, d
        w = r.uniform(-0.12, 0.12, (2, 2))
        p = r.uniform(0, 6, 2)
        scale, base = {"u1": (50.0, 120.0), "u2": (9000.0, 30000.0), "f4": (1.0, 3.0), "f8": (100.0, -250.0)}[dtype]
        self.scale = scale
        self.value = lambda x, y: base + scale * (np.sin(w[0, 0] * x + w[0, 1] * y + p[0]) + np.cos(w[1, 0] * x + w[1, 1] * y + p[1]))
        j, i = np.mgrid[0:n, 0:m]
        z = self.value(i, j)
        data = np.repeat(z[:, :, None], int(r.integers(1, 4)), axis=2)
        for b in range(1, data.shape[2]):
            data[:, :, b] = data[::-1, :, b] * 0.5
        data = np.round(data).astype(dtype) if dtype[0] == "u" else data.astype(dtype)
        path = ctx.path("map.tif")
        GeotiffImageFactory.from_numpy_array(data, self.g, self.proj).write_to_disk(path)
        return path

    def map_pixel(self, x, y):
        v = np.linalg.solve(self.c, np.stack([np.ravel(x) - self.o[0], np.ravel(y) - self.o[1]]))
        return v[0].reshape(np.shape(x)), v[1].reshape(np.shape(x))

    def ground(self, rpy, C, M_order="rpy"):
        """Ground point at altitude 0 of every pixel of a camera at C (world units)."""
        M = product(*self.bore, self.border) @ product(*rpy, "rpy")
        j, i = np.mgrid[0:self.ny, 0:self.nx].astype(float)
        v = np.stack([(i - self.nx / 2.0) * self.px, -(j - self.ny / 2.0) * self.py, np.full(i.shape, -self.f)])
        q = np.tensordot(M.T, v, axes=1)
        t = -C[2] / q[2]
        return C[0] + t * q[0], C[1] + t * q[1], np.all(t > 0)


@P.scenario(quick=1000, thorough=15000, monitors=("geometry", "value", "off-map", "size"), big=8)
def exposures(ctx):
    r = ctx.rng
    sc = Scene(ctx)
    dtype = str(r.choice(["u1", "u2", "f4", "f8"]))
    path = sc.map(ctx, dtype)
    bu, eu = str(r.choice(["degrees", "radians", "mrad"])), str(r.choice(["degrees", "radians", "mrad"]))
    au, pu, fu = str(r.choice(sorted(LEN))), str(r.choice(sorted(PITCH))), str(r.choice(sorted(FOC)))
    kw = dict(boresight_roll=float(sc.bore[0] / ANG[bu]), boresight_pitch=float(sc.bore[1] / ANG[bu]),
              boresight_yaw=float(sc.bore[2] / ANG[bu]), pixel_pitch_x=sc.px / PITCH[pu], pixel_pitch_y=sc.py / PITCH[pu],
              pixel_pitch_units=pu, focal_length_units=fu, boresight_units=bu, boresight_rpy_order=sc.border,
              external_orientation_spatial_units=au, external_orientation_rpy_units=eu)
    world = sc.proj
    k = r.random()
    if k < 0.5:
        z = S.utm_zone(sc.lon)
        cands = [Proj(t, preserve_units=True) for t in (
            "+proj=tmerc +lat_0=%.6f +lon_0=%.6f +k=1 +datum=WGS84" % (sc.lat, sc.lon),
            "+proj=aeqd +lat_0=%.6f +lon_0=%.6f +datum=WGS84" % (sc.lat + 0.1, sc.lon),
            "+proj=merc +lon_0=%.6f +datum=WGS84" % sc.lon,
            "+proj=utm +zone=%d %s+datum=WGS84" % (z + 1 if z < 60 else z - 1, "+south " if sc.lat < 0 else ""))]
        world = cands[int(r.integers(0, 4))]
        if k < 0.35:
            kw["world_projection"] = world
    sim = ctx.call(PhysicalCameraSimulator, path, sc.f / FOC[fu], sc.nx, sc.ny, **kw)
    if 0.35 <= k < 0.5:
        sim.world_projection = world
    ctx.cover(dtype, "own projection" if world is sc.proj else "other projection")
    ctx.cover(bu, eu, au)
    ctx.cover(sc.border)
    for shot in range(int(r.integers(1, 4))):
        tilt = S.attitude(r, 25)
        rpy = np.array(tilt) if r.random() < 0.8 else np.zeros(3)
        x, y = sc.X + r.uniform(-0.5, 0.5) * sc.foot, sc.Y + r.uniform(-0.5, 0.5) * sc.foot
        wx, wy = [float(v) for v in S.transform(sc.proj, world, x, y)]
        C = np.array([wx, wy, sc.h])
        ctx.given(x=wx, y=wy, h=sc.h, rpy=rpy, bore=sc.bore, g=sc.g, shot=shot, world=world.srs, units=[bu, eu, au, pu, fu])
        im = ctx.call(sim.create_overhead_image_object, wx, wy, sc.h / LEN[au], *[float(v / ANG[eu]) for v in rpy])
        data = np.asarray(im.get_image_data())
        md = im.get_metadata()
        if not ctx.check("size", data.shape == (sc.ny, sc.nx, 1) and (md.get_npix_x(), md.get_npix_y(), md.get_n_bands()) ==
                         (sc.nx, sc.ny, 1), "an image of shape %s for a camera of %d x %d" % (data.shape, sc.nx, sc.ny)):
            return
        gx, gy, ok = sc.ground(rpy, C)
        if not ok:
            ctx.cover("horizon")
            continue
        j, i = np.mgrid[0:sc.ny, 0:sc.nx].astype(float)
        lx, ly = ctx.call(im.get_point_calculator().pixel_x_y_alt_to_lon_lat, i, j, np.zeros(i.shape))
        step = max(np.hypot(gx - np.roll(gx, q, a), gy - np.roll(gy, q, a))[1:-1, 1:-1].max() for q in (1, -1) for a in (0, 1))
        ctx.close("geometry", lx, gx, "easting of the ground points of the simulated camera", atol=0.02 * step)
        ctx.close("geometry", ly, gy, "northing of the ground points of the simulated camera", atol=0.02 * step)
        mx, my = sc.map_pixel(*S.transform(world, sc.proj, gx, gy))
        e = sc.value(mx, my)
        inside = (mx > 8) & (my > 8) & (mx < sc.m - 9) & (my < sc.n - 9)
        off = (mx < -2) | (my < -2) | (mx > sc.m + 1) | (my > sc.n + 1)
        got = data[:, :, 0].astype(float)
        if inside.any():
            # the ground points themselves are only solved to a hundredth of a pixel
            shift = float(np.hypot(lx - gx, ly - gy).max()) / sc.d
            ctx.close("value", got[inside], e[inside], "values of the simulated image", atol=(0.004 + 0.34 * shift) * sc.scale +
                      (2.2 if dtype[0] == "u" else 0))   # rounded posts, overshoot, truncation
        ctx.check("off-map", np.all(got[off] == 0), "pixels that look beyond the map hold %r" % got[off][:5])
        ctx.cover("all on map" if inside.all() else "none on map" if not inside.any() else "partly on map")


from pyproj import Proj                                                                          # noqa: E402
