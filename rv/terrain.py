"""Generated terrain models with an independent reference surface."""
import numpy as np

from rv import sensors as S
from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory
from resippy.photogrammetry.dem.constant_elevation_dem import ConstantElevationDem
from resippy.photogrammetry.dem.dem_factory import DemFactory
from resippy.photogrammetry.dem.geotiff_dem import GeotiffDem

KINDS = ["constant", "plane", "hills", "rough", "cliff", "flat-grid"]


class Terrain(object):
    """``dem``: resippy's terrain model; ``elev(x, y, proj)``: what it should answer."""

    def __init__(self, kind, dem, proj, z, g, method, lo, hi):
        self.kind, self.dem, self.proj, self.z, self.g, self.method = kind, dem, proj, z, g, method
        self.lo, self.hi = lo, hi
        if g is not None:
            a = np.array([[g[1], g[2]], [g[4], g[5]]])
            self.inv = np.linalg.inv(a)

    def grid_pos(self, x, y, proj):
        if proj is not self.proj:
            x, y = S.transform(proj, self.proj, x, y)
        dx, dy = np.asarray(x, float) - self.g[0], np.asarray(y, float) - self.g[3]
        return self.inv[0, 0] * dx + self.inv[0, 1] * dy, self.inv[1, 0] * dx + self.inv[1, 1] * dy

    def at(self, px, py):
        ny, nx = self.z.shape
        nowhere = ~np.isfinite(px + py)
        if nowhere.any():
            return np.where(nowhere, np.nan, self.at(np.where(nowhere, 0.0, px), np.where(nowhere, 0.0, py)))
        if self.method == "nearest":
            return self.z[np.clip(np.floor(py), 0, ny - 1).astype(int), np.clip(np.floor(px), 0, nx - 1).astype(int)]
        u, v = np.clip(px - 0.5, 0, nx - 1), np.clip(py - 0.5, 0, ny - 1)
        i, j = np.minimum(u.astype(int), max(nx - 2, 0)), np.minimum(v.astype(int), max(ny - 2, 0))
        fu, fv = u - i, v - j
        i1, j1 = np.minimum(i + 1, nx - 1), np.minimum(j + 1, ny - 1)
        # a post without weight does not count, whatever it holds
        i, i1 = np.where(fu > 1 - 1e-7, i1, i), np.where(fu < 1e-7, i, i1)
        j, j1 = np.where(fv > 1 - 1e-7, j1, j), np.where(fv < 1e-7, j, j1)
        return (self.z[j, i] * (1 - fu) + self.z[j, i1] * fu) * (1 - fv) + (self.z[j1, i] * (1 - fu) + self.z[j1, i1] * fu) * fv

    def elev(self, x, y, proj):
        if self.g is None:
            return np.zeros(np.shape(x)) + self.lo
        return self.at(*self.grid_pos(x, y, proj))

    def unknown(self, x, y, proj, eps=1e-4):
        """Positions with no elevation anywhere around."""
        if self.g is None:
            return np.zeros(np.shape(x), bool)
        px, py = self.grid_pos(x, y, proj)
        return np.all([np.isnan(self.at(px + a, py + b)) for a in (-eps, 0, eps) for b in (-eps, 0, eps)], axis=0)

    def bounds(self, x, y, proj, eps=1e-4):
        """Lowest and highest elevation within eps posts of a position."""
        if self.g is None:
            z = np.zeros(np.shape(x)) + self.lo
            return z, z
        px, py = self.grid_pos(x, y, proj)
        v = np.stack([self.at(px + a, py + b) for a in (-eps, 0, eps) for b in (-eps, 0, eps)])
        return v.min(0), v.max(0)


def use(dem, rng, g, proj, span):
    """A terrain model that has served other terrain before."""
    old = rng.uniform(span[0] - 500, span[1] + 500, (int(rng.integers(2, 12)), int(rng.integers(2, 12))))
    h = [g[0] + float(rng.uniform(-2, 2)) * g[1], g[1] * float(rng.uniform(0.3, 3)), 0.0, g[3], 0.0, g[5]]
    if rng.random() < 0.5:
        dem.set_interpolation_to_nearest()
    dem.set_geotiff_image(GeotiffImageFactory.from_numpy_array(old, h, proj if rng.random() < 0.7 else S.LL))
    dem.get_highest_alt(), dem.get_lowest_alt(), dem.get_mean_alt()
    dem.get_elevations(np.array([g[0], g[0] + g[1]]), np.array([g[3], g[3] + g[5]]), world_proj=dem.get_projection())


def make(rng, sensor, lo, hi, ctx=None, kind=None, method=None, n=None, dtype=None, footprint=None, margin=0.4, proj=None,
         holes=0.0):
    """A terrain with elevations in [lo, hi] under the footprint of a sensor (native coordinates)."""
    kind = kind or str(rng.choice(KINDS))
    if kind == "constant":
        e = float(rng.uniform(lo, hi))
        dem = ConstantElevationDem(e) if rng.random() < 0.5 else DemFactory.constant_elevation(e)
        return Terrain(kind, dem, None, None, None, "constant", e, e)
    method = method or str(rng.choice(["nearest", "bilinear", "bilinear"]))
    if footprint is None:
        cx = np.array([0, sensor.nx - 1, 0, sensor.nx - 1])
        cy = np.array([0, 0, sensor.ny - 1, sensor.ny - 1])
        xs, ys = [], []
        for b in range(sensor.nbands):
            for a in (lo, hi):
                gx, gy = sensor.ground(cx, cy, np.full(4, float(a)), b)
                xs.append(gx)
                ys.append(gy)
        xs, ys = np.concatenate(xs), np.concatenate(ys)
    else:
        xs, ys = footprint
    if proj is None:
        proj = [sensor.proj, S.LL, S.utm_proj(*sensor.place)][int(rng.integers(0, 3))]
    if proj is not sensor.proj:
        xs, ys = S.transform(sensor.proj, proj, xs, ys)
    x0, x1, y0, y1 = xs.min(), xs.max(), ys.min(), ys.max()
    w, h = max(x1 - x0, 1e-9), max(y1 - y0, 1e-9)
    w = h = max(w, h)
    x0, y1 = (x0 + x1) / 2 - w * (0.5 + margin), (y0 + y1) / 2 + h * (0.5 + margin)
    nx, ny = n or (int(rng.integers(3, 40)), int(rng.integers(3, 40)))
    g = [float(x0), float(w * (1 + 2 * margin) / nx), 0.0, float(y1), 0.0, float(-h * (1 + 2 * margin) / ny)]
    v, u = np.mgrid[0:ny, 0:nx].astype(float)
    u, v = u / max(nx - 1, 1), v / max(ny - 1, 1)
    if kind == "plane":
        a = rng.uniform(0, 2 * np.pi)
        t = np.cos(a) * (u - 0.5) + np.sin(a) * (v - 0.5)
    elif kind == "hills":
        t = np.sin(u * rng.uniform(2, 12) + rng.uniform(0, 6)) * np.cos(v * rng.uniform(2, 12) + rng.uniform(0, 6))
    elif kind == "rough":
        t = rng.uniform(0, 1, u.shape)
    elif kind == "cliff":
        a = rng.uniform(0, 2 * np.pi)
        t = ((np.cos(a) * (u - 0.5) + np.sin(a) * (v - 0.5)) > 0).astype(float)
    elif kind == "towers":
        t = (rng.uniform(0, 1, u.shape) > 0.85) * rng.uniform(0.5, 1, u.shape)
    else:
        t = np.zeros(u.shape)
    span = t.max() - t.min()
    z = lo + (hi - lo) * ((t - t.min()) / span if span > 0 else t + 0.4)
    if dtype is None:
        dtype = str(rng.choice(["f8", "f4", "i2", "u2"]))
    if dtype in ("i2", "u2"):
        z = np.clip(np.round(z), 0 if dtype == "u2" else -32000, 32000)
    z = z.astype(dtype)
    if holes and z.dtype.kind == "f":
        z[rng.random(z.shape) < holes] = np.nan
        if np.isnan(z).all():
            z[0, 0] = lo
    im = GeotiffImageFactory.from_numpy_array(z.copy(), g, proj)
    if ctx is not None and rng.random() < 0.3:
        p = ctx.path("terrain_%d.tif" % int(rng.integers(0, 1 << 30)))
        im.write_to_disk(p)
        dem = DemFactory.from_gtiff_file(p, interpolation_method=method)
    else:
        dem = GeotiffDem()
        if rng.random() < 0.25:
            use(dem, rng, g, proj, (lo, hi))
        dem.set_geotiff_image(im)
        if method == "nearest":
            dem.set_interpolation_to_nearest()
        else:
            dem.set_interpolation_to_bilinear()
    z = z.astype(float)
    return Terrain(kind, dem, proj, z, g, method, float(np.nanmin(z)), float(np.nanmax(z)))
