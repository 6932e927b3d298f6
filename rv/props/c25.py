"""C25: coordinate helpers against independent geodesy."""
import numpy as np
import pyproj
from osgeo import osr as gosr
from pyproj import Proj
from shapely.geometry import (GeometryCollection, LinearRing, LineString, MultiLineString, MultiPoint, MultiPolygon,
                              Point, Polygon)
from rv.core import Registry
from rv import sensors as S
from rv.props.c09 import projections
from resippy.photogrammetry import crs_defs
from resippy.utils import geom_utils, photogrammetry_utils as pu, proj_utils
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.ideal_pinhole_fpa_local_utm_point_calc \
    import IdealPinholeFpaLocalUtmPointCalc

P = Registry("C25", "Positions everywhere between 80 S and 84 N, weighted to the equator, the date line, zone borders "
                    "and the irregular Norwegian and Svalbard zones; coordinate systems in degrees, metres, feet and "
                    "kilometres, given as PROJ strings, init codes and EPSG codes with either official axis order; "
                    "points, lines, polygons with holes and collections.")
GEOD = pyproj.Geod(ellps="WGS84")


def place(r, lo=-79.9, hi=83.9):
    k = int(r.integers(0, 8))
    if k == 0:
        return float(r.uniform(-180, 180)), float(r.uniform(lo, hi))
    if k == 1:
        return float(r.uniform(-180, 180)), float(r.choice([0.0, 1e-9, -1e-9, r.uniform(-0.5, 0.5)]))
    if k == 2:
        return float(r.choice([-180.0, 180.0, r.uniform(179, 180), r.uniform(-180, -179)])), float(r.uniform(lo, hi))
    if k == 3:
        return float(6 * int(r.integers(-30, 30)) + r.choice([0.0, 1e-7, -1e-7]) if r.random() < 0.8 else -180.0), \
            float(r.uniform(lo, hi))
    if k == 4:
        return float(r.uniform(-1, 14)), float(r.uniform(55, 65))
    if k == 5:
        return float(r.choice([r.uniform(-2, 44), r.choice([0.0, 9.0, 21.0, 33.0, 42.0])])), float(r.uniform(71, 83.9))
    if k == 6:
        return float(r.uniform(-180, 180)), float(r.choice([lo, hi, 56.0, 64.0, 72.0, -0.0]))
    return float(r.uniform(-130, 150)), float(r.uniform(-60, 60))


def zone_of(lon, lat):
    """The zone and hemisphere of the UTM system (with its Norwegian and Svalbard exceptions)."""
    lon = (lon + 180.0) % 360.0 - 180.0
    z = int((lon + 180.0) // 6) + 1
    if 56 <= lat < 64 and 3 <= lon < 12:
        z = 32
    if 72 <= lat <= 84 and 0 <= lon < 42:
        z = 31 if lon < 9 else 33 if lon < 21 else 35 if lon < 33 else 37
    return z, lat < 0


@P.scenario(quick=2500, thorough=40000, monitors=("zone", "coordinates"))
def local_utm(ctx):
    """The local UTM system of a position is the one of its zone and hemisphere."""
    r = ctx.rng
    lon, lat = place(r)
    lon = float(np.clip(lon, -180, 180))
    near = lon % 6 < 1e-6 or lon % 6 > 6 - 1e-6
    ctx.given(lon=lon, lat=lat)
    p = ctx.call(proj_utils.decimal_degrees_to_local_utm_proj, lon, lat)
    z, south = zone_of(lon, lat)
    ctx.cover("zone %d %s" % (z, "S" if south else "N"))
    if near:
        ctx.cover("zone border")
    ref = Proj("+proj=utm +zone=%d %s+datum=WGS84 +units=m" % (z, "+south " if south else ""), preserve_units=True)
    x, y = p(lon, lat)
    ctx.check("zone", pyproj.CRS(p.srs).utm_zone == "%d%s" % (z, "S" if south else "N"),
              "zone %s for lon %.9f lat %.9f, expected %d%s" % (pyproj.CRS(p.srs).utm_zone, lon, lat, z,
                                                                "S" if south else "N"))
    rx, ry = ref(lon, lat)
    ctx.close("coordinates", [x, y], [rx, ry], "UTM coordinates of lon %.9f lat %.9f" % (lon, lat), atol=1e-3)


def coords(geom):
    if hasattr(geom, "geoms"):
        return [c for g in geom.geoms for c in coords(g)]
    if geom.geom_type == "Polygon":
        return [list(geom.exterior.coords)] + [list(i.coords) for i in geom.interiors]
    return [list(geom.coords)]


def shape(ctx, r, x, y, d):
    def pts(n):
        return [(float(x + d * r.uniform(-1, 1)), float(y + d * r.uniform(-1, 1))) for _ in range(n)]

    def star(n, k=1.0, dx=0.0):
        a = np.sort(r.uniform(0, 2 * np.pi, n))
        a = np.linspace(0, 2 * np.pi, n, endpoint=False) + 0.1 * a / 7
        m = r.uniform(0.7, 1.0, n) * k * d
        return [(float(x + dx + m[i] * np.cos(a[i])), float(y + m[i] * np.sin(a[i]))) for i in range(n)]
    k = str(r.choice(["point", "points", "line", "ring", "polygon", "holes", "polygons", "lines", "collection"]))
    n = ctx.many(int(r.integers(3, 12)), 800)
    g = {"point": lambda: Point(pts(1)[0]), "points": lambda: MultiPoint(pts(n)), "line": lambda: LineString(pts(n)),
         "ring": lambda: LinearRing(star(n)), "polygon": lambda: Polygon(star(n)),
         "holes": lambda: Polygon(star(n), [star(4, 0.2)]),
         "polygons": lambda: MultiPolygon([Polygon(star(n)), Polygon(star(n, 1.0, 4 * d))]),
         "lines": lambda: MultiLineString([pts(3), pts(n)]),
         "collection": lambda: GeometryCollection([Point(pts(1)[0]), LineString(pts(4))])}[k]()
    return k, g


@P.scenario(quick=1000, thorough=15000, monitors=("reprojection", "structure", "and-back"), big=6)
def shapes(ctx):
    """Every vertex of a reprojected shape is the reprojected vertex."""
    r = ctx.rng
    lon, lat = S.location(r)
    ps = projections(r, lon, lat)[:-1]
    (na, a), (nb, b) = [ps[int(r.integers(0, len(ps)))] for _ in range(2)]
    ctx.cover("from " + na, "to " + nb)
    x, y = S.transform(S.LL, a, lon, lat)
    x1, _ = S.transform(S.LL, a, lon + 0.01, lat)
    d = float(abs(x1 - x) * 10 ** r.uniform(-2, 0.5))
    k, g = shape(ctx, r, float(x), float(y), d)
    ctx.cover(k)
    ctx.given(src=na, dst=nb, shape=g.wkt)
    out = ctx.call(pu.reproject_geometry, g, a, b)
    ctx.check("structure", out.geom_type == g.geom_type and [len(c) for c in coords(out)] == [len(c) for c in coords(g)],
              "%s became %s" % (g.geom_type, out.geom_type))
    tol = 1e-9 if b.crs.is_geographic else 1e-4
    for ci, co in zip(coords(g), coords(out)):
        v = np.array(ci)
        ex, ey = S.transform(a, b, v[:, 0], v[:, 1])
        ctx.close("reprojection", np.array(co)[:, :2], np.stack([ex, ey], 1), "%s from %s to %s" % (k, na, nb), atol=tol,
                  rtol=1e-12)
    if not all("WGS" in q.crs.ellipsoid.name and "83" not in q.crs.datum.name for q in (a, b)):
        # PROJ chooses among several datum shifts, not always the same one in each direction
        return ctx.cover("datum change")
    back = ctx.call(pu.reproject_geometry, out, b, a)
    for ci, co in zip(coords(g), coords(back)):
        ctx.close("and-back", np.array(co)[:, :2], np.array(ci), "%s from %s to %s and back" % (k, na, nb),
                  atol=1e-8 if a.crs.is_geographic else 1e-2)


@P.scenario(quick=1000, thorough=15000, monitors=("shift", "shape"), big=6)
def shift(ctx):
    """Points move by the metres asked for, each in its own place."""
    r = ctx.rng
    lon, lat = S.location(r)
    ps = projections(r, lon, lat)[:9] if r.random() < 0.7 else S.world_projs(r, lon, lat)
    name, p = ps[int(r.integers(0, len(ps)))]
    n = ctx.many(int(r.integers(1, 12)), 50000)
    lons, lats = lon + r.uniform(-0.2, 0.2, n), lat + r.uniform(-0.2, 0.2, n)
    x, y = S.transform(S.LL, p, lons, lats)
    e, nn = [float(r.choice([0.0, r.uniform(-1, 1), r.uniform(-1000, 1000), 1.0])) for _ in range(2)]
    form = str(r.choice(["array", "list", "scalar", "tuple"]))
    if form == "scalar":
        gx, gy, x, y = float(x[0]), float(y[0]), x[:1], y[:1]
    elif form == "array":
        gx, gy = x.copy(), y.copy()
    else:
        t = list if form == "list" else tuple
        gx, gy = np.array(x), np.array(y)
    ctx.cover(name, form)
    ctx.given(proj=name, east=e, north=nn, x=x, y=y)
    ox, oy = ctx.call(pu.shift_points_by_meters, e, nn, p, gx, gy)
    if not ctx.check("shape", np.shape(ox) == np.shape(gx) and np.shape(oy) == np.shape(gy),
                     "%s points came back as %s" % (np.shape(gx), np.shape(ox))):
        return
    olon, olat = S.transform(p, S.LL, np.atleast_1d(ox), np.atleast_1d(oy))
    ilon, ilat = S.transform(p, S.LL, x, y)
    az, _, dist = GEOD.inv(ilon, ilat, olon, olat)
    me, mn = dist * np.sin(np.radians(az)), dist * np.cos(np.radians(az))
    tol = 2e-3 + 1e-3 * np.hypot(e, nn)
    ground = np.abs(me - e) < tol
    ground &= np.abs(mn - nn) < tol
    # the shift in Web Mercator units, which the library's own test holds to be metres
    R = 6378137.0
    y2 = lambda f: R * np.log(np.tan(np.pi / 4 + np.radians(f) / 2))
    de, dn = R * np.radians(olon - ilon), y2(olat) - y2(ilat)
    mercator = (np.abs(de - e) < 2e-3) & (np.abs(dn - nn) < 2e-3)
    if np.all(mercator):
        ctx.known_check("mercator-metres", "shift", np.all(ground),
                        "shifted by %s, %s metres on the ground instead of %g, %g (these are Web Mercator units)"
                        % (me, mn, e, nn))
    else:
        ctx.check("shift", np.all(ground), "shifted by %s, %s metres instead of %g, %g" % (me, mn, e, nn))


CODES = [4326, 4269, 3857, 2193, 3031, 3413, 3112, 2263, 32618, 32733, 26910, 5070, 3395, 6933, 2154, 25832, 4258, 3035,
         54009, 102001]


@P.scenario(quick=600, thorough=8000, monitors=("same-system", "osr", "string"))
def wkt(ctx):
    """A coordinate system given as well-known text is the same system as a Proj."""
    r = ctx.rng
    lon, lat = S.location(r)
    k = r.random()
    ref = gosr.SpatialReference()
    if k < 0.5:
        code = int(r.choice(CODES))
        if ref.ImportFromEPSG(code) != 0:
            return ctx.cover("unknown code")
        name = "EPSG:%d" % code
        if code in (2263, 2193, 2154, 25832, 26910, 3035, 3112, 5070, 3031, 3413, 32618, 32733):
            a = pyproj.CRS.from_epsg(code).area_of_use
            lon, lat = float(r.uniform(a.west, a.east)) if a.west < a.east else 174.0, \
                float(r.uniform(max(a.south, -80), min(a.north, 80)))
    else:
        ps = projections(r, lon, lat)
        name, q = ps[int(r.integers(0, len(ps)))]
        srs = q.srs if "init" not in q.srs else q.crs.to_wkt("WKT1_GDAL")
        if ref.SetFromUserInput(srs) != 0:
            return ctx.cover("not accepted by GDAL")
    text = [ref.ExportToWkt, lambda: ref.ExportToPrettyWkt(), lambda: ref.ExportToWkt(["FORMAT=WKT2_2018"])][int(r.integers(0, 3))]()
    ctx.cover(name)
    ctx.given(name=name, wkt=text, lon=lon, lat=lat)
    lons, lats = lon + r.uniform(-0.1, 0.1, 5), lat + r.uniform(-0.1, 0.1, 5)
    crs = pyproj.CRS.from_wkt(ref.ExportToWkt())
    base = pyproj.CRS.from_wkt(crs.geodetic_crs.to_wkt())
    ex, ey = pyproj.Transformer.from_crs(base, crs, always_xy=True).transform(lons, lats)
    tol = 1e-8 if crs.is_geographic else 2e-3
    p = ctx.call(proj_utils.wkt_to_proj, text)
    s = ctx.call(proj_utils.wkt_to_proj_string, text)
    o = ctx.call(proj_utils.wkt_to_osr_spatialref, text)
    for monitor, q in (("same-system", p), ("string", Proj(s, preserve_units=True))):
        if q.crs.is_geographic != crs.is_geographic:
            ctx.fail(monitor, "%s became %s" % (name, q.srs))
            continue
        ctx.check(monitor, abs(q.crs.ellipsoid.semi_major_metre - crs.ellipsoid.semi_major_metre) < 1e-3 and
                  abs(q.crs.ellipsoid.inverse_flattening - crs.ellipsoid.inverse_flattening) < 1e-5,
                  "%s has another ellipsoid after reading: %s" % (name, q.srs))
        x, y = (lons, lats) if q.crs.is_geographic else q(lons, lats)
        ctx.close(monitor, [x, y], [ex, ey], "coordinates in %s" % name, atol=tol)
    ref2 = gosr.SpatialReference()
    ref2.ImportFromWkt(text)
    ctx.check("osr", o.IsSame(ref2) == 1, "%s is another system after reading" % name)


@P.scenario(quick=300, thorough=5000, monitors=("definitions",))
def definitions(ctx):
    """The two systems the library names: Web Mercator and WGS84 longitude/latitude."""
    r = ctx.rng
    lon, lat = float(r.uniform(-180, 180)), float(r.uniform(-84, 84))
    ctx.given(lon=lon, lat=lat)
    R = 6378137.0
    x, y = S.transform(crs_defs.PROJ_4326, crs_defs.PROJ_3857, lon, lat)
    ctx.event("crs_defs")
    ctx.close("definitions", [x, y], [R * np.radians(lon), R * np.log(np.tan(np.pi / 4 + np.radians(lat) / 2))],
              "EPSG:3857 of %.6f %.6f" % (lon, lat), atol=1e-3)
    x, y = S.transform(crs_defs.PROJ_4326, S.LL, lon, lat)
    ctx.close("definitions", [(x - lon + 180) % 360 - 180, y - lat], [0, 0], "EPSG:4326 of %.6f %.6f" % (lon, lat), atol=1e-9)


@P.scenario(quick=600, thorough=8000, monitors=("corners", "bounds", "pixel-count"))
def extents(ctx):
    """Affine transforms of extents, boxes and the number of pixels of an extent."""
    r = ctx.rng
    lon, lat = S.location(r)
    name, p = S.world_projs(r, lon, lat)[int(r.integers(0, 9))]
    x, y = [float(v) for v in S.transform(S.LL, p, lon, lat)]
    w, h = [float(10 ** r.uniform(-2, 4)) * (1e-5 if p.crs.is_geographic else 1.0) for _ in range(2)]
    box = ctx.call(geom_utils.bounds_2_shapely_polygon, x, x + w, y + h, y)
    ctx.given(x=x, y=y, w=w, h=h, proj=name)
    ctx.close("bounds", box.bounds, [x, y, x + w, y + h], "bounds of the box", atol=0)
    ctx.close("bounds", box.area, w * h, "area of the box", atol=0, rtol=1e-3 if w * h > 1e-9 else 0.5)
    nx, ny = int(r.integers(1, 4000)), int(r.integers(1, 4000))
    shp = box
    if r.random() < 0.5:
        c = [(x, y + h * r.random()), (x + w * r.random(), y + h), (x + w, y + h * r.random()), (x + w * r.random(), y)]
        shp = Polygon(c if r.random() < 0.5 else c[::-1])
    g = ctx.call(pu.world_poly_to_geo_t, shp, nx, ny)
    e = 1e-6 * max(w, h)
    for px, py, ex, ey in ((0, 0, x, y + h), (nx, 0, x + w, y + h), (nx, ny, x + w, y), (0, ny, x, y)):
        ctx.close("corners", [g[0] + px * g[1] + py * g[2], g[3] + px * g[4] + py * g[5]], [ex, ey],
                  "ground position of pixel corner (%d, %d) of %d x %d" % (px, py, nx, ny), atol=e)
    gx, gy = w / (nx + float(r.uniform(0.05, 0.95))), h / (ny + float(r.uniform(0.05, 0.95)))
    # far from exact divisions, where the count is a matter of rounding
    if abs(x) / w < 1e9 and abs(y) / h < 1e9:
        ctx.equal("pixel-count", tuple(ctx.call(pu.get_nx_ny_pixels_in_extent, shp, gx, gy)), (nx, ny),
                  "whole pixels of %g x %g in an extent of %g x %g" % (gx, gy, w, h))


@P.scenario(quick=500, thorough=6000, monitors=("camera-position",))
def camera_position(ctx):
    """A camera placed by longitude and latitude stands at that place in its local UTM system."""
    r = ctx.rng
    lon, lat = place(r, -79.5, 83.5)
    lon = float(np.clip(lon, -180, 180))
    alt = float(r.uniform(50, 5000))
    ctx.given(lon=lon, lat=lat, alt=alt)
    pc = ctx.call(IdealPinholeFpaLocalUtmPointCalc.init_from_wgs84_params, lon, lat, alt, 0.0, 0.0, 0.0, 100, 80, 5, 5,
                  50)
    z, south = zone_of(lon, lat)
    ref = Proj("+proj=utm +zone=%d %s+datum=WGS84" % (z, "+south " if south else ""), preserve_units=True)
    ex, ey = ref(lon, lat)
    # nadir pixel: the ground point under the camera
    gx, gy = ctx.call(pc.pixel_x_y_alt_to_lon_lat, np.array([50.0]), np.array([40.0]), np.array([0.0]))
    ctx.close("camera-position", [float(gx[0]), float(gy[0])], [ex, ey], "ground under a camera at %.6f %.6f" % (lon, lat),
              atol=0.02)
