"""C11: image objects against a model of what is on disk and what is in memory."""
import os
import warnings
from datetime import datetime, timezone

import numpy as np
from osgeo import gdal, gdal_array

from rv.core import Registry
from rv import images, sensors as S, tiff
from resippy.image_objects.image_factory import ImageFactory
from resippy.image_objects.earth_overhead.igm.igm_image import IgmImage
from resippy.image_objects.earth_overhead.micasense.micasense_metadata import MicasenseMetadata
from resippy.image_objects.earth_overhead.physical_camera.physical_camera_metadata import PhysicalCameraMetadata
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.earth_overhead_sensor_model import EarthOverheadSensorModel

warnings.simplefilter("ignore", DeprecationWarning)

P = Registry("C11", "Images of every type (map images from files, cubes and single bands, rational-polynomial images, camera images from "
                    "files and arrays, coordinate-grid images, five-band camera files, ENVI files) of 1 to 8 bands and six data types, "
                    "read and replaced in random sequences that a two-state model (file, memory) follows; acquisition metadata and "
                    "sensor parameters of generated files against what was written.", boost=4)
KINDS = ["geotiff-file", "geotiff-cube", "geotiff-flat", "vrs", "camera-file", "camera-memory", "igm", "micasense", "micasense-numpy", "envi"]
SHAPES = [(1, 1), (1, 7), (6, 1), (2, 3), (5, 5), (17, 31), (64, 40)]


def rpc_metadata(c):
    def a(v):
        return " ".join(repr(float(x)) for x in v)
    return {"SAMP_NUM_COEFF": a(c["sn"]), "SAMP_DEN_COEFF": a(c["sd"]), "LINE_NUM_COEFF": a(c["ln"]), "LINE_DEN_COEFF": a(c["ld"]),
            "SAMP_SCALE": repr(c["s_scale"]), "SAMP_OFF": repr(c["s_off"]), "LINE_SCALE": repr(c["l_scale"]),
            "LINE_OFF": repr(c["l_off"]), "LAT_SCALE": repr(c["lat_scale"]), "LAT_OFF": repr(c["lat_off"]),
            "LONG_SCALE": repr(c["lon_scale"]), "LONG_OFF": repr(c["lon_off"]), "HEIGHT_SCALE": repr(c["h_scale"]),
            "HEIGHT_OFF": repr(c["h_off"])}


def save(path, data, rpc=None, nodata=None, geot=None, proj=None, driver="GTiff", options=()):
    d = gdal.GetDriverByName(driver).Create(path, data.shape[1], data.shape[0], data.shape[2],
                                            gdal_array.NumericTypeCodeToGDALTypeCode(data.dtype), list(options))
    if geot is not None:
        d.SetGeoTransform(geot)
        d.SetProjection(proj.crs.to_wkt("WKT1_GDAL"))
    if rpc:
        d.SetMetadata(rpc_metadata(rpc), "RPC")
    if nodata is not None:
        # before the pixels: GDAL fills the all-zero blocks it has left out with the nodata value
        for b in range(data.shape[2]):
            d.GetRasterBand(b + 1).SetNoDataValue(float(nodata))
    for b in range(data.shape[2]):
        d.GetRasterBand(b + 1).WriteArray(data[:, :, b])
    d.FlushCache()
    d = None


def place_for(ctx, name):
    """A file in a folder of any name."""
    folder = ctx.path(str(ctx.rng.choice(["f", "2019.06.01", "a.tif", "x.hdr.d"])))
    os.makedirs(folder, exist_ok=True)
    ctx.file = os.path.join(folder, name)
    return ctx.file


def build(ctx, kind):
    """(image, pixels of the file or None, pixels in memory or None, sensor or None, nodata)."""
    r = ctx.rng
    ny, nx = SHAPES[r.integers(0, len(SHAPES))] if not ctx.big else ctx.shape(2, 50, 1000000)
    nb = int(r.choice([1, 1, 2, 3, 4, 8] if not ctx.big else [1, 2, 3, 7]))
    dtype = str(r.choice(images.TYPES))
    if kind.startswith("micasense"):
        dtype = str(r.choice(["u1", "u2", "i4", "f4"]))
        nb = 5 if kind == "micasense" else nb
    if kind == "envi" and (ny, nx, nb) == (1, 1, 1):
        nx = 2
    data = images.pixels(r, ny, nx, nb, dtype)
    nodata = None
    if kind in ("geotiff-file", "camera-file", "vrs", "geotiff-cube", "geotiff-flat") and r.random() < 0.5:
        nodata = int(r.integers(0, 200) * (r.random() < 0.7)) if dtype[0] != "f" else float(r.choice([-9999.0, 0.25, -1e10, 0.0]))
    ctx.cover(kind, dtype, "one band" if nb == 1 else "bands")
    ctx.given(kind=kind, shape=data.shape, dtype=dtype, nodata=nodata)
    s = None
    if kind.startswith("geotiff"):
        place = S.location(r)
        _, proj, g = S.geot_for(r, place[0], place[1], nx, ny)
        s = dict(g=g, proj=proj)
        if kind == "geotiff-file":
            p = place_for(ctx, str(r.choice(["map.tif", "map.v1.tif", "a.b.c.tiff", "map"])))
            save(p, data, None, nodata, s["g"], proj, options=["INTERLEAVE=" + str(r.choice(["BAND", "PIXEL"]))])
            return ctx.call(ImageFactory.geotiff.from_file, p), data, None, s, nodata
        given = data.copy()
        if kind == "geotiff-flat":
            given = given[:, :, 0]
            data = data[:, :, :1]
        return ctx.call(ImageFactory.geotiff.from_numpy_array, given, s["g"], proj, nodata), None, data, s, nodata
    if kind == "vrs":
        lon, lat = S.location(r)
        c = S.rpc_coeffs(r, lon, lat, nx, ny)
        c = {k: (np.asarray(v, float) if np.ndim(v) else float(v)) for k, v in c.items()}
        p = place_for(ctx, str(r.choice(["vrs.tif", "05AUG.P1BS-R1.NTF", "a.b.tif"])))
        save(p, data, c, nodata)
        s = dict(ref=S.rpc_ref(c), c=c)
        return ctx.call(ImageFactory.digital_globe.view_ready_stereo.from_file, p), data, None, s, nodata
    if kind.startswith("camera"):
        cam = S.make("pinhole", r, small=True)
        if kind == "camera-file":
            p = place_for(ctx, str(r.choice(["cam.tif", "IMG_1.0.tif"])))
            save(p, data, nodata=nodata)
            return ctx.call(ImageFactory.physical_camera.from_gdal_file_and_single_point_calc, p, cam.calc), data, None, dict(calc=cam.calc), nodata
        m = PhysicalCameraMetadata()
        m.set_npix_x(nx), m.set_npix_y(ny), m.set_n_bands(nb), m.set_nodata_val(nodata)
        return ctx.call(ImageFactory.physical_camera.from_numpy_array_metadata_and_single_point_calc, data.copy(), m, cam.calc), None, data, \
            dict(calc=cam.calc), nodata
    if kind == "igm":
        gy, gx = np.mgrid[0:ny, 0:nx].astype(float)
        return ctx.call(IgmImage.from_params, data.copy(), gx * 2 + 5e5, gy * -2 + 4e6, gy * 0.0, nb, S.utm_proj(3.0, 40.0)), None, data, None, None
    if kind == "micasense":
        names = {}
        for b in r.permutation(5):
            p = ctx.path("IMG_0404_%d.tif" % (b + 1))
            tiff.write(p, data[:, :, b], big=bool(r.random() < 0.3))
            names["band%d" % (b + 1)] = p
        return S.five_band_image(ctx, names, [S.make("opencv", r, small=True) for _ in range(5)]), data, None, None, 0
    if kind == "micasense-numpy":
        m = MicasenseMetadata()
        m.set_npix_x(nx), m.set_npix_y(ny), m.set_n_bands(nb)
        kw = {"working_dir": ctx.scratch}
        if r.random() < 0.5:
            kw["band_basenames"] = ["b_%d.tif" % b for b in r.permutation(nb)]
        given = data.copy() if r.random() < 0.5 else np.asfortranarray(data)
        return ctx.call(ImageFactory.micasense.from_numpy_and_pix4d, given, m, S.make("opencv", r, small=True).calc, **kw), data, None, None, None
    p = place_for(ctx, str(r.choice(["cube", "cube.v1"])) + "." + str(r.choice(["dat", "img", "raw"])) if r.random() < 0.7 else "cube")
    save(p, data, driver="ENVI", options=["INTERLEAVE=" + str(r.choice(["BIL", "BIP", "BSQ"])), "SUFFIX=" + str(r.choice(["ADD", "REPLACE"]))])
    args = (p,)
    if r.random() < 0.3:
        h = [f for f in os.listdir(os.path.dirname(p)) if f.endswith(".hdr")][0]
        args = (p, os.path.join(os.path.dirname(p), h))
    return ctx.call(ImageFactory.envi.from_file, *args), data, None, None, None


def pixels_equal(ctx, mon, got, want, what):
    ctx.equal(mon, np.shape(got), want.shape, what + ": shape")
    ctx.equal(mon, np.asarray(got).dtype.newbyteorder("="), want.dtype, what + ": data type")
    ctx.equal(mon, np.asarray(got), want, what)


@P.scenario(quick=600, thorough=8000, monitors=("file", "memory", "replace", "export"), big=10)
def sequences(ctx):
    r = ctx.rng
    kind = str(r.choice(KINDS))
    im, disk, mem, s, nodata = build(ctx, kind)
    shape = (disk if disk is not None else mem).shape
    nb = shape[2]
    ops = []
    for step in range(int(r.integers(4, 14))):
        op = str(r.choice(["read", "band", "memory band", "all memory", "load", "replace", "set", "export"]))
        b = int(r.integers(0, nb))
        if op == "replace" and mem is None or op == "export" and not kind.startswith("geotiff"):
            op = "load"
        if op in ("read", "load") and disk is None or op == "band" and disk is None and kind != "camera-memory":
            op = "memory band"
        if op in ("read", "load", "band") and kind == "igm":
            op = "memory band"
        ops.append(op)
        ctx.given(ops=ops)
        if op == "read":
            got = ctx.call(im.read_all_image_data_from_disk)
            pixels_equal(ctx, "file", got, disk, "image read from its file")
            if r.random() < 0.4 and got.flags.writeable:
                # the caller may do as it likes with what it has read
                got[...] = 3
                pixels_equal(ctx, "file", ctx.call(im.read_all_image_data_from_disk), disk, "image read from its file again")
        elif op == "band":
            want = disk
            if kind.startswith("camera") and mem is not None:
                want = mem
            got = ctx.call(im.read_band_from_disk, b)
            pixels_equal(ctx, "file", got, want[:, :, b], "band %d read from its file" % b)
            if r.random() < 0.4 and not (kind.startswith("camera") and mem is not None) and got.flags.writeable:
                got[...] = 3
                pixels_equal(ctx, "file", ctx.call(im.read_band_from_disk, b), want[:, :, b], "band %d read from its file again" % b)
        elif op == "memory band":
            got = ctx.call(im.get_image_band, b)
            if mem is None:
                ctx.check("memory", got is None, "a band of data never loaded")
            else:
                pixels_equal(ctx, "memory", got, mem[:, :, b], "band %d in memory" % b)
        elif op == "all memory":
            got = ctx.call(im.get_image_data)
            if mem is None:
                ctx.check("memory", got is None, "data never loaded")
            else:
                pixels_equal(ctx, "memory", got, mem, "image in memory")
        elif op == "load":
            data = ctx.call(im.read_all_image_data_from_disk)
            ctx.call(im.set_image_data, data)
            mem = disk.copy()
            pixels_equal(ctx, "memory", im.get_image_data(), mem, "image loaded from its file")
        elif op == "set":
            mem = images.pixels(r, shape[0], shape[1], nb, (disk if disk is not None else mem).dtype.str[1:])
            ctx.call(im.set_image_data, mem.copy())
            pixels_equal(ctx, "memory", ctx.call(im.get_image_data), mem, "image set")
        elif op == "replace":
            new = images.pixels(r, shape[0], shape[1], 1, mem.dtype.str[1:])[:, :, 0]
            ctx.call(im.set_image_band, new.copy(), b)
            mem = mem.copy()
            mem[:, :, b] = new
            pixels_equal(ctx, "replace", ctx.call(im.get_image_data), mem, "image after band %d was replaced" % b)
        elif op == "export":
            want = mem if mem is not None else disk
            if r.random() < 0.5:
                d = ctx.call(im.get_gdal_mem_datset)
            else:
                p = ctx.path("out_%d.tif" % step)
                ctx.call(im.write_to_disk, p)
                d = gdal.Open(p)
                back = ctx.call(ImageFactory.geotiff.from_file, p)
                pixels_equal(ctx, "export", ctx.call(back.read_all_image_data_from_disk), want, "image written and read again")
            ctx.equal("export", d.RasterCount, nb, "bands exported")
            for k in range(nb):
                ctx.equal("export", d.GetRasterBand(k + 1).ReadAsArray(), want[:, :, k], "band %d exported" % k)
            # exporting an image needs its pixels, and keeps them
            mem = want if im.get_image_data() is not None else mem
    if disk is not None and kind != "igm":
        pixels_equal(ctx, "file", ctx.call(im.read_all_image_data_from_disk), disk, "image read from its file after all")
        ctx.cover("sequence", kind)


@P.scenario(quick=400, thorough=4000, monitors=("metadata", "sensor"))
def parameters(ctx):
    """Size, data type, no-data and sensor of an image are those of what it was made from."""
    r = ctx.rng
    kind = str(r.choice([k for k in KINDS if k != "micasense"]))
    im, disk, mem, s, nodata = build(ctx, kind)
    data = disk if disk is not None else mem
    m = ctx.call(im.get_metadata)
    ctx.equal("metadata", (m.get_npix_y(), m.get_npix_x(), m.get_n_bands()), data.shape, "lines, samples and bands")
    if kind in ("geotiff-file", "geotiff-cube", "geotiff-flat", "vrs", "camera-file"):
        ctx.equal("metadata", m.get_gdal_datatype(), gdal_array.NumericTypeCodeToGDALTypeCode(data.dtype), "data type")
    if kind in ("geotiff-file", "vrs", "camera-file"):
        ctx.equal("metadata", os.path.basename(ctx.call(m.get_image_name)), os.path.splitext(os.path.basename(ctx.file))[0], "name")
    if kind != "envi":
        got = m.get_nodata_val()
        ctx.check("metadata", got is None if nodata is None else got is not None and got == nodata, "no-data value %r, not %r" % (got, nodata))
    if kind.startswith("geotiff"):
        c = im.get_point_calculator()
        ctx.close("sensor", np.asarray(c.get_geot(), float), np.asarray(s["g"], float), "geotransform", atol=0, rtol=1e-15)
        px, py = r.uniform(-1, 20, 5), r.uniform(-1, 20, 5)
        g = s["g"]
        x, y = ctx.call(c.pixel_x_y_alt_to_lon_lat, px, py, 0)
        tol = 1e-6 * max(abs(g[1]) + abs(g[2]), abs(g[4]) + abs(g[5]))
        ctx.close("sensor", x, g[0] + g[1] * px + g[2] * py, "easting of pixels", atol=tol + 1e-15 * abs(g[0]), rtol=1e-14)
        ctx.close("sensor", y, g[3] + g[4] * px + g[5] * py, "northing of pixels", atol=tol + 1e-15 * abs(g[3]), rtol=1e-14)
        lon, lat = S.transform(s["proj"], S.LL, *[np.array([v]) for v in (g[0], g[3])])
        a, b = S.transform(c.get_projection(), S.LL, *[np.array([v]) for v in (g[0], g[3])])
        ctx.close("sensor", np.ravel([a, b]), np.ravel([lon, lat]), "projection", atol=1e-7, rtol=0)
    elif kind == "vrs":
        c = s["c"]
        x = c["lon_off"] + c["lon_scale"] * r.uniform(-0.9, 0.9, 6)
        y = c["lat_off"] + c["lat_scale"] * r.uniform(-0.9, 0.9, 6)
        z = c["h_off"] + c["h_scale"] * r.uniform(-0.9, 0.9, 6)
        px, py = ctx.call(im.get_point_calculator().lon_lat_alt_to_pixel_x_y, x, y, z)
        wx, wy = s["ref"](x, y, z)
        ctx.close("sensor", px, wx, "samples", atol=1e-6 * (1 + np.abs(wx).max()), rtol=0)
        ctx.close("sensor", py, wy, "lines", atol=1e-6 * (1 + np.abs(wy).max()), rtol=0)
    elif kind.startswith("camera"):
        ctx.check("sensor", im.get_point_calculator() is s["calc"], "the image's camera is the one it was made with")


def leap(utc):
    """Leap seconds between the GPS epoch and a time, from the published list."""
    days = [(1981, 7), (1982, 7), (1983, 7), (1985, 7), (1988, 1), (1990, 1), (1991, 1), (1992, 7), (1993, 7), (1994, 7), (1996, 1),
            (1997, 7), (1999, 1), (2006, 1), (2009, 1), (2012, 7), (2015, 7), (2017, 1)]
    return sum(1 for y, m in days if utc >= datetime(y, m, 1, tzinfo=timezone.utc))


def dms(r, v):
    """A position in degrees as an EXIF rational triple, and the value it has."""
    v = abs(v)
    k = int(r.integers(0, 4))
    d, m = int(v), (v - int(v)) * 60
    if k == 0:
        t = [(d, 1), (int(m), 1), (int(round((m - int(m)) * 60 * 100000)), 100000)]
    elif k == 1:
        t = [(d, 1), (int(round(m * 1000000)), 1000000), (0, 1)]
    elif k == 2:
        t = [(int(round(v * 10000000)), 10000000), (0, 1), (0, 1)]
    else:
        t = [(d * 100, 100), (int(m) * 10, 10), (int(round((m - int(m)) * 60 * 1000)), 1000)]
    return t, t[0][0] / t[0][1] + t[1][0] / t[1][1] / 60 + t[2][0] / t[2][1] / 3600, ["dms", "dm", "d", "scaled"][k]


@P.scenario(quick=300, thorough=3000, monitors=("time", "position"))
def acquisition(ctx):
    """Acquisition time and position of each band of a five-band camera."""
    r = ctx.rng
    names, want = {}, {}
    for b in r.permutation(5):
        t = datetime.fromtimestamp(int(r.integers(0, 1400000000)) + 400000000, tz=timezone.utc)
        if r.random() < 0.3:
            # around the start of a GPS week
            t = datetime.fromtimestamp(315964800 + 604800 * int(r.integers(150, 2300)) + int(r.integers(-40, 40)), tz=timezone.utc)
        sub = "".join(str(v) for v in r.integers(0, 10, int(r.integers(1, 7))))
        lon, lat = float(r.uniform(-180, 180)), float(r.uniform(-90, 90))
        tlon, vlon, klon = dms(r, lon)
        tlat, vlat, klat = dms(r, lat)
        p = ctx.path("IMG_0007_%d.tif" % (b + 1))
        tiff.write(p, np.full((2, 3), b + 1, "u2"), [(0x9003, 2, t.strftime("%Y:%m:%d %H:%M:%S")), (0x9290, 2, sub)],
                   [(1, 2, "S" if lat < 0 else "N"), (2, 5, tlat), (3, 2, "W" if lon < 0 else "E"), (4, 5, tlon)],
                   big=bool(r.random() < 0.3))
        gps = t.timestamp() - 315964800 + leap(t)
        want[b] = (gps % 604800 + float("0." + sub), vlon if lon >= 0 else -vlon, vlat if lat >= 0 else -vlat)
        names["band%d" % (b + 1)] = p
        ctx.cover(klon, klat, "zeros first" if sub[0] == "0" else "digits")
        ctx.given(**{"band%d" % b: (str(t), sub, tlon, tlat)})
    im = S.five_band_image(ctx, names, [S.make("opencv", r, small=True) for _ in range(5)])
    for b in [int(v) for v in r.permutation(5)]:
        got = ctx.call(im.get_gps_timestamp_and_center, b)
        ctx.close("time", got["gps_timestamp"], want[b][0], "seconds of the GPS week", atol=1e-6, rtol=0)
        ctx.close("position", got["center"]["lon"], want[b][1], "longitude", atol=1e-9, rtol=0)
        ctx.close("position", got["center"]["lat"], want[b][2], "latitude", atol=1e-9, rtol=0)


@P.scenario(quick=200, thorough=2000, monitors=("camera", "pixels", "description"))
def five_bands(ctx):
    """Every band of a five-band camera has the pixels and the camera of its own file."""
    r = ctx.rng
    how = str(r.choice(["pix4d", "opencv"]))
    stem = str(r.choice(["IMG_0404", "a.b_17", "L0_IMG_0001", "x"]))
    place = S.location(r)
    proj = S.utm_proj(*place)
    X, Y = [float(v) for v in S.transform(S.LL, proj, *place)]
    base = dict(att=S.attitude(r, 15), h=float(10 ** r.uniform(1.5, 3)), ga=float(r.uniform(0, 500)), size=(1280, 960))
    names, params, refs = {}, {}, {}
    listed = []
    for b in [int(v) for v in r.permutation(5)]:
        p = ctx.path("%s_%d.tif" % (stem, b + 1))
        tiff.write(p, np.full((2, 3), 10 * b + 1, "u2"))
        names["band%d" % (b + 1)] = p
        if how == "pix4d":
            par, d = S.pix4d_params(r, os.path.basename(p), proj, X, Y, base["ga"] + base["h"], *base["att"], 1280, 960)
            params[os.path.basename(p)] = par
            refs[b] = S.pix4d_ref(par, d)[0]
        else:
            sub = S.make("opencv", r, place=place, proj=proj, base=base)
            q = dict(sub.info["params"], band_number=b + 1)
            listed.append(q)
            refs[b] = sub.ref
    if how == "pix4d":
        params["projection"] = proj
        im = ctx.call(ImageFactory.micasense.from_image_number_and_pix4d, names, params)
    else:
        im = ctx.call(ImageFactory.micasense.from_image_number_and_opencv, names, listed)
        for c in im.get_point_calculator().get_point_calcs():
            c.init_extrinsic(X, Y, base["ga"] + base["h"], *base["att"])
        ctx.call(im.get_point_calculator().set_projection, proj)
    ctx.cover(how, stem)
    ctx.given(how=how, names=names)
    m = im.get_metadata()
    ctx.equal("description", (m.get_npix_x(), m.get_npix_y(), m.get_n_bands(), m.get_nodata_val()), (1280, 960, 5, 0), "description")
    ctx.equal("description", m.get_image_name(), os.path.join(os.path.dirname(names["band1"]), stem), "name")
    x, y = X + r.uniform(-0.1, 0.1, 4) * base["h"], Y + r.uniform(-0.1, 0.1, 4) * base["h"]
    z = np.full(4, base["ga"])
    calc = im.get_point_calculator()
    ctx.equal("description", calc.get_projection().srs, proj.srs, "projection")
    ctx.check("description", not calc.bands_coregistered(), "bands of separate cameras are not coregistered")
    for b in [int(v) for v in r.permutation(5)]:
        px, py = ctx.call(calc.lon_lat_alt_to_pixel_x_y, x, y, z, band=b)
        wx, wy = refs[b](x, y, z)
        ctx.close("camera", px, wx, "x of band %d" % b, atol=1e-5, rtol=1e-9)
        ctx.close("camera", py, wy, "y of band %d" % b, atol=1e-5, rtol=1e-9)
        ctx.equal("pixels", ctx.call(im.read_band_from_disk, b), np.full((2, 3), 10 * b + 1), "pixels of band %d" % b)
    ctx.equal("pixels", ctx.call(im.read_all_image_data_from_disk)[1, 2], np.arange(5) * 10 + 1, "pixels of all bands")


@P.scenario(quick=150, thorough=1500, monitors=("members", "camera"))
def sensor_model(ctx):
    """A set of cameras follows additions and replacements."""
    r = ctx.rng
    place = S.location(r)
    proj = S.utm_proj(*place)
    base = dict(att=S.attitude(r, 15), h=float(10 ** r.uniform(1.5, 3)), ga=0.0, size=(64, 48))
    m = EarthOverheadSensorModel()
    have = []
    ctx.call(m.set_projection, proj)

    def new():
        return S.make("opencv", r, place=place, proj=proj, base=base)
    for _ in range(int(r.integers(2, 8))):
        op = str(r.choice(["add", "update", "set"]))
        if op == "add" or not have:
            have.append(new())
            ctx.call(m.add_point_calc, have[-1].calc)
        elif op == "update":
            i = int(r.integers(0, len(have)))
            have[i] = new()
            ctx.call(m.update_point_calc, i, have[i].calc)
        else:
            have = [new() for _ in range(int(r.integers(1, 4 if r.random() < 0.7 else 9)))]
            ctx.call(m.set_point_calcs, [s.calc for s in have])
        ctx.cover(op)
    ctx.equal("members", ctx.call(m.get_num_point_calcs), len(have), "number of cameras")
    ctx.check("members", all(m.get_point_calc(i) is s.calc for i, s in enumerate(have)), "cameras in their order")
    ctx.check("members", [id(v) for v in m.get_point_calcs()] == [id(s.calc) for s in have], "list of cameras")
    X, Y = [float(v) for v in S.transform(S.LL, proj, *place)]
    for b in [int(v) for v in r.permutation(len(have))]:
        px, py = ctx.call(m.lon_lat_alt_to_pixel_x_y, X + 1.0, Y - 2.0, 0.0, band=b)
        wx, wy = have[b].ref(X + 1.0, Y - 2.0, 0.0)
        ctx.close("camera", (px, py), (float(wx), float(wy)), "camera %d answers for band %d" % (b, b), atol=1e-6, rtol=1e-9)
