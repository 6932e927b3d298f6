"""C26: the workloads of all other properties, watched for side effects; and long histories of questions."""
import importlib
import os
import tempfile

import numpy as np

from osgeo import gdal
from shapely.geometry import box

from rv.core import Registry, Violation
from rv import env, sensors as S
from rv.immut import content, process_state
env.install_pdal_stub()
from resippy.photogrammetry import ortho_tools  # noqa: E402
from resippy.spectral.spectrum import Spectrum  # noqa: E402
from resippy.utils import pix4d_utils, photogrammetry_utils as pu  # noqa: E402

MODULES = ["c%02d" % i for i in range(1, 26)]
P = Registry("C26", "Every scenario of the other properties, run with monitors around each call (digests of arguments, of the arrays held by "
                    "the objects involved, of the process state and of the files next to the inputs; each query asked twice), and "
                    "random histories of up to 60 questions to one set of objects whose answers must not change.")
MONITORS = ("arguments", "objects", "process", "files", "repeat")
SETTINGS = (dict(all="warn"), dict(all="ignore"), dict(divide="warn", over="ignore", under="ignore", invalid="warn"))
# runs child processes, or times calls
SKIP = {("c18", "time_zones")}


def confined(ctx, fn):
    """Run fn with empty working, home and temporary directories, which have to stay empty."""
    top = ctx.scratch
    box = tempfile.mkdtemp(prefix="rvbox_")
    dirs = {}
    old = os.getcwd(), os.environ.get("HOME"), os.environ.get("TMPDIR"), tempfile.tempdir
    try:
        for k in ("work", "home", "tmp"):
            dirs[k] = os.path.join(box, k)
            os.mkdir(dirs[k])
        os.chdir(dirs["work"])
        os.environ["HOME"], os.environ["TMPDIR"] = dirs["home"], dirs["tmp"]
        tempfile.tempdir = dirs["tmp"]
        # settings a caller may well have, that code silencing its own warnings would change
        np.seterr(**SETTINGS[ctx.index % len(SETTINGS)])
        fn()
        for k in dirs:
            left = os.listdir(dirs[k])
            ctx.count("files")
            if left:
                raise Violation("files", "the calls left %s in the %s directory" % (left[:5], k), {"calls": ctx.trail[-12:]})
    finally:
        os.chdir(old[0])
        for k, v in (("HOME", old[1]), ("TMPDIR", old[2])):
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        tempfile.tempdir = old[3]
        import shutil
        shutil.rmtree(box, ignore_errors=True)
    assert top


def rerun(fn):
    def body(ctx):
        ctx.mode = "immutability"

        def go():
            try:
                fn(ctx)
            except Violation as v:
                if v.monitor in MONITORS:
                    raise
            except Exception as e:
                # what the call answers is for its own property
                ctx.cover("ended", type(e).__name__)
        confined(ctx, go)
    return body


for _m in MODULES:
    if not os.path.exists(os.path.join(os.path.dirname(__file__), _m + ".py")):
        continue
    _reg = importlib.import_module("rv.props." + _m).P
    for _s in _reg.scenarios:
        if (_m, _s.name) in SKIP:
            continue
        P.scenario(quick=min(max(8, _s.quick // _reg.boost // 5), 90), thorough=max(20, _s.quick // _reg.boost), monitors=("process",),
                   name="%s.%s" % (_m, _s.name), timeout=_s.timeout)(rerun(_s.fn))


def answer(x):
    """What can be compared of an answer: image objects become their pixels and georeferencing."""
    if hasattr(x, "get_metadata") and hasattr(x, "get_image_data"):
        d = x.get_image_data()
        if d is None:
            d = x.read_all_image_data_from_disk()
        c = x.get_point_calculator() if hasattr(x, "get_point_calculator") else None
        return (np.asarray(d), [float(v) for v in c.get_geot()] if hasattr(c, "get_geot") else None,
                c.get_projection().srs if c is not None else None, {k: v for k, v in x.get_metadata().metadata_dict.items()})
    if isinstance(x, Spectrum):
        return (x.get_wavelengths(), x.get_spectral_data(), x.get_spectrum_units())
    return x


def play(ctx, questions, length):
    """Ask at random, again and again; every question keeps its first answer, and given answers stay as they were."""
    r = ctx.rng
    names = [q[0] for q in questions]
    first, held = {}, {}
    asked = []
    for step in range(length):
        i = int(r.integers(0, len(questions)))
        name, fn, args, kw = questions[i]
        before = [content(a) for a in args] + [content(v) for v in kw.values()]
        state = process_state()
        asked.append(name)
        try:
            got = ctx.call(fn, *args, _name=name, **kw)
        except Exception as e:
            got = ("raised", type(e).__name__)
            ctx.cover("raised", name)
        after = process_state()
        ctx.count("process", len(after))
        for k in state:
            if after[k] != state[k]:
                ctx.fail("process", "%s changed the %s" % (name, k))
        ctx.check("arguments", [content(a) for a in args] + [content(v) for v in kw.values()] == before, "%s modified its arguments" % name)
        a = answer(got)
        c = content(a)
        if i in first:
            ctx.check("history", c == first[i], "%s gave another answer after %s" % (name, asked[-8:-1]), now=a)
        else:
            first[i] = c
            held[i] = a
            ctx.cover("question", name)
    for i, a in held.items():
        ctx.check("kept answers", content(a) == first[i], "the answer %s gave was changed later" % names[i])


@P.scenario(quick=700, thorough=8000, monitors=("history", "kept answers", "arguments", "process"))
def sensor_histories(ctx):
    """One image, one terrain, many questions."""
    from rv.props.c07 import footprint, nodata_for, setting

    def go():
        r, s, im, data, t, dem, lo, hi = setting(ctx)
        calc = im.get_point_calculator()
        nb = data.shape[2]
        q = []
        for _ in range(3):
            b = int(r.integers(0, nb))
            n = int(r.integers(1, 6))
            px, py = s.pixels(r, n)
            z = np.full(n, float(r.uniform(lo, hi)))
            x, y = [np.array(v, float) for v in s.ground(px, py, z, b if s.nbands > 1 else 0)]
            w = S.world_projs(r, *s.place)[int(r.integers(0, 9))][1]
            wx, wy = S.transform(s.proj, w, x, y)
            q += [("ground to pixel", calc.lon_lat_alt_to_pixel_x_y, (x, y, z), dict(band=b)),
                  ("ground to pixel elsewhere", calc.lon_lat_alt_to_pixel_x_y, (np.array(wx), np.array(wy), z), dict(world_proj=w, band=b)),
                  ("pixel to ground", calc.pixel_x_y_alt_to_lon_lat, (px, py, z), dict(band=b)),
                  ("pixel to ground elsewhere", calc.pixel_x_y_alt_to_lon_lat, (px, py, z), dict(world_proj=w, band=b)),
                  ("one pixel", calc.pixel_x_y_alt_to_lon_lat, (px[:1], py[:1], z[:1]), dict(band=b)),
                  ("band in memory", im.get_image_band, (b,), {}) if im.get_image_data() is not None else
                  ("band on disk", im.read_band_from_disk, (b,), {})]
            if dem is not None:
                q += [("elevations", dem.get_elevations, (x, y, s.proj), {}), ("elevations elsewhere", dem.get_elevations, (np.array(wx), np.array(wy), w), {}),
                      ("highest", dem.get_highest_alt, (), {}), ("lowest", dem.get_lowest_alt, (), {})]
                if s.kind not in ("geotiff", "igm"):
                    q += [("cast", calc.pixel_x_y_to_lon_lat_alt, (px, py, dem), dict(band=b)),
                          ("cast elsewhere", calc.pixel_x_y_to_lon_lat_alt, (px, py, dem), dict(band=b, world_proj=w))]
            xs, ys = footprint(s, b, lo, hi)
            poly = box(float(np.min(xs)), float(np.min(ys)), float(np.max(xs)), float(np.max(ys)))
            q += [("ortho", ortho_tools.create_ortho_gtiff_image_world_to_sensor, (im, 7, 5, poly),
                   dict(dem=dem, bands=[b], nodata_val=nodata_for(r, data.dtype.str[1:]), world_proj=s.proj)),
                  ("extent", ortho_tools.get_extent, (im,), dict(dem=dem)),
                  ("size of extent", pu.get_nx_ny_pixels_in_extent, (poly, 0.5, 0.7), {})]
            if s.kind not in ("geotiff", "igm"):
                q += [("pixel positions", ortho_tools.get_pixel_lon_lats, (im,), dict(dem=dem, band=b if s.nbands > 1 else None))]
            if s.kind == "geotiff":
                q += [("memory copy", lambda: gdal_pixels(im.get_gdal_mem_datset()), (), {}),
                      ("map extent", calc.get_world_extent_native, (), {}),
                      ("pixel values", ortho_tools.get_pixel_values, (im, x, y, z), dict(window=3))]
        ctx.given(kind=s.kind, data=data, questions=len(q))
        play(ctx, q, int(r.integers(20, 60)))
    confined(ctx, go)


def gdal_pixels(d):
    return np.stack([d.GetRasterBand(b + 1).ReadAsArray() for b in range(d.RasterCount)], axis=2), list(d.GetGeoTransform())


@P.scenario(quick=300, thorough=4000, monitors=("history", "kept answers", "arguments", "process"))
def record_histories(ctx):
    """Navigation solutions, spectra and Pix4D collects."""
    def go():
        r = ctx.rng
        q = []
        kind = str(r.choice(["navigation", "spectrum", "pix4d"]))
        if kind == "navigation":
            from rv.props.c19 import QUERIES, ask, make
            nav, table, which, pr = make(ctx)
            for name in list(QUERIES) + ["get_nav_records"]:
                for _ in range(2):
                    t = ask(r, table, int(r.choice([2, 5])))
                    q.append((name, getattr(nav, name), (t if r.random() < 0.7 else float(t[0]),), {}))
                out = table["gps_time"][-1] + 10.0
                q.append((name + " outside", getattr(nav, name), (np.array([out]),), {}))
            q += [("records", nav.get_num_records, (), {}), ("projection", lambda: nav.get_projection().srs, (), {})]
        elif kind == "spectrum":
            s = Spectrum()
            n = int(r.integers(8, 60))
            w = np.sort(r.uniform(0.35, 2.5, n))
            v = r.uniform(0, 1, n)
            v[r.random(n) < 0.2] = -1.23e34
            s.set_wavelengths(w), s.set_spectral_data(v), s.set_nodata_val(-1.23e34)
            bands = []
            for c in (0.8, 1.5):
                b = Spectrum()
                b.set_wavelengths(np.linspace(c - 0.1, c + 0.1, 9)), b.set_spectral_data(np.hanning(9))
                bands.append(b)
            q = [("samples", s.get_spectral_data, (), {}), ("raw samples", s.get_spectral_data, (), dict(nodata_to_nan=False)),
                 ("wavelengths", s.get_wavelengths, (), {}), ("units", s.get_spectrum_units, (), {}),
                 ("resampled", s.resample_spectrum_direct, (bands, np.array([0.8, 1.5])), {}),
                 ("response", bands[0].get_spectral_data, (), {}), ("response wavelengths", bands[1].get_wavelengths, (), {})]
        else:
            from rv.props.c20 import Collect, put
            c = Collect(ctx)
            p = [ctx.path(n) for n in ("i.cam", "e.txt", "c.txt")]
            put(p[0], c.internal()[0]), put(p[1], c.external()[0]), put(p[2], c.calibrated()[0])
            one = pix4d_utils.read_pix4d_calibrated_internal_camera_parameters
            ext = [float(v) for v in c.images[0]["ext"]]
            q = [("internal", one, (p[0],), {}),
                 ("external", pix4d_utils.read_calibrated_external_camera_parameters, (p[1],), {}),
                 ("calibrated", pix4d_utils.read_calibrated_camera_parameters, (p[2],), {}),
                 ("rotation", pix4d_utils.create_r_matrix, (ext,), {})]
        ctx.given(kind=kind, questions=[a[2] for a in q], draw=float(r.random()))
        ctx.cover(kind)
        play(ctx, q, int(r.integers(15, 50)))
    confined(ctx, go)
