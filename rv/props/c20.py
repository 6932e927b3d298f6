"""C20: Pix4D parameter files give the cameras they describe."""
import os

import numpy as np
from osgeo import osr

from rv.core import Registry
from rv import sensors as S
from resippy.utils import pix4d_utils as pu
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc import Pix4dPointCalc

P = Registry("C20", "Pix4D collects of 1 to 6 images times 1 to 9 cameras written to scratch files in the Pix4D layout: record "
                    "orders, three line ends, missing or extra final line ends, blank lines, trailing spaces, header texts, "
                    "exponent notation; every parameter read is compared with the one written and every camera built is compared "
                    "with the reference camera of the parameters.", boost=25)


def num(r, v):
    """A number as text, and its exact value."""
    k = int(r.integers(0, 4))
    t = ["%r" % float(v), "%.17g" % v, "%.12f" % v, "%.10e" % v][k]
    return t, float(t)


class Collect(object):
    def __init__(self, ctx):
        self.r = r = ctx.rng
        self.place = S.location(r)
        self.proj = S.utm_proj(*self.place)
        self.X, self.Y = [float(v) for v in S.transform(S.LL, self.proj, *self.place)]
        self.ncam = int(r.choice([1, 2, 5, r.integers(1, 10)]))
        self.nimg = ctx.many(int(r.integers(1, 6)), 300)
        self.cams = []
        self.eol = str(r.choice(["\n", "\r\n", "\n"]))
        for c in range(self.ncam):
            w = float(np.round(r.uniform(3, 36), int(r.integers(1, 6))))
            h = float(np.round(w * r.uniform(0.6, 1), int(r.integers(1, 6))))
            d = S.distortion(r)
            p = {"F": r.uniform(2, 50), "Px": w / 2 * r.uniform(0.9, 1.1), "Py": h / 2 * r.uniform(0.9, 1.1), "K1": d["k1"],
                 "K2": d["k2"], "K3": d["k3"], "T1": d["p1"], "T2": d["p2"]}
            self.cams.append(dict(w=w, h=h, size=(int(r.integers(8, 5000)), int(r.integers(8, 5000))), p=p, d=d))
        prefix = str(r.choice(["IMG_%04d", "DJI_%d", "flight-2_%03d", "a.b_%d"]))
        ext = str(r.choice([".tif", ".TIF", ".jpg"]))
        self.images = []
        for i in range(self.nimg):
            for c in range(self.ncam):
                o, p, k = S.attitude(r, 20)
                z = float(r.uniform(50, 3000))
                # the camera matrix and position are written as in a file, next to the external parameters
                self.images.append(dict(name=(prefix % (i * 7)) + "_%d" % (c + 1) + ext, cam=c,
                                        ext=[self.X + r.uniform(-500, 500), self.Y + r.uniform(-500, 500), z,
                                             np.rad2deg(o), np.rad2deg(p), np.rad2deg(k)]))

        if r.random() < 0.3:
            # not every camera has taken every image
            self.images = [self.images[int(k)] for k in np.sort(r.permutation(len(self.images))[:int(r.integers(1, len(self.images) + 1))])]

    def finish(self, lines):
        r = self.r
        t = self.eol.join(lines)
        k = int(r.integers(0, 4))
        return t + ["", self.eol, self.eol * 2, self.eol + "  " + self.eol][k], ["bare", "line", "blank", "spaces"][k]

    def shuffled(self):
        v = list(self.images)
        if self.r.random() < 0.5:
            self.r.shuffle(v)
        return v

    def internal(self, some_missing=False):
        r = self.r
        lines = []
        for n, c in enumerate(self.cams):
            lines.append("Pix4D camera calibration file %d" % n)
            if r.random() < 0.7:
                lines.append("")
            lines.append("#Focal Length mm assuming a sensor width of %rx%rmm" % (c["w"], c["h"]))
            c["read"] = {"fpa_width_mm": c["w"], "fpa_height_mm": c["h"]}
            gone = set()
            if some_missing and r.random() < 0.5:
                gone = set(str(v) for v in r.choice(["F", "Px", "Py", "K1", "K2", "K3", "T1", "T2"], int(r.integers(1, 4))))
            for k in ("F", "Px", "Py", "K1", "K2", "K3", "T1", "T2"):
                if k == "Px":
                    lines.append("#Principal Point mm")
                if k == "K1":
                    lines += ["#Symmetrical Lens Distortion Odd-order Polynomial Coeffs"]
                if k == "T1":
                    lines += ["#Tangential Lens Distortion Coeffs"]
                t, v = num(r, c["p"][k])
                if k in gone:
                    continue
                c["read"][k] = v
                lines.append(k + " " + t)
            if n < len(self.cams) - 1 and r.random() < 0.7:
                lines.append("")
        return self.finish(lines)

    def external(self):
        lines = ["imageName X Y Z Omega Phi Kappa"]
        for im in self.shuffled():
            f = [num(self.r, v) for v in im["ext"]]
            im["ext_read"] = [v for _, v in f]
            lines.append(" ".join([im["name"]] + [t for t, _ in f]) + (" " if self.r.random() < 0.1 else ""))
        return self.finish(lines)

    def calibrated(self):
        r = self.r
        lines = ["fileName imageWidth imageHeight", "camera matrix K [3x3]", "radial distortion [3x1]",
                 "tangential distortion [2x1]", "camera position t [3x1]", "camera rotation R [3x3]",
                 "camera model m = K [R|-Rt] X", ""]
        for im in self.shuffled():
            c = self.cams[im["cam"]]
            lines.append("%s %d %d" % ((im["name"],) + c["size"]))
            ppm = c["size"][0] / c["w"]
            R = np.diag([1.0, -1, -1]) @ S.m_of(*np.deg2rad(im["ext"][3:]))
            d = c["d"]
            blocks = [("camera_matrix_k", np.array([[c["p"]["F"] * ppm, 0, c["p"]["Px"] * ppm],
                                                    [0, c["p"]["F"] * ppm, c["p"]["Py"] * ppm], [0, 0, 1.0]])),
                      ("radial_distortion", np.array([[d["k1"], d["k2"], d["k3"]]])),
                      ("tangential_distortion", np.array([[d["p1"], d["p2"]]])),
                      ("camera_position_t", np.array([im["ext"][:3]])), ("camera_rotation_r", R)]
            im["cal_read"] = {"n_x_pixels": c["size"][0], "n_y_pixels": c["size"][1]}
            for name, a in blocks:
                v = np.zeros(a.shape)
                for i, row in enumerate(a):
                    t = [num(r, q) for q in row]
                    v[i] = [q for _, q in t]
                    lines.append(" ".join(q for q, _ in t))
                im["cal_read"][name] = v[0] if "distortion" in name else v
        return self.finish(lines)


def put(path, text):
    with open(path, "w", newline="") as f:
        f.write(text)


def same(ctx, mon, got, want, what):
    ctx.check(mon, sorted(got) == sorted(want), "%s has entries %s instead of %s" % (what, sorted(got), sorted(want)))
    for k in want:
        ctx.equal(mon, np.asarray(got[k], float), np.asarray(want[k], float), "%s of %s" % (k, what))




@P.scenario(quick=150, thorough=2500, monitors=("internal", "external", "calibrated", "projection-matrices"), big=3)
def files(ctx):
    """Each kind of file alone."""
    r = ctx.rng
    c = Collect(ctx)
    ti, ei = c.internal()
    te, ee = c.external()
    tc, ec = c.calibrated()
    ctx.given(cams=c.ncam, images=[i["name"] for i in c.images], internal=ti, external=te)
    ctx.cover("cameras", c.ncam)
    ctx.cover("end", ei, ee, ec)
    pi, pe, pc = ctx.path("x.cam"), ctx.path("e.txt"), ctx.path("c.txt")
    put(pi, ti), put(pe, te), put(pc, tc)
    reader = Pix4dPointCalc()
    for src in (pu, reader):
        got = ctx.call(src.read_pix4d_calibrated_internal_camera_parameters, pi)
        ctx.check("internal", len(got) == c.ncam, "%d cameras read, %d written" % (len(got), c.ncam))
        for k in range(c.ncam):
            same(ctx, "internal", got[k], c.cams[k]["read"], "camera %d" % k)
        # a section that leaves entries out does not take them from another section
        put(pi, c.internal(some_missing=True)[0])
        got = ctx.call(src.read_pix4d_calibrated_internal_camera_parameters, pi)
        ctx.check("internal", len(got) == c.ncam, "%d cameras read, %d written" % (len(got), c.ncam))
        for k in range(c.ncam):
            same(ctx, "internal", got[k], c.cams[k]["read"], "camera %d of a file with gaps" % k)
        put(pi, c.internal()[0])
        got = ctx.call(src.read_calibrated_external_camera_parameters, pe)
        same(ctx, "external", got, {i["name"]: i["ext_read"] for i in c.images}, "the external parameters")
    got = ctx.call(pu.read_calibrated_camera_parameters, pc)
    ctx.check("calibrated", sorted(got) == sorted(i["name"] for i in c.images), "images %s read" % sorted(got))
    for im in c.images:
        same(ctx, "calibrated", got[im["name"]], im["cal_read"], im["name"])
    lines, want = [], {}
    for im in c.images:
        f = [num(r, v) for v in r.normal(0, 1000, 12)]
        want[im["name"]] = [v for _, v in f]
        lines.append(" ".join([im["name"]] + [t for t, _ in f]))
    put(ctx.path("p.txt"), c.finish(lines)[0])
    same(ctx, "projection-matrices", ctx.call(pu.read_p_matrices, ctx.path("p.txt")), want, "the projection matrices")


@P.scenario(quick=120, thorough=2000, monitors=("collect", "rotation", "camera", "names"), big=3)
def collects(ctx):
    """A whole collect, read into one dictionary, and the cameras built from it."""
    r = ctx.rng
    c = Collect(ctx)
    base = ctx.path("params")
    os.makedirs(base)
    pre = str(r.choice(["", "flight_", "my flight "]))
    ti, te, tc = c.internal()[0], c.external()[0], c.calibrated()[0]
    names = [pre + "pix4d_calibrated_internal_camera_parameters.cam", pre + "calibrated_external_camera_parameters.txt",
             pre + "calibrated_camera_parameters.txt", pre + "wkt.prj"]
    own = r.random() < 0.3
    if own:
        names = ["cams.cam", "outside.txt", "inside.txt", "where.prj"]
    srs = osr.SpatialReference()
    srs.ImportFromProj4(c.proj.srs)
    for n, t in zip(names, (ti, te, tc, srs.ExportToWkt())):
        put(os.path.join(base, n), t)
    if not own:
        for n in ("calibrated_external_camera_parameters_wgs84.txt", "calibrated_images_position.txt", "offset.xyz", "pmatrix.txt"):
            put(os.path.join(base, pre + n), "other\n")
        for n in names:
            # earlier versions of the files
            if r.random() < 0.5:
                put(os.path.join(base, n + str(r.choice(["~", ".bak", ".orig", "_old"]))), "other\n")
    ctx.given(names=names, cams=c.ncam, images=[i["name"] for i in c.images], ext=[i["ext"] for i in c.images[:3]])
    ctx.cover("cameras", c.ncam, "own names" if own else "found")
    kw = dict(internal_params_fname=names[0], external_params_fname=names[1], calibrated_params_fname=names[2],
              wkt_fname=names[3]) if own else {}
    m = ctx.call(pu.make_master_dict, base, **kw)
    ctx.check("names", set(i["name"] for i in c.images) <= set(m), "images are missing from the collect")
    x, y = S.transform(S.LL, c.proj, np.array([c.place[0], c.place[0] + 0.2]), np.array([c.place[1], c.place[1] + 0.1]))
    u, v = S.transform(S.LL, m["projection"], np.array([c.place[0], c.place[0] + 0.2]), np.array([c.place[1], c.place[1] + 0.1]))
    ctx.close("collect", [u, v], [x, y], "the projection of the collect is another one", atol=1e-6, rtol=0)
    for im in c.images:
        e = m[im["name"]]
        cam = c.cams[im["cam"]]
        same(ctx, "collect", {k: e[k] for k in im["cal_read"]}, im["cal_read"], im["name"])
        ctx.equal("collect", np.asarray(e["external_params"], float), np.asarray(im["ext_read"]), "external parameters of " + im["name"])
        same(ctx, "collect", e["internal_params"], cam["read"], "internal parameters of " + im["name"])
        ctx.close("rotation", e["r_matrix_computed"], S.m_of(*np.deg2rad(im["ext_read"][3:])).T, "the rotation computed for "
                  + im["name"], atol=1e-12)
        ctx.close("rotation", pu.create_r_matrix(im["ext_read"]), S.m_of(*np.deg2rad(im["ext_read"][3:])).T, "rotation", atol=1e-12)
    for k in r.integers(0, len(c.images), 3):
        im = c.images[int(k)]
        cam = c.cams[im["cam"]]
        model = "regular" if r.random() < 0.7 else None
        full = im["name"] if r.random() < 0.5 else os.path.join("/data/some where", im["name"])
        pc = ctx.call(Pix4dPointCalc.init_from_params, full, m, distortion_model=model)
        par = dict(im["cal_read"], external_params=im["ext_read"], internal_params=cam["read"])
        d = dict(zip(("k1", "k2", "k3"), im["cal_read"]["radial_distortion"]))
        d.update(zip(("p1", "p2"), im["cal_read"]["tangential_distortion"]))
        ref, g0 = S.pix4d_ref(par, d, dist=model == "regular")
        px, py = r.uniform(0, cam["size"][0], 6), r.uniform(0, cam["size"][1], 6)
        gx, gy = g0(px, py, 0.0)
        a, b = ctx.call(pc.lon_lat_alt_to_pixel_x_y, gx, gy, np.zeros(6))
        ea, eb = ref(gx, gy, np.zeros(6))
        ctx.close("camera", a, ea, "the camera of %s images a point elsewhere" % im["name"], rtol=1e-9, atol=1e-5)
        ctx.close("camera", b, eb, "the camera of %s images a point elsewhere" % im["name"], rtol=1e-9, atol=1e-5)
        ctx.equal("camera", list(pc.get_approximate_lon_lat_center()), im["ext_read"][:2], "the centre of the camera")


@P.scenario(quick=20, thorough=100, monitors=("refused",))
def broken(ctx):
    """A collect that lacks an image's parameters is refused."""
    r = ctx.rng
    c = Collect(ctx)
    base = ctx.path("params")
    os.makedirs(base)
    ti, te, tc = c.internal()[0], c.external()[0], c.calibrated()[0]
    srs = osr.SpatialReference()
    srs.ImportFromProj4(c.proj.srs)
    how = str(r.choice(["camera", "external", "file"]))
    if how == "camera":
        c2 = c.cams[:-1]
        ti = "" if not c2 else ti[:ti.rindex("Pix4D")]
    if how == "external":
        gone = c.images[int(r.integers(0, len(c.images)))]["name"]
        te = "\n".join(q for q in te.replace("\r", "").split("\n") if not q.startswith(gone + " "))
    ctx.given(how=how, cams=c.ncam)
    ctx.cover(how)
    if how == "camera" and not (ti and any(i["cam"] == c.ncam - 1 for i in c.images)):
        return
    for n, t in zip(("pix4d_calibrated_internal_camera_parameters.cam", "calibrated_external_camera_parameters.txt",
                     "calibrated_camera_parameters.txt", "wkt.prj"), (ti, te, tc, srs.ExportToWkt())):
        if how == "file" and n.startswith("calibrated_ext"):
            continue
        put(os.path.join(base, n), t)
    ctx.must_raise("refused", pu.make_master_dict, "a collect with parameters missing is answered", base)
