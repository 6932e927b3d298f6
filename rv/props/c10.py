"""C10: ENVI images and headers."""
import os
import numpy as np
from osgeo import gdal
from rv.core import Registry
from resippy.utils import envi_utils as eu
from resippy.image_objects.image_factory import ImageFactory

P = Registry("C10", "Cubes of every ENVI data type, shape and interleave, written by resippy and by an independent "
                    "writer (both byte orders, header offsets, shuffled and decorated headers), read by resippy's "
                    "reader, the image object, GDAL and a raw-bytes reference; truncated files have to be refused.", boost=40)

CODES = {1: "u1", 2: "i2", 3: "i4", 4: "f4", 5: "f8", 6: "c8", 9: "c16", 12: "u2", 13: "u4", 14: "i8", 15: "u8"}


def cube(r, code=None, ctx=None):
    code = code or int(r.choice(list(CODES)))
    dt = np.dtype(CODES[code])
    ny, nx, nb = (int(v) for v in r.integers(1, 9, 3))
    if ctx is not None and ctx.big:
        ny, nx = ctx.shape(1, 9, 1000000)
        nb = max(1, min(ctx.many(30, 1500), 1500000 // (ny * nx)))
    if dt.kind in "ui":
        info = np.iinfo(dt)
        c = r.integers(info.min, info.max, (ny, nx, nb), endpoint=True, dtype=dt)
    elif dt.kind == "f":
        c = (r.normal(size=(ny, nx, nb)) * 10.0 ** r.uniform(-5, 5)).astype(dt)
        if r.random() < 0.3:
            c.ravel()[int(r.integers(0, c.size))] = np.nan
    else:
        c = (r.normal(size=(ny, nx, nb)) + 1j * r.normal(size=(ny, nx, nb))).astype(dt)
    lay = str(r.choice(["C", "F", "view"]))
    if lay == "F":
        c = np.asfortranarray(c)
    elif lay == "view":
        c = np.repeat(c, 2, axis=1)[:, ::2]
    return c, code, lay


def to_raw(c, inter, order):
    ax = {"bsq": (2, 0, 1), "bil": (0, 2, 1), "bip": (0, 1, 2)}[inter]
    a = np.ascontiguousarray(np.transpose(c, ax))
    return a.astype(a.dtype.newbyteorder(">" if order else "<")).tobytes()


def from_raw(raw, dt, ny, nx, nb, inter):
    a = np.frombuffer(raw, dt.newbyteorder("<"))
    if inter == "bsq":
        return a.reshape(nb, ny, nx).transpose(1, 2, 0).astype(dt)
    if inter == "bil":
        return a.reshape(ny, nb, nx).transpose(0, 2, 1).astype(dt)
    return a.reshape(ny, nx, nb).astype(dt)


@P.scenario(quick=150, thorough=2500, monitors=("round-trip", "file-bytes", "image-object"), big=10)
def write_read(ctx):
    r = ctx.rng
    c, code, lay = cube(r, ctx=ctx)
    inter = str(r.choice(["bil", "bip", "bsq"]))
    ctx.given(cube=c, interleave=inter)
    ctx.cover("type", code, inter)
    ctx.cover("layout", lay)
    folder = ctx.path(str(r.choice(["f", "2019.06", "x.img", "x.hdr"])))
    os.mkdir(folder)
    p = os.path.join(folder, str(r.choice(["scene.img", "scene.dat", "scene", "a.b.img", "a.b.c"])))
    hdr = None if r.random() < 0.6 else ctx.path("other_name.hdr")
    kw = {} if inter == "bil" and r.random() < 0.5 else {"interleave": inter}
    ctx.call(eu.write_envi_image, c, p, output_header_fname=hdr, **kw)
    got = ctx.call(eu.read_envi_image, p, hdr)
    ctx.equal("round-trip", got.dtype, c.dtype, "data type changes on a round trip")
    ctx.equal("round-trip", got, c, "image changes on a round trip")
    with open(p, "rb") as f:
        raw = f.read()
    ctx.equal("file-bytes", len(raw), c.nbytes, "size of the data file")
    ctx.equal("file-bytes", from_raw(raw, c.dtype, c.shape[0], c.shape[1], c.shape[2], inter), c,
              "data file does not hold the samples in the declared interleave")
    h = ctx.call(eu.read_envi_header, hdr or p + ".hdr")
    ctx.equal("file-bytes", (h["samples"], h["lines"], h["bands"], h["data type"], h["interleave"]),
              (c.shape[1], c.shape[0], c.shape[2], code, inter), "header of the written image")
    if hdr is None:
        ds = gdal.Open(p)
        if ds is None or code in (14, 15):
            return
        a = ds.ReadAsArray()
        a = a[None] if a.ndim == 2 else a
        ctx.equal("file-bytes", np.transpose(a, (1, 2, 0)), c, "GDAL reads other samples from the written image")
        ds = None
        img = ctx.call(ImageFactory.envi.from_file, p)
        md = img.get_metadata()
        ctx.equal("image-object", (md.get_npix_x(), md.get_npix_y(), md.get_n_bands()),
                  (c.shape[1], c.shape[0], c.shape[2]), "dimensions of the image object")
        full = ctx.call(img.read_all_image_data_from_disk)
        ctx.equal("image-object", full, c, "all image data of the image object")
        for b in r.permutation(c.shape[2])[:3]:
            ctx.equal("image-object", ctx.call(img.read_band_from_disk, int(b)), np.ascontiguousarray(c[:, :, b]),
                      "band of the image object")
        img.set_image_data(full)
        ctx.equal("image-object", ctx.call(img.get_image_band, 0), c[:, :, 0], "band from memory")


def decorated_header(ctx, r, c, code, inter, order, offset):
    nb = c.shape[2]
    wl = np.sort(r.uniform(0.4, 2.5, nb))
    fw = r.uniform(0.001, 0.02, nb)
    sep = str(r.choice([", ", ",", ",\n ", " ,\n"]))
    ent = [("samples", c.shape[1]), ("lines", c.shape[0]), ("bands", nb), ("data type", code), ("interleave", inter)]
    if order or r.random() < 0.5:
        ent.append(("byte order", order))
    if offset or r.random() < 0.5:
        ent.append(("header offset", offset))
    fmt = str(r.choice(["%.9f", "%.9g", "%.10e", "%.9E", "+%.9f", " %.9f ", "%r"]))
    if fmt == "%r" or r.random() < 0.3:
        wl = np.round(wl * 1000)
    deco = [("wavelength", "{" + sep.join(fmt % float(v) for v in wl) + "}"),
            ("fwhm", "{\n" + sep.join(str(r.choice(["%.9g", "%.9e"])) % v for v in fw) + "}"),
            ("description", "{\n a = b, made {by} test}".replace("{by}", "by")),
            ("sensor type", "Unknown"), ("wavelength units", "Micrometers"), ("file type", "ENVI Standard"),
            ("x start", 1), ("y start", 1), ("read procedures", "a=b"), ("security tag", "k = v = w"),
            ("band names", "{" + ", ".join("b %d" % i for i in range(nb)) + "}"),
            ("coordinate system string", '{PROJCS["UTM",GEOGCS["WGS"]]}')]
    chosen = [d for d in deco if r.random() < 0.6]
    allent = ent + chosen
    if r.random() < 0.7:
        allent = [allent[int(k)] for k in r.permutation(len(allent))]
    eol = str(r.choice(["\n", "\r\n"]))
    lines = ["ENVI"] + [(" " * int(r.integers(0, 2)) + k + str(r.choice([" = ", "=", "  =  "])) + str(v)).strip(" ")
                        for k, v in allent]
    if r.random() < 0.3:
        lines.insert(int(r.integers(1, len(lines))), "")
    text = "\n".join(lines) + ("\n" if r.random() < 0.6 else "")
    return text.replace("\n", eol), dict(allent), wl, fw


@P.scenario(quick=150, thorough=2500, monitors=("foreign-file", "header"), big=10)
def foreign_files(ctx):
    r = ctx.rng
    c, code, lay = cube(r, ctx=ctx)
    inter = str(r.choice(["bil", "bip", "bsq"]))
    order = int(r.integers(0, 2))
    offset = int(r.choice([0, 0, 1, 128, 77]))
    ctx.given(cube=c, interleave=inter, order=order, offset=offset)
    ctx.cover("type", code, inter, order, "offset" if offset else "start")
    folder = ctx.path(str(r.choice(["f", "2019.06", "x.dat", "x.hdr"])))
    os.mkdir(folder)
    stem = os.path.join(folder, str(r.choice(["foreign", "a.b", "f_2.0.1", "f.img"])))
    p = stem + ".dat"
    with open(p, "wb") as f:
        f.write(bytes(r.integers(0, 256, offset, dtype=np.uint8)) + to_raw(c, inter, order))
        after = int(r.choice([0, 0, 1, 8, 333, 4096]))
        f.write(bytes(r.integers(0, 256, after, dtype=np.uint8)))
    ctx.cover("bytes after the image" if after else "nothing after the image")
    text, ent, wl, fw = decorated_header(ctx, r, c, code, inter, order, offset)
    replaced = r.random() < 0.5
    hp = stem + (".hdr" if replaced else ".dat.hdr")
    with open(hp, "w", newline="") as f:
        f.write(text)
    h = ctx.call(eu.read_envi_header, hp)
    ctx.equal("header", sorted(h), sorted(ent), "entries of the header")
    for k, v in ent.items():
        if k in ("wavelength", "fwhm"):
            ctx.close("header", h[k], wl if k == "wavelength" else fw, "header " + k, atol=1e-8, rtol=1e-8)
        elif isinstance(v, int):
            ctx.check("header", h[k] == v and not isinstance(h[k], str), "header entry %s" % k, got=h[k], want=v)
        else:
            ctx.equal("header", "".join(str(h[k]).strip("{}").split()), "".join(str(v).strip("{}").split()),
                      "header entry %s" % k)
    got = ctx.call(eu.read_envi_image, p, None if r.random() < 0.6 else hp)
    ctx.equal("foreign-file", got.dtype, c.dtype, "data type (native byte order)")
    ctx.equal("foreign-file", got, c, "image written by another program")
    a = ctx.call(ImageFactory.envi.from_file, p)
    md = a.get_metadata()
    ctx.equal("foreign-file", (md.get_npix_x(), md.get_npix_y(), md.get_n_bands()),
              (c.shape[1], c.shape[0], c.shape[2]), "dimensions of the image object")
    if code not in (14, 15) and os.path.getsize(p) > 1:       # GDAL opens no file of a single byte
        ctx.equal("foreign-file", ctx.call(a.read_all_image_data_from_disk), c, "image object of a foreign file")


@P.scenario(quick=40, thorough=600, monitors=("neighbours",))
def neighbours(ctx):
    """Images with similar names share a folder: each is read by its own header."""
    r = ctx.rng
    cubes = {}
    names = [str(v) for v in r.permutation(["scene", "scene.dat", "scene.img", "scene.dat.img", "scene.v2", "scen"])[:int(r.integers(2, 5))]]
    for n in names:
        c, code, lay = cube(r)
        inter = str(r.choice(["bil", "bip", "bsq"]))
        cubes[n] = c
        ctx.call(eu.write_envi_image, c, ctx.path(n), interleave=inter)
    ctx.given(names=names, cubes=[cubes[n] for n in names])
    ctx.cover(len(names))
    for n in r.permutation(names):
        n = str(n)
        got = ctx.call(eu.read_envi_image, ctx.path(n))
        ctx.equal("neighbours", got, cubes[n], "image %s is not read by its own header" % n)
        im = ctx.call(ImageFactory.envi.from_file, ctx.path(n))
        md = im.get_metadata()
        ctx.equal("neighbours", (md.get_npix_y(), md.get_npix_x(), md.get_n_bands()), cubes[n].shape, "dimensions of %s" % n)


@P.scenario(quick=40, thorough=300, monitors=("refusal",))
def unknown_interleave(ctx):
    """An interleave that is none of the three is never answered with an image."""
    r = ctx.rng
    c, code, lay = cube(r)
    bad = str(r.choice(["bli", "pixel", "", "bilbip", "xyz"]))
    p = ctx.path("u.img")
    ctx.given(cube=c, interleave=bad)
    with open(p, "wb") as f:
        f.write(to_raw(c, "bil", 0))
    with open(p + ".hdr", "w") as f:
        f.write("ENVI\nsamples = %d\nlines = %d\nbands = %d\ndata type = %d\ninterleave = %s\nbyte order = 0\n"
                % (c.shape[1], c.shape[0], c.shape[2], code, bad))
    ctx.must_raise("refusal", eu.read_envi_image, "an image of unknown interleave was read", p)
    os.remove(p + ".hdr")
    ctx.must_raise("refusal", eu.read_envi_image, "an image without header was read", p)


@P.scenario(quick=60, thorough=600, monitors=("refusal",), big=4)
def truncated(ctx):
    """A data file that is too short is never answered with an image."""
    r = ctx.rng
    c, code, lay = cube(r, ctx=ctx)
    inter = str(r.choice(["bil", "bip", "bsq"]))
    p = ctx.path("t.img")
    raw = to_raw(c, inter, 0)
    keep = int(r.integers(0, len(raw) // c.dtype.itemsize)) * c.dtype.itemsize
    if r.random() < 0.4:
        k = int(r.integers(1, c.shape[1] + 1))
        keep = max(0, len(raw) - k * c.dtype.itemsize)
    ctx.given(cube=c, interleave=inter, kept=keep)
    ctx.cover(inter)
    open(p, "wb").write(raw[:keep])
    with open(p + ".hdr", "w") as f:
        f.write("ENVI\nsamples = %d\nlines = %d\nbands = %d\ndata type = %d\ninterleave = %s\n"
                % (c.shape[1], c.shape[0], c.shape[2], code, inter))
    ctx.must_raise("refusal", eu.read_envi_image, "a truncated image is accepted", p)
    ctx.must_raise("refusal", eu.write_envi_image, "an unknown interleave is accepted", c, ctx.path("u.img"),
                   interleave="xyz")


@P.scenario(quick=11, thorough=11, monitors=("type-codes",))
def type_codes(ctx):
    code = sorted(CODES)[ctx.index % len(CODES)]
    ctx.given(code=code)
    dt = np.dtype(CODES[code])
    ctx.equal("type-codes", np.dtype(ctx.call(eu.envi_dtype_to_numpy_dtype, code)), dt, "numpy type of an ENVI code")
    ctx.equal("type-codes", np.dtype(ctx.call(eu.envi_dtype_to_numpy_dtype, str(code))), dt, "numpy type, text code")
    ctx.equal("type-codes", ctx.call(eu.numpy_dtype_to_envi_dtype, dt), code, "ENVI code of a numpy type")


@P.scenario(quick=40, thorough=300, monitors=("header",))
def header_round_trip(ctx):
    r = ctx.rng
    nb = int(r.integers(1, 6))
    d = {"samples": int(r.integers(1, 5000)), "lines": int(r.integers(1, 5000)), "bands": nb, "interleave": "bsq",
         "data type": 4, "wavelength": "{" + ", ".join("%.6f" % v for v in r.uniform(0.3, 2, nb)) + "}",
         "description": "{some text, more = text}", "sensor type": "Unknown x=3"}
    keys = [k for k in d if r.random() < 0.8]
    d = {k: d[k] for k in [keys[int(i)] for i in r.permutation(len(keys))]}
    ctx.given(header=d)
    p = ctx.path("h.hdr")
    ctx.call(eu.write_envi_header, d, p)
    h = ctx.call(eu.read_envi_header, p)
    ctx.equal("header", sorted(h), sorted(d), "entries after a round trip")
    for k, v in d.items():
        if k == "wavelength":
            ctx.close("header", h[k], np.array([float(x) for x in v.strip("{}").split(",")]), "wavelengths", atol=1e-9)
        elif isinstance(v, int):
            ctx.equal("header", h[k], v, k)
        else:
            ctx.equal("header", h[k].strip("{}"), v.strip("{}"), k)
