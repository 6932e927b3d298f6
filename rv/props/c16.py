"""C16: image chipping and detection images."""
import os
import imageio
import numpy as np
from rv.core import Registry
from resippy.utils.image_utils import image_chipper as ch
from resippy.utils.image_utils import image_utils as iu

P = Registry("C16", "Images whose every sample is unique (so a chip identifies its window), random chip sizes, overlaps, "
                    "band selections, upper-left / centre lists inside and outside the image, chips written and read "
                    "back; the monitor compares every chip with the source window and tracks coverage per pixel.", boost=50)


def unique_image(ctx, gray=None, dtype=None):
    r = ctx.rng
    ny, nx = ctx.shape(4, 40, 2000000)
    gray = (r.random() < 0.3) if gray is None else gray
    nb = 1 if gray else int(r.integers(1, 5))
    im = np.arange(ny * nx * nb).reshape(ny, nx, nb)
    dtype = dtype or str(r.choice(["int32", "float64", "uint16", "float32"]))
    im = im.astype(dtype)
    if r.random() < 0.3:
        im = np.asfortranarray(im)
    return im[:, :, 0] if gray else im


def chip_size(ctx, ny, nx, most=None):
    r = ctx.rng
    if not ctx.big:
        return int(r.integers(1, ny + 1)), int(r.integers(1, nx + 1))
    least = 1 if most else max(1, int(np.sqrt(ny * nx / 4000.0)))     # at most some thousands of chips
    cy = min(ny, int(10 ** r.uniform(np.log10(least), 2.5)) + 1)
    cx = min(nx, int(10 ** r.uniform(np.log10(least), 2.5)) + 1)
    if most:
        cy = max(1, min(cy, most))
        cx = max(1, min(cx, most // cy))
    return cy, cx


def overlaps(ctx, cy, cx):
    r = ctx.rng
    if not ctx.big:
        return int(r.integers(0, cy)), int(r.integers(0, cx))
    return int(r.integers(0, (cy + 1) // 2)), int(r.integers(0, (cx + 1) // 2))


def want_chip(im3, y, x, cy, cx, bands):
    return im3[y:y + cy, x:x + cx][:, :, bands]


def pick_bands(r, nb):
    k = int(r.integers(0, 4))
    if k == 0:
        return None, list(range(nb))
    if k == 1:
        b = int(r.integers(0, nb))
        return b, [b]
    bl = [int(v) for v in r.permutation(nb)[:int(r.integers(1, nb + 1))]]
    if nb > 1 and r.random() < 0.15:
        # a band asked for more than once
        bl = [int(v) for v in r.integers(0, nb, int(r.integers(2, 6)))]
    return bl, bl


def compare(ctx, chips, uls, im, cy, cx, bl, what):
    im3 = im if im.ndim == 3 else im[:, :, None]
    ctx.equal("chip-content", len(chips), len(uls), what + ": number of chips and of positions differ")
    ctx.equal("chip-content", chips.dtype, im.dtype, what + ": dtype")
    gray = len(bl) == 1
    ctx.equal("chip-content", chips.shape, (len(uls), cy, cx) if gray else (len(uls), cy, cx, len(bl)),
              what + ": chip array shape")
    for c, (y, x) in zip(chips, uls):
        w = want_chip(im3, int(y), int(x), cy, cx, bl)
        ctx.equal("chip-content", np.asarray(c), w[:, :, 0] if gray else w,
                  what + ": chip is not the window at its reported position", ul=(int(y), int(x)))
    ctx.equal("chip-content", ch.get_nchips(chips), len(uls), "chip count")


@P.scenario(quick=150, thorough=2500, monitors=("chip-content", "coverage"), big=10)
def whole_image(ctx):
    r = ctx.rng
    im = unique_image(ctx)
    ny, nx = im.shape[:2]
    cy, cx = chip_size(ctx, ny, nx)
    oy, ox = overlaps(ctx, cy, cx)
    if r.random() < 0.4:
        oy = ox = 0
    bands, bl = pick_bands(r, 1 if im.ndim == 2 else im.shape[2])
    ctx.given(image=im, chip=(cy, cx), overlap=(oy, ox), bands=bands)
    ctx.cover("gray" if im.ndim == 2 else "bands%d" % len(bl), "overlap" if oy or ox else "no_overlap",
              "exact" if ny % cy == 0 and nx % cx == 0 else "ragged")
    chips, uls = ctx.call(ch.chip_entire_image_to_memory, im, cy, cx, oy, ox, bands=bands)
    compare(ctx, chips, uls, im, cy, cx, bl, "whole image")
    count = np.zeros((ny, nx), int)
    for y, x in uls:
        ctx.check("coverage", 0 <= y <= ny - cy and 0 <= x <= nx - cx, "chip leaves the image", ul=(y, x))
        count[y:y + cy, x:x + cx] += 1
    ctx.check("coverage", np.all(count >= 1), "some pixels are in no chip", missing=int((count == 0).sum()))
    ctx.equal("coverage", len(set((int(y), int(x)) for y, x in uls)), len(uls), "the same chip is produced twice")
    if oy == 0 and ox == 0 and ny % cy == 0 and nx % cx == 0:
        ctx.check("coverage", np.all(count == 1), "an exact tiling overlaps itself")
    ys, xs = sorted(set(int(u[0]) for u in uls)), sorted(set(int(u[1]) for u in uls))
    for v, step, size, full in ((ys, cy - oy, cy, ny), (xs, cx - ox, cx, nx)):
        want = sorted(set([k for k in range(0, full, step) if k < full - size] + [full - size]))
        ctx.equal("coverage", v, want, "chip positions do not advance by chip size minus overlap")
    ctx.equal("coverage", len(uls), len(ys) * len(xs), "positions are not a full grid")


@P.scenario(quick=150, thorough=2500, monitors=("chip-content", "positions"), big=10)
def upper_lefts(ctx):
    r = ctx.rng
    im = unique_image(ctx)
    ny, nx = im.shape[:2]
    n = ctx.many(int(r.integers(1, 12)), 20000)
    cy, cx = chip_size(ctx, ny, nx, 4000000 // n)
    out = r.random() < 0.6
    ys = [int(v) for v in r.integers(-ny if out else 0, (2 * ny) if out else ny - cy + 1, n)]
    xs = [int(v) for v in r.integers(-nx if out else 0, (2 * nx) if out else nx - cx + 1, n)]
    bands, bl = pick_bands(r, 1 if im.ndim == 2 else im.shape[2])
    centres = r.random() < 0.4
    ctx.given(image=im, y=ys, x=xs, chip=(cy, cx), bands=bands, centres=centres)
    ctx.cover("centres" if centres else "upper_lefts", "out_of_bounds" if out else "inside")
    py = ys if r.random() < 0.5 else np.array(ys)
    px = xs if r.random() < 0.5 else np.array(xs)
    if centres:
        chips, uls = ctx.call(ch.chip_images_by_pixel_centers, im, py, px, cy, cx, bands=bands)
        ey = [int(np.floor(y - cy / 2.0)) for y in ys]
        ex = [int(np.floor(x - cx / 2.0)) for x in xs]
    else:
        chips, uls = ctx.call(ch.chip_images_by_pixel_upper_lefts, im, py, px, cy, cx, bands=bands)
        ey, ex = ys, xs
    compare(ctx, chips, uls, im, cy, cx, bl, "by position")
    want = [(min(max(y, 0), ny - cy), min(max(x, 0), nx - cx)) for y, x in zip(ey, ex)]
    ctx.equal("positions", [(int(y), int(x)) for y, x in uls], want,
              "reported positions are not the requested ones (moved inside the image only when necessary)")


class Ledger(object):
    """Takes the reports of progress."""
    def set_status(self, text, percent=None):
        assert 0 <= percent <= 100


@P.scenario(quick=80, thorough=800, monitors=("chip-files",), big=6)
def written_chips(ctx):
    r = ctx.rng
    n, cy, cx = ctx.many(int(r.integers(1, 7)), 1500), int(r.integers(2, 20)), int(r.integers(2, 20))
    nb = int(r.choice([0, 3, 4]))
    chips = r.integers(0, 256, (n, cy, cx) if nb == 0 else (n, cy, cx, nb)).astype(np.uint8)
    keep_alpha = bool(r.random() < 0.4)
    named = bool(r.random() < 0.4)
    ext = str(r.choice(["png", ".png", "PNG", ".PNG", "bmp", "tif", ".TIF"]))
    if "bmp" in ext and nb == 4 and keep_alpha:
        ext = "png"
    out = ctx.path("chips")
    os.makedirs(out)
    names = ["c%d_x" % i for i in r.permutation(max(50, n))[:n]] if named else None
    base = None if r.random() < 0.5 else "base"
    ctx.given(chips=chips, remove_alpha=not keep_alpha, names=names, base=base)
    ctx.cover("bands%d" % nb, "alpha_kept" if keep_alpha else "alpha_removed", "named" if named else "numbered")
    kw = {"atk_chain_ledger": Ledger()} if r.random() < 0.3 else {}
    ctx.call(ch.write_chips_to_disk, chips, out, base_chip_fname=base, fnames_list=names,
             remove_alpha=not keep_alpha, output_format=ext, **kw)
    for i in range(n):
        fn = names[i] if named else (base or "chips") + "_" + str(i).zfill(8)
        p = os.path.join(out, fn + "." + ext.strip("."))
        ctx.check("chip-files", os.path.exists(p), "chip file %s was not written" % fn, files=sorted(os.listdir(out)))
        got = np.asarray(imageio.imread(p))
        w = chips[i]
        if nb == 4 and not keep_alpha:
            w = w[:, :, :3]
        ctx.equal("chip-files", got, w, "written chip differs from the chip in memory")
    ctx.equal("chip-files", len(os.listdir(out)), n, "number of files written")


@P.scenario(quick=40, thorough=400, monitors=("chip-files",))
def resized_chips(ctx):
    r = ctx.rng
    cy, cx = int(r.integers(6, 20)), int(r.integers(6, 20))
    oy, ox = int(r.integers(4, 40)), int(r.integers(4, 40))
    vals = r.integers(0, 256, (2, 2, 3))
    chip = np.zeros((cy, cx, 3), np.uint8)
    hy, hx = cy // 2, cx // 2
    chip[:hy, :hx], chip[:hy, hx:], chip[hy:, :hx], chip[hy:, hx:] = vals[0, 0], vals[0, 1], vals[1, 0], vals[1, 1]
    ctx.given(chip=chip, ny=oy, nx=ox)
    out = ctx.path("o")
    os.makedirs(out)
    ctx.call(ch.write_chips_to_disk, chip[None], out, output_chip_ny=oy, output_chip_nx=ox)
    got = np.asarray(imageio.imread(os.path.join(out, "o_00000000.png")))
    ctx.equal("chip-files", got.shape, (oy, ox, 3), "resized chip shape")
    again = ctx.call(iu.resize_image, chip, oy, ox)
    ctx.equal("chip-files", got, again, "written chip is not the resized chip")
    for (iy, ix), v in (((0, 0), vals[0, 0]), ((0, -1), vals[0, 1]), ((-1, 0), vals[1, 0]), ((-1, -1), vals[1, 1])):
        ctx.check("chip-files", np.all(np.abs(got[iy, ix].astype(int) - v) <= 40),
                  "corner of the resized chip has another colour", corner=(iy, ix), got=got[iy, ix], want=v)


@P.scenario(quick=120, thorough=1500, monitors=("detection",), big=8)
def detection_image(ctx):
    r = ctx.rng
    n = ctx.many(int(r.integers(1, 20)), 5000)
    far = 60 if ctx.big else 1
    cy, cx = int(r.integers(1, 9 * far ** 0.5)), int(r.integers(1, 9 * far ** 0.5))
    uls = np.stack([r.integers(0, 30 * far, n), r.integers(0, 25 * far, n)], axis=1)
    scores = np.round(r.normal(size=n), int(r.integers(0, 5))) if r.random() < 0.5 else r.random(n)
    ctx.given(scores=scores, ul=uls, chip=(cy, cx))
    got = ctx.call(iu.create_detection_image_from_scores, scores, list(map(tuple, uls)) if r.random() < 0.5 else uls, cx, cy)
    ny, nx = uls[:, 0].max() + cy, uls[:, 1].max() + cx
    want = np.full((ny, nx), -np.inf)
    for k in range(n):
        y, x = uls[k]
        want[y:y + cy, x:x + cx] = np.maximum(want[y:y + cy, x:x + cx], scores[k])
    want[np.isinf(want)] = 0
    ctx.equal("detection", got, want, "detection image is not the best score of the chips over each pixel")


@P.scenario(quick=40, thorough=400, monitors=("detection",), big=6)
def chips_to_detection(ctx):
    """Chip, score each chip by its content, and map the scores back."""
    r = ctx.rng
    im = unique_image(ctx, dtype="float64")
    ny, nx = im.shape[:2]
    cy, cx = chip_size(ctx, ny, nx)
    oy, ox = overlaps(ctx, cy, cx)
    ctx.given(image=im, chip=(cy, cx), overlap=(oy, ox))
    chips, uls = ctx.call(ch.chip_entire_image_to_memory, im, cy, cx, oy, ox, bands=0)
    scores = np.array([c.max() for c in chips])
    det = ctx.call(iu.create_detection_image_from_scores, scores, np.array(uls), cx, cy)
    ctx.equal("detection", det.shape, (ny, nx), "detection image does not cover the image")
    b = im if im.ndim == 2 else im[:, :, 0]
    y, x = (int(v) for v in np.unravel_index(int(np.argmax(b)), b.shape))
    ctx.equal("detection", float(det[y, x]), float(b.max()), "the best pixel does not carry the best score")
    ctx.check("detection", np.all(det >= b), "a pixel scores below its own chip")
