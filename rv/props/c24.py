"""C24: text, table, file-listing and list helpers."""
import csv
import os
import string
import numpy as np
from rv.core import Registry
from resippy.utils import file_utils as fu
from resippy.utils import string_utils as su
from resippy.utils import numpy_and_array_utils as nu
from resippy.utils import geom_utils as gu
from resippy.utils.csv_utils import CsvUtils

P = Registry("C24", "Random text lists (empty lists, empty lines, unicode, trailing blanks), directory trees with awkward "
                    "names, CSV tables, newline mixtures; the monitor keeps a model of what was written.", boost=100)

NAMES = ["plain", "with space", "run[1]", "a+b", "x(2)", "q{3}", "star", "UPPER", "dotted.v2", "-dash"]


# what some libraries, but no text file, take for the end of a line
ODD = "\x0b\x0c\x1c\x1e\x85\u2028\u00a0"


def rtext(r, n=12, alphabet=string.ascii_letters + string.digits + " ,;=#_-\u00e9\u03bc\t"):
    if r.random() < 0.1:
        alphabet = alphabet + ODD * 3
    return "".join(alphabet[int(k)] for k in r.integers(0, len(alphabet), int(r.integers(0, n))))


@P.scenario(quick=80, thorough=1000, monitors=("text-file",), big=2)
def text_lists(ctx):
    r = ctx.rng
    n = ctx.many(int(r.choice([0, 1, 2, 5, 30])), 30000)
    lines = [rtext(r) if r.random() < 0.8 else "" for _ in range(n)]
    p = ctx.path("l.txt")
    ctx.given(lines=lines)
    ctx.cover("n", n, "last_empty" if n and lines[-1] == "" else "")
    ctx.call(fu.write_text_list_to_file, lines, p)
    ctx.equal("text-file", list(ctx.call(fu.read_text_list_from_file, p)), lines, "text list changes on a round trip")
    eol = str(r.choice(["\n", "\r\n"]))
    body = [l for l in lines]
    with open(p, "w", newline="", encoding="utf-8") as f:
        f.write("".join(l + eol for l in body))
    ctx.equal("text-file", list(ctx.call(fu.read_text_list_from_file, p)), body, "lines read from a text file")


@P.scenario(quick=60, thorough=800, monitors=("newlines", "snake"), big=2)
def strings(ctx):
    r = ctx.rng
    parts = [rtext(r, 8) for _ in range(ctx.many(int(r.integers(1, 8)), 10000))]
    seps = [str(r.choice(["\n", "\r\n", "\r"])) for _ in parts]
    ok = all(not (a == "\r" and b == "" and c.startswith("\n")) for a, b, c in zip(seps, parts[1:], seps[1:]))
    if not ok:
        parts = [p or "x" for p in parts]
    text = "".join(p + s for p, s in zip(parts, seps))
    ctx.given(text=text)
    ctx.equal("newlines", ctx.call(su.cleanup_newlines, text), "".join(p + os.linesep for p in parts),
              "newline clean-up")
    ctx.equal("newlines", ctx.call(su.remove_newlines, text), "".join(parts), "newline removal")
    words = ["".join(string.ascii_lowercase[int(k)] for k in r.integers(0, 26, int(r.integers(2, 7))))
             for _ in range(int(r.integers(1, 5)))]
    camel = "".join(w.capitalize() for w in words)
    if r.random() < 0.5:
        camel = words[0] + "".join(w.capitalize() for w in words[1:])
    ctx.equal("snake", ctx.call(su.convert_to_snake_case, camel), "_".join(words), "camel case to snake case", text=camel)
    ctx.equal("snake", ctx.call(su.convert_to_snake_case, "_".join(words)), "_".join(words), "snake case is kept")
    k = [w + str(int(r.integers(0, 100))) if r.random() < 0.4 else w for w in words]
    ctx.equal("snake", ctx.call(su.convert_to_snake_case, "".join(w.capitalize() for w in k)), "_".join(k), "camel case with digits")
    ctx.equal("snake", ctx.call(su.convert_to_snake_case, words[0] + "2RX"), words[0] + "2_rx", "acronym after a digit")
    acr = "".join(string.ascii_uppercase[int(k)] for k in r.integers(0, 26, int(r.integers(2, 5))))
    ctx.equal("snake", ctx.call(su.convert_to_snake_case, acr + words[0].capitalize()),
              acr.lower() + "_" + words[0], "acronym before a word")


@P.scenario(quick=60, thorough=600, monitors=("listing",), big=1)
def listings(ctx):
    r = ctx.rng
    root = os.path.join(ctx.scratch, str(r.choice(NAMES)))
    ctx.call(fu.make_dir_if_not_exists, os.path.join(root, "deep", "er"))
    ctx.check("listing", os.path.isdir(os.path.join(root, "deep", "er")), "nested directory was not made")
    open(os.path.join(root, "deep", "keep.txt"), "w").write("k")
    ctx.call(fu.make_dir_if_not_exists, os.path.join(root, "deep"))
    ctx.check("listing", os.path.exists(os.path.join(root, "deep", "keep.txt")), "existing directory was not left alone")
    exts = ["tif", "txt", "png", "hdr", "tiff", "TXT"]
    model = {}
    for i in range(ctx.many(int(r.integers(0, 15)), 1500)):
        e = str(r.choice(exts))
        n = "%s_%s%d.%s" % (str(r.choice(["img", "dem", "im", "IMG"])), str(r.choice(["a", "b[1]", "c d"])), i, e)
        open(os.path.join(root, n), "w").write("x")
        model[n] = e
    dirs = ["deep"]
    for i in range(int(r.integers(0, 4))):
        d = "dir%d" % i
        os.makedirs(os.path.join(root, d))
        dirs.append(d)
    if r.random() < 0.4:
        # a folder reached by a link is a folder; a link to nothing is none
        os.symlink(os.path.join(root, "deep"), os.path.join(root, "link"))
        os.symlink(os.path.join(root, "gone"), os.path.join(root, "broken"))
        dirs.append("link")
        ctx.cover("links")
    ctx.given(root=os.path.basename(root), files=sorted(model))
    ctx.cover(os.path.basename(root))
    got = ctx.call(fu.get_all_folders_in_dir, root)
    ctx.equal("listing", sorted(got), sorted(os.path.join(root, d) for d in dirs), "folders in a directory")
    e = str(r.choice(exts))
    for spec in (e, "." + e, "*." + e, [e], ["." + e, "zzz"]):
        ctx.equal("listing", sorted(ctx.call(fu.get_all_files_in_dir, root, spec)),
                  sorted(os.path.join(root, n) for n, x in model.items() if x == e), "files by extension", spec=spec)
    e2 = [x for x in exts if x != e][int(r.integers(0, 5))]
    ctx.equal("listing", sorted(ctx.call(fu.get_all_files_in_dir, root, [e, e2], return_fullpaths=False)),
              sorted(n for n, x in model.items() if x in (e, e2)), "file names by several extensions")
    ctx.equal("listing", sorted(ctx.call(fu.get_all_files_in_dir, root)), sorted(os.path.join(root, n) for n in model),
              "all files")
    st = str(r.choice(["img", "im", "dem_a", "dem_b[", "nothing"]))
    if model and r.random() < 0.5:
        # a prefix of any length, also one that reaches into the extension or is the whole name
        st = str(r.choice(sorted(model)))
        st = st[:int(r.integers(1, len(st) + 1))]
    ctx.equal("listing", sorted(ctx.call(fu.get_files_in_dir_that_start_with, root, st)),
              sorted(os.path.join(root, n) for n in model if n.startswith(st)), "files by prefix", prefix=st)
    ctx.equal("listing", sorted(ctx.call(fu.get_files_in_dir_that_start_with, root, ["dem", "img"], e,
                                         return_fullpaths=False)),
              sorted(n for n, x in model.items() if x == e and (n.startswith("dem") or n.startswith("img"))),
              "file names by prefixes and extension")
    ctx.must_raise("listing", fu.get_all_files_in_dir, "an extension of the wrong type is accepted", root, 7)
    subs = [str(v) for v in r.choice(NAMES, int(r.integers(1, 4)))]
    ctx.equal("listing", ctx.call(fu.get_path_from_subdirs, root, subs), "/".join([root] + subs), "joined path")


@P.scenario(quick=60, thorough=600, monitors=("csv-table",), big=2)
def csv_tables(ctx):
    r = ctx.rng
    nr, nc = ctx.many(int(r.integers(1, 20)), 20000), int(r.integers(1, 7))
    head = ["col %d" % i for i in r.permutation(20)[:nc]]
    tab = [[rtext(r, 6) or "v" for _ in range(nc)] for _ in range(nr)]
    delim = str(r.choice([",", ";", "\t", "|"]))
    tab = [[c.replace("\t", " ") for c in row] for row in tab]
    if nc > 1:
        tab = [[c if r.random() < 0.9 else "" for c in row] for row in tab]
    p = ctx.path("t.csv")
    with open(p, "w", newline="", encoding="utf-8") as f:
        w = csv.writer(f, delimiter=delim)
        w.writerow(head)
        w.writerows(tab)
    ctx.given(head=head, table=tab, delimiter=delim)
    kw = {} if delim == "," else {"delimiter": delim}
    got = ctx.call(CsvUtils.single_line_header_csv_to_dict, p, **kw)
    ctx.equal("csv-table", list(got), head, "columns and their order")
    for j, h in enumerate(head):
        ctx.equal("csv-table", [str(v) for v in got[h]], [row[j] for row in tab], "column values", column=h)


@P.scenario(quick=60, thorough=600, monitors=("lists",), big=2)
def lists(ctx):
    r = ctx.rng
    n, k = ctx.many(int(r.integers(1, 12)), 10000), int(r.integers(1, 5))
    tup = [tuple(float(v) for v in r.normal(size=k)) for _ in range(n)]
    ctx.given(tuples=tup)
    sep = ctx.call(nu.list_of_tuples_to_separate_lists, tup)
    ctx.equal("lists", sep, [[t[i] for t in tup] for i in range(k)], "separated lists")
    ctx.equal("lists", [tuple(float(v) for v in t) for t in ctx.call(nu.separate_lists_to_list_of_tuples, sep)], tup,
              "tuples from lists")
    # other entries keep their type
    make = [lambda: int(r.integers(-9, 9)), lambda: 10 ** 15 + int(r.integers(0, 99)), lambda: "w%d" % r.integers(0, 99)][int(r.integers(0, 3))]
    tup = [tuple(make() for _ in range(k)) for _ in range(min(n, 2000))]
    sep = ctx.call(nu.list_of_tuples_to_separate_lists, tup)
    ctx.equal("lists", sep, [[t[i] for t in tup] for i in range(k)], "separated lists")
    ctx.check("lists", all(isinstance(v, type(tup[0][0])) for q in sep for v in q), "entries of %s became %s"
              % (type(tup[0][0]).__name__, type(sep[0][0]).__name__))
    back = ctx.call(nu.separate_lists_to_list_of_tuples, sep)
    ctx.check("lists", [tuple(t) for t in back] == tup, "tuples from lists")
    l = [int(v) for v in r.integers(0, 4, n)]
    v = int(r.integers(0, 4))
    if r.random() < 0.7:
        # equal values that are other objects
        make = [lambda x: 10 ** 9 + x, lambda x: 0.5 + x, lambda x: "w%d" % x, lambda x: np.int64(x), lambda x: (x, "t%d" % x)][int(r.integers(0, 5))]
        l, v = [make(x) for x in l], make(v)
        if r.random() < 0.3:
            l, v = [float(x) if isinstance(x, (int, np.int64)) else x for x in l], v
    ctx.equal("lists", ctx.call(nu.remove_all_entries_from_list, l, v), [x for x in l if x != v], "entries removed")
    a, b = sorted(r.normal(size=2) * 100)
    c, d = sorted(r.normal(size=2) * 100)
    poly = ctx.call(gu.bounds_2_shapely_polygon, a, b, d, c)
    ctx.close("lists", np.array(poly.bounds), np.array([a, c, b, d]), "polygon of bounds", atol=1e-9)
    ctx.close("lists", poly.area, (b - a) * (d - c), "area of the polygon of bounds", rtol=1e-9)
