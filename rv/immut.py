"""Monitors around a call: arguments, receiver, process state, files, and the answer to the same question asked again."""
import decimal
import hashlib
import locale
import logging
import os
import random
import re
import signal
import sys
import threading
import types
import warnings

import numpy as np
from osgeo import gdal, osr

from rv.core import Violation, brief

MUTATORS = re.compile(r"^(set_|add_|update_|write_|make_|init_|load|remove_nodata|convert_reference|convert_to_.*heights|close)"
                      r"|^(from_|create_map)|Factory|Simulator$")
OWN = ("resippy.",)
GDAL_OPTIONS = ("GDAL_PAM_ENABLED", "GDAL_NUM_THREADS", "CPL_DEBUG", "GDAL_DATA", "PROJ_LIB", "GTIFF_POINT_GEO_IGNORE", "CPL_TMPDIR",
                "GTIFF_REPORT_COMPD_CS", "OSR_DEFAULT_AXIS_MAPPING_STRATEGY", "GDAL_TIFF_INTERNAL_MASK", "GDAL_CACHEMAX")


def digest(a):
    h = hashlib.blake2b(digest_size=12)
    h.update(str((a.shape, a.dtype.str)).encode())
    h.update(np.ascontiguousarray(a).tobytes() if not a.dtype.hasobject else repr([content(v) for v in a.ravel()]).encode())
    return h.hexdigest()


def content(x, depth=0, seen=None):
    """A comparable description of a value; None where it has no content to compare."""
    if isinstance(x, np.ma.MaskedArray):
        return ("ma", digest(np.asarray(x.data)), digest(np.ma.getmaskarray(x)))
    if isinstance(x, np.ndarray):
        return ("nd", digest(x))
    if isinstance(x, np.generic):
        return ("v", repr(x.item()))
    if isinstance(x, (list, tuple)) and depth < 4:
        return ("seq", tuple(content(v, depth + 1) for v in x))
    if isinstance(x, dict) and depth < 4:
        return ("dict", tuple(sorted((repr(k), content(v, depth + 1)) for k, v in x.items())))
    if isinstance(x, (int, float, complex, str, bytes, bool)) or x is None:
        return ("v", repr(x))
    if hasattr(x, "wkb") and hasattr(x, "geom_type"):
        return ("geom", x.wkb)
    return ("?",)


def kept(x, depth=0):
    """A copy of the arrays of an answer, to compare a later answer with."""
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)) and depth < 4:
        return [kept(v, depth + 1) for v in x]
    if isinstance(x, dict) and depth < 4:
        return {repr(k): kept(v, depth + 1) for k, v in x.items()}
    return x


def same_answer(a, b, depth=0):
    """Whether b answers like a (a: from kept()).  Floating-point answers may differ by rounding: the linear algebra
    libraries sum in an order that depends on where in memory the operands happen to lie."""
    if isinstance(b, (list, tuple)) and depth < 4:
        return isinstance(a, list) and len(a) == len(b) and all(same_answer(p, q, depth + 1) for p, q in zip(a, b))
    if isinstance(b, dict) and depth < 4:
        return isinstance(a, dict) and sorted(a) == sorted(map(repr, b)) and \
            all(same_answer(a[repr(k)], v, depth + 1) for k, v in b.items())
    numeric = (float, complex, np.floating, np.complexfloating)
    if isinstance(b, numeric) or (isinstance(b, np.ndarray) and b.dtype.kind in "fc" and not isinstance(b, np.ma.MaskedArray)):
        if isinstance(a, np.ndarray) != isinstance(b, np.ndarray) or type(a) is not type(b):
            return False
        p, q = np.asarray(a), np.asarray(b)
        if p.shape != q.shape or p.dtype != q.dtype:
            return False
        fin = np.isfinite(p)
        if not np.array_equal(fin, np.isfinite(q)) or not np.array_equal(p[~fin], q[~fin], equal_nan=True):
            return False
        p, q = p[fin], q[fin]
        if p.size == 0:
            return True
        return bool(np.all(np.abs(p - q) <= 1e-6 * np.max(np.abs(p - p.flat[0])) + 1e-10 * np.max(np.abs(p))))
    return content(a) == content(b)


def arrays_of(x, depth=0, path="", out=None, seen=None):
    """Arrays and plain values held by a library object, by attribute path."""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    if id(x) in seen or depth > 4:
        return out
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        out[path] = digest(x)
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            arrays_of(v, depth + 1, "%s[%d]" % (path, i), out, seen)
    elif isinstance(x, dict):
        for k, v in x.items():
            arrays_of(v, depth + 1, "%s[%r]" % (path, k), out, seen)
    elif type(x).__module__.startswith(OWN) and hasattr(x, "__dict__"):
        for k, v in vars(x).items():
            arrays_of(v, depth + 1, path + "." + k, out, seen)
    return out


def process_state():
    st = np.random.get_state()
    mask = os.umask(0)
    os.umask(mask)
    return {"working directory": os.getcwd(), "environment": hash(tuple(sorted(os.environ.items()))),
            "numeric error settings": tuple(sorted(np.geterr().items())),
            "seed of random numbers (numpy)": hash((st[1].tobytes(),) + tuple(st[2:])), "seed of random numbers": hash(random.getstate()),
            "GDAL exception mode": (gdal.GetUseExceptions(), osr.GetUseExceptions()),
            "print options": repr(sorted(np.get_printoptions().items())), "locale": locale.setlocale(locale.LC_ALL),
            "umask": mask, "recursion limit": sys.getrecursionlimit(), "threads": threading.active_count(),
            "standard streams": (id(sys.stdout), id(sys.stderr)),
            "warning filters": hash(tuple(str(f) for f in warnings.filters)),
            "GDAL options": (gdal.GetCacheMax(),) + tuple(gdal.GetConfigOption(k) for k in GDAL_OPTIONS),
            "logging level": logging.getLogger().level, "module search path": tuple(sys.path),
            "decimal settings": str(decimal.getcontext()), "handler of interrupts": signal.getsignal(signal.SIGINT)}


def tree(d):
    out = {}
    if not d or not os.path.isdir(d):
        return out
    for base, dirs, files in os.walk(d):
        for n in files:
            p = os.path.join(base, n)
            try:
                st = os.stat(p)
                if st.st_size < 1 << 20:
                    with open(p, "rb") as f:
                        out[p] = hashlib.blake2b(f.read(), digest_size=12).hexdigest()
                else:
                    out[p] = (st.st_size, st.st_mtime_ns)
            except OSError:
                pass
        for n in dirs:
            out.setdefault(os.path.join(base, n) + os.sep, None)
    return out


def strings(x, depth=0):
    if isinstance(x, str):
        return [x]
    if isinstance(x, (list, tuple)) and depth < 3:
        return [v for y in x for v in strings(y, depth + 1)]
    if isinstance(x, dict) and depth < 3:
        return [v for y in x.values() for v in strings(y, depth + 1)]
    return []


def related(p, names):
    q = p.rstrip(os.sep)
    for n in names:
        if not n.startswith(os.sep):
            continue
        n = n.rstrip(os.sep)
        if q.startswith(os.path.splitext(n)[0]) or n.startswith(q + os.sep):
            return True
    return False


def watch(ctx, name, fn, args, kwargs):
    short = getattr(fn, "__name__", name)
    me = getattr(fn, "__self__", None)
    me = me if me is not None and type(me).__module__.startswith(OWN) else None
    mutator = bool(MUTATORS.search(short)) or isinstance(fn, type)
    pre_a = [content(a) for a in args]
    pre_k = {k: content(v) for k, v in kwargs.items()}
    held = [("argument #%d" % i, a) for i, a in enumerate(args)] + [("argument %r" % k, v) for k, v in kwargs.items()]
    if me is not None and not mutator:
        held.append(("the object asked", me))
    if mutator:
        # a setter may change its own object, the objects it is given stay as they are
        held = [(w, o) for w, o in held if o is not me]
    pre_h = [(w, o, arrays_of(o)) for w, o in held if type(o).__module__.startswith(OWN)]
    # what earlier calls of this case were given stays as it is, too (set_image_band writes to the image's array by definition)
    now_given = set(id(o) for o in list(args) + list(kwargs.values()))
    past = ctx.__dict__.setdefault("_past", [])
    pre_p = [] if short == "set_image_band" else \
        [(w, o, arrays_of(o)) for w, o in past if o is not me and id(o) not in now_given]
    state = process_state()
    modules = len(sys.modules)
    drawn = np.random.get_state(), random.getstate()
    d = ctx._scratch
    files = tree(d)
    result = fn(*args, **kwargs)
    ctx.count("arguments", max(1, len(args) + len(kwargs)))
    for i, a in enumerate(args):
        if content(a) != pre_a[i]:
            raise Violation("arguments", "%s modified its argument #%d" % (name, i), {"argument": brief(a)})
    for k, v in kwargs.items():
        if content(v) != pre_k[k]:
            raise Violation("arguments", "%s modified its argument %r" % (name, k), {"argument": brief(v)})
    for w, o, before in pre_h:
        after = arrays_of(o)
        ctx.count("objects", max(1, len(before)))
        for p, h in before.items():
            if p in after and after[p] != h:
                raise Violation("objects", "%s changed the data of %s (%s)" % (name, w, p), {})
    for w, o, before in pre_p:
        after = arrays_of(o)
        ctx.count("objects", max(1, len(before)))
        for p, h in before.items():
            if p in after and after[p] != h:
                raise Violation("objects", "%s changed the data of %s (%s)" % (name, w, p), {})
    for i, a in list(enumerate(args)) + list(kwargs.items()):
        if (isinstance(a, np.ndarray) and a.size < 20000) or type(a).__module__.startswith(OWN):
            if not any(o is a for _, o in past):
                past.append(("argument %s of the earlier call of %s" % (i, name), a))
    del past[:-6]
    now = process_state()
    ctx.count("process", len(now))
    for k in state:
        if now[k] != state[k] and k.startswith("seed"):
            # drawing numbers is no harm (scipy's matrix powers do); setting the seed is
            ctx.cover("drew random numbers", name)
            random.seed(ctx.index * 7919 + 13)
            np.random.seed(ctx.index * 7919 % 2 ** 31 + 17)
            if not mutator:
                fn(*args, **kwargs)
                if process_state()[k] == now[k]:
                    raise Violation("process", "%s set the %s" % (name, k), {})
            now.update({q: v for q, v in process_state().items() if q.startswith("seed")})
            state.update({q: v for q, v in now.items() if q.startswith("seed")})
        elif k in ("warning filters", "module search path") and len(sys.modules) != modules:
            # a module imported on first use may add to these
            pass
        elif now[k] != state[k]:
            raise Violation("process", "%s changed the %s" % (name, k), {"before": brief(state[k]), "after": brief(now[k])})
    names = strings(args) + strings(kwargs)
    after = tree(d) if d == ctx._scratch else {}
    ctx.count("files", max(1, len(after)))
    writes = mutator or any(n.startswith(os.sep) for n in names)
    for p in after:
        if p not in files and not related(p, names):
            raise Violation("files", "%s left %s behind" % (name, p), {"names given": brief(names)})
        if p in files and files[p] != after[p] and not (writes and related(p, names)):
            raise Violation("files", "%s changed the file %s" % (name, p), {"names given": brief(names)})
    for p in files:
        if p not in after and not related(p, names):
            raise Violation("files", "%s removed %s" % (name, p), {})
    if not mutator and not any(n.startswith(os.sep) for n in names) and callable(fn) and not isinstance(fn, type):
        first, copy = content(result), kept(result)
        # scipy's matrix powers draw random numbers
        np.random.set_state(drawn[0])
        random.setstate(drawn[1])
        again = fn(*args, **kwargs)
        ctx.count("repeat")
        if content(again) != first and not same_answer(copy, again):
            raise Violation("repeat", "%s gave another answer when asked again" % name, {"first": brief(result), "again": brief(again)})
        if content(result) != first:
            raise Violation("repeat", "%s changed the answer it had given before" % name, {})
        if not isinstance(fn, types.MethodType) and (getattr(fn, "__module__", None) or "").startswith(OWN) and short != "<lambda>":
            scribbled(ctx, name, fn, args, kwargs, result, again, copy, drawn)
    return result


def arrays_in(x, depth=0, out=None):
    """The arrays themselves of an answer or of arguments."""
    out = [] if out is None else out
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, (list, tuple)) and depth < 4:
        for v in x:
            arrays_in(v, depth + 1, out)
    elif isinstance(x, dict) and depth < 4:
        for v in x.values():
            arrays_in(v, depth + 1, out)
    elif type(x).__module__.startswith(OWN) and hasattr(x, "__dict__") and depth < 4:
        for v in vars(x).values():
            arrays_in(v, depth + 1, out)
    return out


def scribbled(ctx, name, fn, args, kwargs, result, again, copy, drawn):
    """A function of its arguments alone: what the caller does to one answer cannot show in the next."""
    if type(again).__module__.startswith(OWN):
        return
    given = arrays_in(list(args)) + arrays_in(kwargs)
    mine = [a for a in arrays_in(again) if a.flags.writeable and a.size and a.dtype.kind in "biufc"
            and not any(np.may_share_memory(a, g) for g in given)]
    if not mine or sum(a.size for a in mine) > 200000:
        return
    was = [a.copy() for a in mine]
    for a in mine:
        a[...] = ~a if a.dtype.kind == "b" else 1 - np.nan_to_num(np.asarray(a))
    np.random.set_state(drawn[0])
    random.setstate(drawn[1])
    third = fn(*args, **kwargs)
    ctx.count("repeat")
    good = same_answer(copy, third)
    for a, w in zip(mine, was):
        a[...] = w
    if not good:
        raise Violation("repeat", "%s gave another answer after the caller had changed the one before" % name,
                        {"first": brief(copy), "then": brief(third)})
