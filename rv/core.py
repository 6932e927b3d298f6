"""Core of the runtime monitor: cases, event log, oracles' reporting, runner.

A *scenario* is a workload that drives the real resippy code through its public
API.  Every call made through ``Ctx.call`` (and every nested call on an API that
a scenario has instrumented with ``rv.hooks``) is an *event*: it is counted and
its arguments are snapshotted.  *Monitors* are the named oracles that look at
events; each comparison they make is counted.  A case is deterministic in
(VERIF_SEED, property, scenario, index).
"""
import copy
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RV_REPO", "/repo")
KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")


class Violation(Exception):
    def __init__(self, monitor, message, data=None):
        Exception.__init__(self, "%s: %s" % (monitor, message))
        self.monitor = monitor
        self.message = message
        self.data = data or {}


BIG = 1000000        # case indices from here on are large cases


class CaseTimeout(BaseException):
    pass


def stable_hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode())
        h.update(b"|")
    return int.from_bytes(h.digest()[:8], "little")


def brief(x, n=240):
    """A short, JSON-safe description of a value."""
    try:
        if isinstance(x, np.ndarray):
            if x.size <= 8:
                return "array%s%s" % (x.dtype, x.tolist())
            return "array(%s,%s,min=%s,max=%s)" % (x.shape, x.dtype, _safe(np.min, x), _safe(np.max, x))
        if isinstance(x, (list, tuple)):
            return [brief(v, 80) for v in list(x)[:8]] + (["..."] if len(x) > 8 else [])
        if isinstance(x, dict):
            return {str(k): brief(v, 80) for k, v in list(x.items())[:12]}
        if isinstance(x, (int, float, bool, str)) or x is None:
            return x if not isinstance(x, str) else x[:n]
        return str(x)[:n]
    except Exception as e:  # description only
        return "<%s: %s>" % (type(x).__name__, e)


def _safe(f, x):
    try:
        return f(x)
    except Exception:
        return "?"


def json_default(o):
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    return str(o)


# --------------------------------------------------------------------------
# argument snapshots (used by the immutability monitor)
# --------------------------------------------------------------------------
def snapshot(x, depth=0):
    if isinstance(x, np.ma.MaskedArray):
        return ("ma", np.array(x.data, copy=True), np.array(np.ma.getmaskarray(x)))
    if isinstance(x, np.ndarray):
        return ("nd", x.shape, x.dtype.str, x.tobytes() if not x.dtype.hasobject else repr(x.tolist()))
    if isinstance(x, (list, tuple)) and depth < 3:
        return (type(x).__name__, tuple(snapshot(v, depth + 1) for v in x))
    if isinstance(x, dict) and depth < 3:
        return ("dict", tuple((repr(k), snapshot(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (int, float, complex, str, bytes, bool)) or x is None:
        return ("v", repr(x))
    return None


def snap_equal(a, b):
    if a is None or b is None:
        return True
    if isinstance(a, tuple) and a and a[0] == "ma":
        return np.array_equal(a[1], b[1], equal_nan=True) and np.array_equal(a[2], b[2])
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(snap_equal(p, q) if isinstance(p, tuple) or p is None else p == q for p, q in zip(a, b))
    return a == b


class Ctx(object):
    """One case of one scenario."""

    def __init__(self, prop, scenario, index, seed, tier, known, mode="normal"):
        self.prop, self.scenario, self.index, self.seed, self.tier = prop, scenario, index, seed, tier
        self.known = known
        self.mode = mode              # 'normal' or 'immutability'
        self.rng = np.random.default_rng([stable_hash(prop, scenario), index, seed & 0xFFFFFFFF])
        self.events = {}
        self.monitors = {}
        self.cover_set = set()
        self.inputs = []
        self.known_hits = []
        self.big = index >= BIG       # a case of the large sizes
        self._scratch = None
        self.nhash = 0
        self.trail = []

    # -- workload side ------------------------------------------------------
    @property
    def scratch(self):
        if self._scratch is None:
            self._scratch = tempfile.mkdtemp(prefix="rv_%s_" % self.prop)
        return self._scratch

    def path(self, name):
        return os.path.join(self.scratch, name)

    def many(self, n, most):
        """n of something, in large cases any number up to most."""
        return int(10 ** self.rng.uniform(np.log10(max(n, most / 300.0)), np.log10(most))) if self.big else n

    def shape(self, lo, hi, most, least=1):
        """(ny, nx) from [lo, hi), in large cases up to most pixels of any proportions."""
        r = self.rng
        if not self.big:
            return int(r.integers(lo, hi)), int(r.integers(lo, hi))
        n = max(self.many(hi * hi, most), least)
        ny = max(lo, int(round(n ** r.uniform(0.3, 0.7))))
        self.cover("pixels", "10^%d" % np.log10(n))
        return ny, max(lo, int(n // ny))

    def close_scratch(self):
        if self._scratch is not None and os.path.basename(self._scratch).startswith("rv_"):
            shutil.rmtree(self._scratch, ignore_errors=True)
            self._scratch = None

    def given(self, **kw):
        """Record the generated input of this case (for evidence and replay)."""
        for k, v in kw.items():
            self.inputs.append((k, brief(v)))
            s = snapshot(v)
            self.nhash = zlib.crc32(repr(s).encode() if s is not None else repr(brief(v)).encode(), self.nhash)

    def cover(self, *key):
        self.cover_set.add("/".join(str(k) for k in key))

    def event(self, name):
        self.events[name] = self.events.get(name, 0) + 1
        if len(self.trail) < 200:
            self.trail.append(name)

    def call(self, fn, *args, **kwargs):
        name = kwargs.pop("_name", None) or getattr(fn, "__qualname__", None) or getattr(fn, "__name__", repr(fn))
        self.event(name)
        if self.mode == "immutability":
            from rv import immut
            return immut.watch(self, name, fn, args, kwargs)
        return fn(*args, **kwargs)

    # -- oracle side --------------------------------------------------------
    def count(self, monitor, n=1):
        self.monitors[monitor] = self.monitors.get(monitor, 0) + n

    def fail(self, monitor, message, **data):
        if self.mode != "normal":
            return
        raise Violation(monitor, message, {k: brief(v, 1000) for k, v in data.items()})

    def check(self, monitor, cond, message, **data):
        self.count(monitor)
        ok = bool(cond)
        if not ok:
            self.fail(monitor, message, **data)
        return ok

    def equal(self, monitor, actual, expected, message, **data):
        """Exact equality of values / arrays (NaN == NaN)."""
        self.count(monitor)
        try:
            if isinstance(expected, np.ndarray) or isinstance(actual, np.ndarray):
                a, e = np.asarray(actual), np.asarray(expected)
                ok = a.shape == e.shape
                if ok:
                    if a.dtype.kind in "fc" and e.dtype.kind in "fciub":
                        ok = np.array_equal(a, e, equal_nan=True)
                    else:
                        ok = np.array_equal(a, e)
            else:
                ok = actual == expected
        except Exception as exc:
            ok = False
            data["compare_error"] = repr(exc)
        if not ok:
            self.fail(monitor, message, actual=actual, expected=expected, **data)
        return bool(ok)

    def close(self, monitor, actual, expected, message, atol=1e-9, rtol=1e-9, **data):
        """|actual-expected| <= atol + rtol*|expected|, same shape, NaNs in the same places."""
        a, e = np.asarray(actual), np.asarray(expected)
        self.count(monitor, max(1, int(e.size)))
        if a.shape != e.shape:
            self.fail(monitor, message + " (shape %s instead of %s)" % (a.shape, e.shape),
                      actual=actual, expected=expected, **data)
            return False
        try:
            ok = np.allclose(a, e, atol=atol, rtol=rtol, equal_nan=True)
        except Exception as exc:
            ok = False
            data["compare_error"] = repr(exc)
        if not ok:
            try:
                err = np.abs(a - e)
                k = int(np.nanargmax(np.where(np.isnan(err), np.inf, err)))
                data["worst_index"] = str(np.unravel_index(k, a.shape)) if a.ndim else "()"
                data["worst_actual"], data["worst_expected"] = str(a.ravel()[k]), str(e.ravel()[k])
            except Exception:
                pass
            self.fail(monitor, message, actual=actual, expected=expected, **data)
        return ok

    def is_close(self, actual, expected, atol=1e-9, rtol=1e-9):
        a, e = np.asarray(actual), np.asarray(expected)
        return a.shape == e.shape and bool(np.allclose(a, e, atol=atol, rtol=rtol, equal_nan=True))

    def known_check(self, fid, monitor, cond, message, **data):
        """Like check(), but a failure that the known-findings file lists is reported as such."""
        self.count(monitor)
        if bool(cond):
            return True
        if (self.prop, fid) in self.known:
            if fid not in self.known_hits:
                self.known_hits.append(fid)
            return False
        self.fail(monitor, message, **data)
        return False

    def must_raise(self, monitor, fn, message, *args, **kwargs):
        """The call has to be refused with an exception (never silently answered)."""
        name = getattr(fn, "__qualname__", repr(fn))
        self.event(name)
        self.count(monitor)
        try:
            r = fn(*args, **kwargs)
        except Exception:
            return True
        self.fail(monitor, message + " (returned %s)" % (brief(r),), returned=r)
        return False


class Scenario(object):
    def __init__(self, name, fn, quick, thorough, monitors, timeout, big):
        self.name, self.fn, self.quick, self.thorough, self.big = name, fn, quick, thorough, big
        self.monitors, self.timeout = monitors, timeout


class Registry(object):
    """Scenarios of one property; a property module has ``P = Registry(id, rule)``."""

    def __init__(self, prop, rule, level="exploration", assumptions=(), boost=1):
        self.boost = boost            # cheap workloads run that many times more cases
        self.prop, self.rule, self.level, self.assumptions = prop, rule, level, list(assumptions)
        self.scenarios = []
        self.mode = "normal"

    def scenario(self, quick=10, thorough=None, monitors=(), name=None, timeout=120, big=0):
        def deco(fn):
            self.scenarios.append(Scenario(name or fn.__name__, fn, quick * self.boost,
                                           (thorough if thorough is not None else quick * 12) * self.boost, monitors, timeout, big))
            return fn
        return deco


def load_known():
    """Lines 'finding: property=<id> key=<key> <what>' suppress; 'fixed: ...' lines suppress nothing."""
    known, texts = set(), {}
    if os.path.exists(KNOWN_FILE):
        with open(KNOWN_FILE) as f:
            for line in f:
                line = line.strip()
                if not line.startswith("finding:"):
                    continue
                toks = line[len("finding:"):].split(None, 2)
                p = toks[0].split("=", 1)[1]
                k = toks[1].split("=", 1)[1]
                known.add((p, k))
                texts[(p, k)] = toks[2] if len(toks) > 2 else ""
    return known, texts


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(reg, sc, index, seed, tier, known):
    """Run one case; returns a plain dict."""
    ctx = Ctx(reg.prop, sc.name, index, seed, tier, known, reg.mode)
    out = {"scenario": sc.name, "index": index, "violation": None, "error": None}
    # the time the process itself computes is limited, since a busy machine is no fault of the code; a wait that takes no
    # computing is limited by the clock
    old = signal.signal(signal.SIGALRM, _alarm), signal.signal(signal.SIGPROF, _alarm)
    signal.alarm(sc.timeout * 4)
    signal.setitimer(signal.ITIMER_PROF, sc.timeout)
    t0 = time.time()
    np_err = np.geterr()
    try:
        sc.fn(ctx)
    except Violation as v:
        out["violation"] = {"monitor": v.monitor, "message": v.message, "data": v.data}
    except CaseTimeout:
        out["violation"] = {"monitor": "termination", "message": "no answer within %d s of computing" % sc.timeout, "data": {}}
    except MemoryError:
        out["error"] = "MemoryError\n" + traceback.format_exc()
    except OSError as e:
        if getattr(e, "errno", None) in (28, 24, 12):
            out["error"] = traceback.format_exc()
        else:
            out["violation"] = _exc_violation(e)
    except Exception as e:
        out["violation"] = _exc_violation(e)
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGALRM, old[0])
        signal.signal(signal.SIGPROF, old[1])
        np.seterr(**np_err)
        ctx.close_scratch()
    if out["violation"] is not None and reg.mode != "normal" and out["violation"]["monitor"] == "unexpected-exception":
        # other properties' concern
        out["violation"] = None
    out.update(events=ctx.events, monitors=ctx.monitors, cover=sorted(ctx.cover_set),
               inputs=ctx.inputs, nhash=ctx.nhash, known_hits=ctx.known_hits,
               trail=ctx.trail[:40], wall=time.time() - t0)
    return out


def _exc_violation(e):
    tb = traceback.format_exc()
    where = ""
    for fr in traceback.extract_tb(e.__traceback__):
        if "/resippy/" in fr.filename:
            where = "%s:%s" % (fr.filename, fr.name)
    return {"monitor": "unexpected-exception",
            "message": "%s: %s%s" % (type(e).__name__, str(e)[:300], (" in " + where) if where else ""),
            "data": {"traceback": tb[-3000:]}}


def _worker(args):
    modname, scname, indices, seed, tier = args
    reg = load_registry(modname)
    known, _ = load_known()
    sc = [s for s in reg.scenarios if s.name == scname][0]
    outs = []
    note = os.path.join(tempfile.gettempdir(), "case_%d" % os.getpid())
    for i in indices:
        with open(note, "w") as f:
            f.write("%s %d" % (scname, i))
        o = run_case(reg, sc, i, seed, tier, known)
        outs.append(o)
        if o["violation"] or o["error"]:
            break
    return outs


_reg_cache = {}


def load_registry(modname):
    if modname not in _reg_cache:
        import importlib
        m = importlib.import_module("rv.props." + modname)
        _reg_cache[modname] = m.P
    return _reg_cache[modname]


def death(top, w, seed):
    """The outcome of a case that took its process with it."""
    try:
        with open(os.path.join(top, "case_%d" % w.pid)) as f:
            scen, i = f.read().split()
    except (OSError, ValueError):
        scen, i = "unknown", 0
    out = {"scenario": scen, "index": int(i), "events": {}, "monitors": {}, "cover": [], "inputs": [], "nhash": "", "known_hits": [],
           "trail": [], "wall": 0.0, "violation": None, "error": None}
    if w.exitcode == -9:
        out["error"] = "the process of case %s[%s] was killed (memory?)" % (scen, i)
    else:
        out["violation"] = {"monitor": "process-death", "message": "the process died with exit code %s (a signal, where negative)" % w.exitcode,
                            "data": {}}
    return out


def write_replay(prop, seed, tier, o):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%d-seed%d.json" % (prop, o["scenario"], o["index"], seed))
    with open(p, "w") as f:
        json.dump({"property": prop, "scenario": o["scenario"], "index": o["index"], "seed": seed, "tier": tier,
                   "violation": o["violation"], "inputs": o["inputs"], "events": o["trail"],
                   "replay_with": "bash /verif/check.sh %s --replay %s" % (prop, p)},
                  f, indent=1, default=json_default)
    return p


def run_property(modname, tier, seed, jobs=None, only=None):
    import multiprocessing as mp
    t0 = time.time()
    reg = load_registry(modname)
    known, known_text = load_known()
    jobs = jobs or min(8, os.cpu_count() or 1)
    budget = float(os.environ.get("RV_BUDGET", 780 if tier == "quick" else 4 * 3600))

    tasks = []
    for sc in reg.scenarios:
        if only and sc.name not in only:
            continue
        n = sc.quick if tier == "quick" else sc.thorough
        size = max(1, min(50, -(-n // (jobs * 2))))
        for s in range(0, n, size):
            tasks.append((modname, sc.name, list(range(s, min(n, s + size))), seed, tier))
        for i in range(sc.big * (1 if tier == "quick" else 10)):
            tasks.append((modname, sc.name, [BIG + i], seed, tier))
    outs, truncated = [], False
    mpctx = mp.get_context("fork")
    # one parent for all scratch directories: a worker that is stopped leaves its own behind
    top, before = tempfile.mkdtemp(prefix="rv_run_"), tempfile.tempdir
    tempfile.tempdir = top
    if jobs == 1:
        for t in tasks:
            outs.extend(_worker(t))
            if outs[-1]["violation"] or outs[-1]["error"]:
                break
    else:
        pool = mpctx.Pool(jobs)
        crew, died = list(pool._pool), []
        try:
            pend = [pool.apply_async(_worker, (t,)) for t in tasks]
            bad = False
            for r in pend:
                got = None
                while got is None and not truncated and not died:
                    try:
                        got = r.get(timeout=1)
                    except mp.TimeoutError:
                        truncated = time.time() - t0 > budget
                        died = [w for w in crew if w.exitcode not in (None, 0)]
                if got is None:
                    break
                outs.extend(got)
                if any(o["violation"] for o in got):
                    bad = True
                    break
        finally:
            pool.terminate()
            pool.join()
        for w in died:
            outs.append(death(top, w, seed))
    tempfile.tempdir = before
    shutil.rmtree(top, ignore_errors=True)

    events, monitors, cover, hashes, per = {}, {}, set(), set(), {}
    violations, errors, hits = [], [], []
    for o in outs:
        for k, v in o["events"].items():
            events[k] = events.get(k, 0) + v
        nchecks = 0
        for k, v in o["monitors"].items():
            monitors[k] = monitors.get(k, 0) + v
            nchecks += v
        cover.update(o["scenario"] + ":" + c for c in o["cover"])
        per.setdefault(o["scenario"], [0, 0.0])
        per[o["scenario"]][0] += 1
        per[o["scenario"]][1] += o["wall"]
        if nchecks and o["events"]:
            hashes.add((o["scenario"], o["nhash"], tuple(o["cover"])))
        if o["violation"]:
            violations.append(o)
        if o["error"]:
            errors.append(o)
        for h in o["known_hits"]:
            if h not in hits:
                hits.append(h)
    samples, seen = [], set()
    for o in outs:
        if o["scenario"] not in seen and len(samples) < 40:
            seen.add(o["scenario"])
            samples.append({"scenario": o["scenario"], "index": o["index"],
                            "inputs": {k: v for k, v in o["inputs"][:14]},
                            "events": o["trail"][:12], "monitor_comparisons": o["monitors"]})
    missing = []
    if not violations and not only:
        for sc in reg.scenarios:
            if sc.name not in per:
                missing.append("scenario %s did not run" % sc.name)
            for m in sc.monitors:
                if not monitors.get(m):
                    missing.append("monitor %s of scenario %s observed nothing" % (m, sc.name))
    vio = []
    for o in violations[:10]:
        p = write_replay(reg.prop, seed, tier, o)
        vio.append({"replay": p, "scenario": o["scenario"], "index": o["index"],
                    "monitor": o["violation"]["monitor"], "message": o["violation"]["message"]})
    ev = {
        "property": reg.prop, "tier": tier, "seed": seed, "level": reg.level,
        "coverage": {
            "evaluations": len(outs),
            "distinct_nontrivial": len(hashes),
            "rule": reg.rule + "  A case counts as distinct and non-trivial when the tuple (scenario, checksum of its "
                               "generated inputs, coverage classes reached) is new, at least one event of the code "
                               "under test was recorded, and at least one monitor compared something.",
            "events_observed": sum(events.values()),
            "events_by_api": dict(sorted(events.items())),
            "monitor_comparisons": dict(sorted(monitors.items())),
            "coverage_classes_reached": len(cover),
            "coverage_classes": sorted(cover)[:400],
            "cases_per_scenario": {k: v[0] for k, v in sorted(per.items())},
            "slowest_case": max(((round(o["wall"], 1), "%s[%d]" % (o["scenario"], o["index"])) for o in outs), default=None),
            "truncated_by_time": truncated,
            "known_findings_seen": hits,
            "samples": samples,
        },
        "assumptions": reg.assumptions,
        "violations": vio,
        "wall_s": round(time.time() - t0, 3),
    }
    if not only and not os.environ.get("RV_NOEV"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", reg.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=json_default)
            f.write("\n")
    for h in hits:
        print("KNOWN-FINDING: property=%s %s: %s" % (reg.prop, h, known_text.get((reg.prop, h), "")))
    print("%s %s seed=%d: %d cases, %d distinct, %d events, %d comparisons, %d classes, %.1f s"
          % (reg.prop, tier, seed, len(outs), len(hashes), sum(events.values()), sum(monitors.values()),
             len(cover), time.time() - t0))
    if vio:
        for v in vio:
            print("  %s[%d] %s: %s" % (v["scenario"], v["index"], v["monitor"], v["message"][:600]))
        print("VIOLATION property=%s replay=%s" % (reg.prop, vio[0]["replay"]))
        return 1
    if errors:
        print("CHECK-ERROR %s" % errors[0]["error"])
        return 2
    if missing:
        print("CHECK-ERROR vacuous: " + "; ".join(missing))
        return 2
    return 0


def replay(modname, path):
    with open(path) as f:
        r = json.load(f)
    reg = load_registry(modname)
    sc = [s for s in reg.scenarios if s.name == r["scenario"]][0]
    o = run_case(reg, sc, r["index"], r["seed"], r["tier"], load_known()[0])
    print(json.dumps({k: o[k] for k in ("scenario", "index", "inputs", "trail", "violation", "error")},
                     indent=1, default=json_default))
    if o["violation"]:
        print("VIOLATION property=%s replay=%s" % (reg.prop, path))
        return 1
    return 0
