"""C15: reflectance spectra: files, nodata, units, resampling."""
import csv
import os
import numpy as np
from rv.core import Registry
from resippy.spectral.spectrum import Spectrum
from resippy.spectral.spectrum_factories.spectrum_factory import SpectrumFactory
from resippy.utils.units import ureg

P = Registry("C15", "Random spectra written in each supported text format (many spacings, numeric notations, header "
                    "lengths, column orders, delimiters, directory layouts); the monitor compares what the factories "
                    "return with what was written, nodata handling with a mask computed on the side, and resampling "
                    "with an independent trapezoid quadrature.", boost=80)


def wave_axis(r, n, lo=0.35, hi=2.5):
    w = np.sort(r.uniform(lo, hi, n))
    w = w + np.arange(n) * 1e-4
    return w


def fmt(r, v):
    k = int(r.integers(0, 4))
    return ["%r" % float(v), "%.12f" % v, "%.15e" % v, "%.15E" % v][k]


def in_units(ctx, mon, s, w, v):
    """The factories without a unit column state nanometres and reflectance."""
    ctx.close(mon, ctx.call(s.get_wavelengths, with_units=True).to(ureg.micrometer).magnitude, w / 1000.0,
              "wavelengths in micrometres", atol=1e-11, rtol=1e-10)
    q = ctx.call(s.get_spectral_data, with_units=True)
    ctx.close(mon, q.magnitude, v, "reflectance with its unit", atol=1e-11, rtol=1e-10)
    ctx.check(mon, q.units == ureg.reflectance_zero_to_one, "the reflectance has the unit %s" % q.units)


def near(ctx, name, got, want, msg):
    ctx.close(name, got, want, msg, atol=1e-11, rtol=1e-11)


@P.scenario(quick=60, thorough=800, monitors=("file-svc",), big=2)
def svc_file(ctx):
    r = ctx.rng
    n = ctx.many(int(r.integers(1, 200)), 20000)
    w = wave_axis(r, n, 350, 2500)
    # noisy channels of a white panel go beyond 100 per cent, those of a dark one below zero
    cols = r.uniform(*[(0, 100), (0, 100), (-5, 130)][int(r.integers(0, 3))], (n, 3))
    nh = int(r.integers(0, 30))
    head = ["/*** Spectra Vista SIG Data ***/"] + [str(r.choice(["key%d= some value %d" % (i, i), "comm= field data %d" % i, "instrument= HI: 1072011 (data logger)",
                                                                     "  data quality %d" % i])) for i in range(nh)] + ["data= "]
    sep = str(r.choice([" ", "  ", "\t"]))
    body = [sep.join(fmt(r, v) for v in (w[i], cols[i, 0], cols[i, 1], cols[i, 2])) for i in range(n)]
    text = "\n".join(head + body) + ("\n" if r.random() < 0.6 else "")
    p = ctx.path("a.sig")
    open(p, "w").write(text)
    ctx.given(n=n, header=nh, wavelengths=w, reflectance=cols[:, 2])
    s = ctx.call(SpectrumFactory.svc.ascii.SvcAsciiFileFactory.from_sig_file, p)
    near(ctx, "file-svc", s.get_wavelengths(), w, "SVC wavelengths")
    near(ctx, "file-svc", s.get_spectral_data(), cols[:, 2] / 100.0, "SVC reflectance (percent/100)")
    in_units(ctx, "file-svc", s, w, cols[:, 2] / 100.0)


@P.scenario(quick=80, thorough=1000, monitors=("file-csv",), big=2)
def csv_file(ctx):
    r = ctx.rng
    n, nc = ctx.many(int(r.integers(1, 150)), 20000), int(r.integers(2, 7))
    tab = r.uniform(0, 1, (n, nc))
    wi, ri = (int(v) for v in r.permutation(nc)[:2])
    tab[:, wi] = wave_axis(r, n)
    nheader = int(r.integers(0, 5))
    delim = str(r.choice([",", ";", "\t", "|"]))
    p = ctx.path("a.csv")
    with open(p, "w", newline="") as f:
        wr = csv.writer(f, delimiter=delim, quoting=csv.QUOTE_ALL if r.random() < 0.3 else csv.QUOTE_MINIMAL)
        for i in range(nheader):
            wr.writerow(["h%d_%d" % (i, j) for j in range(nc)])
        for row in tab:
            wr.writerow([fmt(r, v) for v in row])
    default = nheader == 1 and wi == 0 and ri == 1 and delim == ","
    ctx.given(table=tab, nheader=nheader, delimiter=delim, wave_index=wi, reflectance_index=ri)
    ctx.cover(delim, nheader)
    kw = {} if default else dict(delimiter=delim, nheader=nheader, wave_index=wi, reflectance_index=ri)
    s = ctx.call(SpectrumFactory.csv.ascii.CsvAsciiFileFactory.from_csv_file, p, **kw)
    near(ctx, "file-csv", s.get_wavelengths(), tab[:, wi], "CSV wavelengths")
    near(ctx, "file-csv", s.get_spectral_data(), tab[:, ri], "CSV reflectance")
    in_units(ctx, "file-csv", s, tab[:, wi], tab[:, ri])


@P.scenario(quick=10, thorough=60, monitors=("file-csv",))
def csv_default_layout(ctx):
    r = ctx.rng
    n = int(r.integers(1, 60))
    w, v = wave_axis(r, n), r.uniform(0, 1, n)
    p = ctx.path("d.csv")
    open(p, "w").write("wave,refl\n" + "\n".join("%r,%r" % (float(a), float(b)) for a, b in zip(w, v)) + "\n")
    ctx.given(w=w, v=v)
    s = ctx.call(SpectrumFactory.csv.ascii.CsvAsciiFileFactory.from_csv_file, p)
    near(ctx, "file-csv", s.get_wavelengths(), w, "CSV wavelengths (defaults)")
    near(ctx, "file-csv", s.get_spectral_data(), v, "CSV reflectance (defaults)")


@P.scenario(quick=60, thorough=800, monitors=("file-envi-plot",), big=2)
def envi_plot(ctx):
    r = ctx.rng
    n = ctx.many(int(r.integers(1, 150)), 20000)
    w, v = wave_axis(r, n), r.uniform(-0.1, 1.3, n)
    eol = str(r.choice(["\n", "\r\n"]))
    lines = ["ENVI ASCII Plot File [x]", "Column 1: Wavelength", "Column 2: Mean~~##255,0,0"]
    sep = str(r.choice(["  ", "\t", "      "]))
    lines += [" " * int(r.integers(0, 4)) + fmt(r, a) + sep + fmt(r, b) for a, b in zip(w, v)]
    p = ctx.path("plot.txt")
    with open(p, "w", newline="") as f:
        f.write(eol.join(lines) + (eol if r.random() < 0.6 else ""))
    ctx.given(w=w, v=v, eol=eol)
    ctx.cover(repr(eol))
    s = ctx.call(SpectrumFactory.envi.ascii.EnviAsciiPlotFileFactory.from_ascii_file, p)
    near(ctx, "file-envi-plot", s.get_wavelengths(), w, "ENVI plot wavelengths")
    near(ctx, "file-envi-plot", s.get_spectral_data(), v, "ENVI plot reflectance")
    in_units(ctx, "file-envi-plot", s, w, v)


def usgs_tree(ctx, w, f, v):
    r = ctx.rng
    base = ctx.path(str(r.choice(["usgs_%d", "library [v7] %d", "a*b?_%d", "usgs.txt %d"])) % int(r.integers(0, 1000)))
    sub = os.path.join(base, "ChapterM_Minerals")
    os.makedirs(sub)
    wn = str(r.choice(["splib07a_Wavelengths_ASD_0.35-2.5_microns.txt", "s07_WAVES.txt", "wavelengths.txt"]))
    fn = str(r.choice(["splib07a_Bandpass_(FWHM).txt", "sensor_RESOLUTION_x.txt", "bandpass.txt"]))

    def put(path, vals):
        with open(path, "w") as fh:
            fh.write(" title of the record\n")
            fh.write("\n".join(" " + fmt(r, x) for x in vals) + ("\n" if r.random() < 0.7 else ""))
    put(os.path.join(base, wn), w)
    put(os.path.join(base, fn), f)
    open(os.path.join(base, "readme.txt"), "w").write("nothing here\n")
    p = os.path.join(sub, "spec.txt")
    put(p, v)
    return p


@P.scenario(quick=60, thorough=800, monitors=("file-usgs", "nodata", "units"), big=2)
def usgs_file(ctx):
    r = ctx.rng
    n = ctx.many(int(r.integers(2, 150)), 20000)
    w, f, v = wave_axis(r, n), r.uniform(0.001, 0.01, n), r.uniform(0, 1, n)
    bad = r.random(n) < r.choice([0.0, 0.1, 0.5])
    v[bad] = -1.23e34
    ctx.given(w=w, fwhm=f, v=v)
    ctx.cover("nodata" if bad.any() else "all good")
    p = usgs_tree(ctx, w, f, v)
    where = os.getcwd()
    how = str(r.choice(["absolute", "absolute", "from the library", "from the chapter"]))
    ctx.cover(how)
    try:
        if how != "absolute":
            os.chdir(os.path.dirname(os.path.dirname(p)) if how == "from the library" else os.path.dirname(p))
            p = os.path.relpath(p)
        s = ctx.call(SpectrumFactory.usgs.ascii.UsgsAsciiSpectralFactory.from_ascii_file, p)
    finally:
        os.chdir(where)
    near(ctx, "file-usgs", s.get_wavelengths(), w, "USGS wavelengths")
    near(ctx, "file-usgs", s.get_fwhm(), f, "USGS fwhm")
    near(ctx, "nodata", s.get_spectral_data(), np.where(bad, np.nan, v),
         "USGS reflectance: exactly the deleted channels are NaN")
    ctx.close("nodata", s.get_spectral_data(nodata_to_nan=False), v, "raw USGS reflectance", atol=1e-11, rtol=1e-11)
    near(ctx, "nodata", s.get_spectral_data(), np.where(bad, np.nan, v), "second read")
    q = s.get_wavelengths(with_units=True).to(ureg.nanometer)
    ctx.close("units", q.magnitude, w * 1000.0, "wavelengths in nanometres", atol=1e-8, rtol=1e-10)
    ctx.close("units", s.get_fwhm(with_units=True).to(ureg.nanometer).magnitude, f * 1000.0, "fwhm in nanometres",
              atol=1e-8, rtol=1e-10)
    near(ctx, "units", s.get_spectral_data(with_units=True).magnitude, np.where(bad, np.nan, v), "with units")
    ctx.equal("file-usgs", s.get_fname(), p, "file name")


@P.scenario(quick=80, thorough=1000, monitors=("nodata",), big=2)
def nodata_values(ctx):
    r = ctx.rng
    n = ctx.many(int(r.integers(1, 60)), 100000)
    nd = float(r.choice([-9999.0, 0.0, -1.0, 1.5, -1.23e34]))
    v = r.uniform(0.01, 1, n)
    if r.random() < 0.3:
        v, nd = r.integers(1, 9, n), float(int(r.choice([0, -9999, 3])))
    if r.random() < 0.3:
        # samples on both sides of the no-data value, some next to it
        v = nd + r.choice([-1, 1], n) * (abs(nd) * r.choice([1e-12, 1e-3, 2.0], n) + r.choice([0.01, 0], n))
    v[r.random(n) < 0.3] = nd
    keep = v.copy()
    ctx.given(v=v, nodata=nd)
    ctx.cover(nd, v.dtype.str)
    s = Spectrum()
    s.set_spectral_data(v)
    w = wave_axis(r, n)
    s.set_wavelengths(w)
    ctx.equal("nodata", np.asarray(ctx.call(s.get_spectral_data)), keep, "no nodata value set: data unchanged")
    s.set_nodata_val(nd)
    for _ in range(2):
        got = ctx.call(s.get_spectral_data)
        ctx.equal("nodata", np.asarray(got, float), np.where(keep == nd, np.nan, keep), "exactly nodata samples are NaN")
        got[:] = 7
    ctx.equal("nodata", ctx.call(s.get_spectral_data, nodata_to_nan=False), keep, "raw samples")
    ctx.equal("nodata", v, keep, "stored samples were changed by reading")
    ctx.equal("nodata", np.asarray(s.get_wavelengths()), w, "wavelengths")


@P.scenario(quick=60, thorough=800, monitors=("nodata", "units", "resample"))
def history(ctx):
    """A spectrum whose parts are replaced between questions answers with the parts it has now."""
    r = ctx.rng
    s, now, units = Spectrum(), {}, None
    n = int(r.integers(8, 60))
    U = {"nm": ureg.nanometer, "um": ureg.micrometer}
    band = Spectrum()
    bw = np.linspace(0.4, 2.4, 50)
    bd = r.uniform(0.2, 1, 50)
    band.set_wavelengths(bw), band.set_spectral_data(bd)
    steps = ["wavelengths", "data", "nodata", "fwhm", "wave-units", "units", "name"]
    for k in range(14):
        step = steps[k] if k < len(steps) else str(r.choice(steps))
        ctx.cover(step)
        if step == "wavelengths":
            now["w"] = np.linspace(float(r.uniform(0.3, 0.39)), float(r.uniform(2.41, 2.6)), n)
            s.set_wavelengths(now["w"].copy())
        elif step == "data":
            now["v"] = np.round(r.uniform(0, 1, n), 1)
            s.set_spectral_data(now["v"].copy())
        elif step == "nodata":
            now["nd"] = None if r.random() < 0.2 else round(float(r.uniform(0, 1)), 1)
            s.set_nodata_val(now["nd"])
        elif step == "fwhm":
            now["f"] = r.uniform(0.001, 0.01, n)
            s.set_fwhm(now["f"].copy())
        elif step == "wave-units":
            now["wu"] = str(r.choice(sorted(U)))
            s.set_wavelength_units(U[now["wu"]])
        elif step == "units":
            now["u"] = [ureg.reflectance_zero_to_one, ureg.microflick][int(r.integers(0, 2))]
            s.set_spectrum_units(now["u"])
        else:
            now["n"] = "spectrum %d" % k
            s.set_fname(now["n"])
        if k < len(steps) - 1:
            continue
        ctx.given(step=step, k=k, v=now["v"], nd=now["nd"], w=now["w"])
        ctx.equal("nodata", np.asarray(ctx.call(s.get_wavelengths)), now["w"], "the wavelengths are not those set")
        ctx.equal("nodata", np.asarray(ctx.call(s.get_fwhm)), now["f"], "the bandwidths are not those set")
        raw = now["v"] if now["nd"] is None else np.where(now["v"] == now["nd"], np.nan, now["v"])
        ctx.equal("nodata", np.asarray(ctx.call(s.get_spectral_data)), raw, "the samples are not those set, without the no-data ones")
        ctx.equal("nodata", np.asarray(ctx.call(s.get_spectral_data, nodata_to_nan=False)), now["v"], "the raw samples are not those set")
        ctx.check("nodata", s.get_nodata_val() == now["nd"] and s.get_fname() == now["n"], "no-data value or name")
        for fn, want in ((s.get_wavelengths, now["w"]), (s.get_fwhm, now["f"])):
            q = ctx.call(fn, with_units=True)
            ctx.check("units", q.units == U[now["wu"]] * 1.0 or q.units == (1.0 * U[now["wu"]]).units, "unit %s" % q.units)
            ctx.equal("units", q.magnitude, want, "values with their unit")
        q = ctx.call(s.get_spectral_data, with_units=True)
        ctx.check("units", q.units == now["u"], "unit of the samples: %s" % q.units)
        ctx.equal("units", q.magnitude, raw, "samples with their unit")
        if not np.isnan(raw).any():
            ri = np.interp(now["w"], bw, bd, left=0, right=0)
            dw = np.diff(now["w"])
            want = np.sum(dw * (ri[1:] * raw[1:] + ri[:-1] * raw[:-1]) / 2) / np.sum(dw * (ri[1:] + ri[:-1]) / 2)
            out = ctx.call(s.resample_spectrum_direct, [band], np.array([1.4]))
            ctx.close("resample", np.asarray(out.get_spectral_data()), [want], "band value of the spectrum as it is now", atol=1e-9, rtol=1e-9)


@P.scenario(quick=120, thorough=2000, monitors=("resample",), big=3)
def resample(ctx):
    r = ctx.rng
    n = ctx.many(int(r.integers(60, 400)), 8000)
    w = wave_axis(r, n)
    v = r.uniform(0, 1, n)
    s = Spectrum()
    s.set_wavelengths(w)
    s.set_spectral_data(v)
    s.set_spectrum_units("reflectance_0-1")
    deleted = np.zeros(n, bool)
    if r.random() < 0.3:
        deleted[r.choice(n, int(r.integers(1, 8)), replace=False)] = True
        s.set_nodata_val(-1.23e34)
        s.set_spectral_data(np.where(deleted, -1.23e34, v))
    rs, centers, expect, touched = [], [], [], []
    for _ in range(ctx.many(int(r.integers(1, 6)), 60)):
        c, half = r.uniform(0.5, 2.3), r.uniform(0.05, 0.3)
        m = int(r.integers(3, 30))
        rw = np.sort(r.uniform(c - half, c + half, m)) + np.arange(m) * 1e-6
        rd = np.exp(-((rw - c) / half) ** 2) + r.uniform(0, 0.2, m)
        ri = np.zeros(n)
        inside = (w >= rw[0]) & (w <= rw[-1])
        if inside.sum() < 3:
            continue
        for i in np.where(inside)[0]:
            k = min(max(int(np.searchsorted(rw, w[i], side="right")) - 1, 0), m - 2)
            t = (w[i] - rw[k]) / (rw[k + 1] - rw[k])
            ri[i] = rd[k] * (1 - t) + rd[k + 1] * t
        dw = np.diff(w)
        num = np.sum(dw * (ri[1:] * v[1:] + ri[:-1] * v[:-1]) / 2)
        den = np.sum(dw * (ri[1:] + ri[:-1]) / 2)
        q = Spectrum()
        q.set_wavelengths(rw)
        q.set_spectral_data(rd)
        rs.append(q)
        centers.append(c)
        expect.append(num / den)
        touched.append(bool(deleted[inside].any()))
    if not rs:
        centers = []
    clean = ~np.array(touched, bool)
    ctx.given(w=w, v=v, centers=centers)
    ctx.cover("bands", len(rs))
    out = ctx.call(s.resample_spectrum_direct, rs, np.array(centers))
    g = np.asarray(out.get_spectral_data())
    # what a band that responds to a deleted channel gets is not judged
    ctx.cover("deleted" if deleted.any() else "whole", "touched" if not clean.all() else "untouched")
    ctx.check("resample", g.shape == clean.shape, "there is not one value for each band")
    ctx.close("resample", g[clean], np.array(expect)[clean], "band value is not the response-weighted mean",
              atol=1e-9, rtol=1e-9)
    ctx.equal("resample", np.asarray(out.get_wavelengths()), np.array(centers), "band centres")
    ctx.equal("resample", out.get_spectrum_units(), "reflectance_0-1", "units are kept")
    g = g[clean]
    ctx.check("resample", np.all(g >= v.min() - 1e-12) and np.all(g <= v.max() + 1e-12),
              "band value outside the range of the spectrum")
    flat = Spectrum()
    flat.set_wavelengths(w)
    flat.set_spectral_data(np.full(n, 0.37))
    ctx.close("resample", ctx.call(flat.resample_spectrum_direct, rs, np.array(centers)).get_spectral_data(),
              np.full(len(rs), 0.37), "a flat spectrum does not stay flat", atol=1e-12, rtol=0)
    # linearity
    s2 = Spectrum()
    s2.set_wavelengths(w)
    s2.set_spectral_data(2.5 * v + 0.1)
    ctx.close("resample", ctx.call(s2.resample_spectrum_direct, rs, np.array(centers)).get_spectral_data(),
              2.5 * np.array(expect) + 0.1, "resampling is not linear", atol=1e-9, rtol=1e-9)


@P.scenario(quick=6, thorough=20, monitors=("units",))
def derived_units(ctx):
    r = ctx.rng
    x = float(r.uniform(0.01, 100))
    ctx.given(x=x)
    q = ctx.call(lambda: (x * ureg.flick).to(ureg.watt / ureg.cm ** 2 / ureg.steradian / ureg.micrometer), _name="flick")
    ctx.close("units", q.magnitude, x, "flick is W/cm^2/sr/um", rtol=1e-12)
    q = (x * ureg.microflick).to(ureg.kilowatt / ureg.steradian / ureg.meter ** 3)
    ctx.close("units", q.magnitude, 10 * x, "microflick is 10 kW/sr/m^3", rtol=1e-9)
    from resippy.utils.units import unit_constants
    ctx.close("units", (x * unit_constants.micron).to(unit_constants.meter).magnitude, x * 1e-6, "micron", rtol=1e-12)
