"""C11: Fourier and FFT post-processing recover the spectrum of a known waveform."""
import contextlib
import io
import math
import os
import random
import re

import numpy as np
from hypothesis import strategies as st

from ..core import Test, Skip, fail, require
from .. import circ, nl

PID = "C11"
TITLE = "Fourier and FFT post-processing recover the spectrum of the waveform"
RULE = ("a case is non-trivial when the waveform has two or more harmonics above the interpolation error; the reference "
        "is the discrete Fourier transform of the analytic waveform at the documented sampling instants")
ASSUMPTIONS = [
    "components are those of the (unnormalized) discrete Fourier transform of the resampled data: N times the DC, N/2 times the amplitude of a sine",
    "in the harmonic analyses the number of samples per window is free, provided the ninth harmonic is represented",
    "the tolerance is the error of the documented quadratic interpolation for the waveform's density of points",
]

FUNDS = [1.0, 50.0, 60.0, 1e3, 12345.0, 1e6, 3e7]
WINDOWS = ["RECT", "BART", "HANN", "HAMM", "BLACK", "HARRIS", "GAUSS", "KAISER"]


@st.composite
def wave(draw, kmax):
    ks = sorted(draw(st.sets(st.integers(2, max(kmax, 2)), min_size=0, max_size=3)))
    comp = [[1, draw(st.integers(20, 100)) / 100.0, draw(st.integers(-180, 180))]]
    for k in ks:
        comp.append([k, draw(st.integers(1, 100)) / 100.0, draw(st.integers(-180, 180))])
    return {"dc": draw(st.integers(-20, 20)) / 10.0, "comp": comp, "scale": draw(st.sampled_from([1.0, 1.0, 1e-3, 250.0]))}


def wval(w, fund, t):
    y = np.full(np.shape(t), float(w["dc"]))
    for k, a, ph in w["comp"]:
        y = y + a * np.cos(2 * np.pi * k * fund * t + math.radians(ph))
    return w["scale"] * y


def werr(w, fund, h):
    """interpolation error of a quadratic spline through points h apart"""
    return w["scale"] * (sum(a * .3 * (2 * np.pi * k * fund * h) ** 3 for k, a, _ in w["comp"]) + 1e-10)


@st.composite
def data_case(draw):
    d = {"fund": draw(st.sampled_from(FUNDS)), "seed": draw(st.integers(0, 10 ** 6)),
         "jitter": draw(st.sampled_from([0.0, 0.3, 0.5])), "first": draw(st.booleans()),
         "tstart": draw(st.sampled_from([0.0, 0.0, 2.0, 3.37])),
         "w": [draw(wave(9)), draw(wave(9)), draw(wave(5))],
         "label": draw(st.sampled_from(["a", "b", "i", "a-b", "b-a", "a-i", "(a,)", "(a,None)"])),
         "low": draw(st.booleans())}
    return d


def build(tmp, case, total, extra=None):
    """a transient result holding the waveforms, over `total` periods"""
    from ahkab import csvlib, results
    a = circ.sut()
    c = a.Circuit("waves")
    c.add_vsource("Vsrc", "a", "b", 1)
    c.add_resistor("R1", "a", c.gnd, 1e3)
    c.add_resistor("R2", "b", c.gnd, 1e3)
    fund = case["fund"]
    kmax = max(k for w in case["w"] for k, _, _ in w["comp"])
    h = 1.0 / fund / (40 * kmax)
    rng = np.random.default_rng(case["seed"])
    t0 = case["tstart"] / fund
    t1 = t0 + total / fund
    n = int(round((t1 - t0) / h)) + 1
    steps = 1 + case["jitter"] * (2 * rng.random(n) - 1)
    t = t0 + (t1 - t0) * np.concatenate(([0.0], np.cumsum(steps) / steps.sum()))
    t[-1] = t1
    if not case["first"]:
        t = t[1:]
    hmax = np.diff(t).max()
    rows = [wval(w, fund, t) for w in case["w"]]
    if extra is not None:
        rows[0] = rows[0] + extra(t)
    sol = results.tran_solution(c, t0, t1, None, "TRAP", tmp.path("w"))
    csvlib.write_csv(sol.filename, np.vstack([t] + rows), list(sol.keys()))
    sol.lock()
    return c, sol, t0, t1, hmax


def pick(case):
    """(label, coefficient of each waveform)"""
    names = {"a": "Va", "b": "Vb", "i": "I(Vsrc)"}
    f = (lambda x: x.lower()) if case["low"] else (lambda x: x)
    lab = case["label"]
    co = {"a": 0, "b": 0, "i": 0}
    if lab == "(a,)":
        co["a"] = 1
        return (f("Va"),), co
    if lab == "(a,None)":
        co["a"] = 1
        return (f("Va"), None), co
    if "-" in lab:
        p, q = lab.split("-")
        co[p] += 1
        co[q] -= 1
        return (f(names[p]), f(names[q])), co
    co[lab] = 1
    return f(names[lab]), co


def mixture(case, co, t):
    return sum(co[k] * wval(w, case["fund"], t) for k, w in zip("abi", case["w"]))


def mix_err(case, co, h):
    return sum(abs(co[k]) * werr(w, case["fund"], h) for k, w in zip("abi", case["w"])) * (1 if case["first"] else 2)


def harmonics(case, co, t):
    """phasors (cosine reference at time t) of DC and the harmonics 1..9"""
    X = np.zeros(10, dtype=complex)
    for k, w in zip("abi", case["w"]):
        X[0] += co[k] * w["scale"] * w["dc"]
        for n, a, ph in w["comp"]:
            X[n] += co[k] * w["scale"] * a * np.exp(1j * (math.radians(ph) + 2 * np.pi * ((n * case["fund"] * t) % 1)))
    return X


def check_thd(THD, X, err, what=""):
    A = np.abs(X)
    if len(A) < 2 or A[1] < 20 * err:
        return
    want = math.sqrt((A[2:] ** 2).sum()) / A[1]
    tol = 4 * err * (1 + want) / A[1] + 1e-9
    require(abs(THD - want) <= tol, "%sTHD is %r, expected %r", what, THD, want)


def triv(case, X, err, log):
    log.trivial = (np.abs(X[1:]) > 20 * err).sum() < 2


# -- fourier() ----------------------------------------------------------------

@st.composite
def four_case(draw):
    d = draw(data_case())
    d["periods"] = draw(st.sampled_from([1.0, 1.0, 1.3, 1.9, 2.0, 2.0, 2.5, 3.0, 4.0, 5.0, 5.7, 6.0, 7.2, 9.0, 10.0]))
    d["onset"] = draw(st.booleans())
    return d


def check_four(case, log):
    with nl.Scratch() as tmp:
        check_four_in(tmp, case, log)


def check_four_in(tmp, case, log):
    from ahkab import fourier
    fund, total = case["fund"], case["periods"]
    npd = max(int(total / 2 + 1e-9), 1)
    label, co = pick(case)
    extra = None
    t1 = (case["tstart"] + total) / fund
    if case["onset"] and total - npd > 0.4:
        # a build-up that is over when the data that are to be used begin
        tc = t1 - (npd + 0.15) / fund
        extra = lambda t: case["w"][0]["scale"] * 3 * np.where(t < tc, np.abs(tc - t) * fund, 0) ** 4
        log.label("build-up")
    c, sol, t0, t1, h = build(tmp, case, total, extra)
    err = mix_err(case, co, h)
    if extra is not None:
        err += abs(co["a"]) * case["w"][0]["scale"] * 1e-4 + werr(case["w"][0], fund, h)
    f, F, THD = fourier.fourier(label, sol, fund)
    log.label("periods:%g" % total, "label:" + case["label"])
    require(len(f) == len(F) == 10 and np.allclose(f, fund * np.arange(10), rtol=1e-9), "the frequencies are %r, expected the first harmonics of %r",
            f, fund)
    # one sample value of a constant gives the number of points
    N = points(case, sol, lambda s: fourier.fourier("Vb", s, fund)[1])
    require(N >= 20 * npd, "%d points in %d periods", N, npd)
    X = harmonics(case, co, t1)
    got = F * np.concatenate(([1.0 / N], np.full(9, 2.0 / N)))
    for k in range(10):
        require(abs(got[k] - X[k]) <= 4 * err, "harmonic %d of %s is %r, expected %r (error of the interpolation: %r)", k, label, got[k], X[k], err)
    check_thd(THD, X, 4 * err)
    triv(case, X, err, log)
    # which data are used: the mean of a ramp tells
    ramp = like(sol, np.asarray(sol.get_x()))
    R = fourier.fourier("Vb", ramp, fund)[1]
    mean = R[0].real / N
    want = t1 - npd / fund * (0.5 + 0.5 / N)
    require(abs(mean - want) <= 0.02 * npd / fund, "the data used are centred on %r, expected the last %d periods before %r: %r", mean, npd, t1, want)


def like(sol, y):
    """a result with the same axis, every variable being y"""
    import copy
    s = copy.copy(sol)
    t = np.asarray(sol.get_x())
    data = np.vstack([t, y, y, y])
    s.asarray = lambda: data
    names = {n.upper(): i for i, n in enumerate(sol.variables)}

    class R(object):
        tstart, tstop = sol.tstart, sol.tstop

        def get_x(self):
            return t

        def __getitem__(self, n):
            return data[names[n.upper()]]
    return R()


def points(case, sol, run):
    n = run(like(sol, np.ones(len(np.asarray(sol.get_x())))))[0]
    require(abs(n.imag) < 1e-9 * abs(n) and abs(n.real - round(n.real)) < 1e-6 * abs(n), "the transform of 1 has the DC component %r", n)
    return int(round(n.real))


# -- spicefft() ---------------------------------------------------------------

def window(name, n, alpha):
    k = np.arange(n)
    x = 2 * np.pi * k / (n - 1)
    if name == "RECT":
        return np.ones(n)
    if name == "BART":
        return 1 - np.abs(2.0 * k / (n - 1) - 1)
    if name == "HANN":
        return .5 - .5 * np.cos(x)
    if name == "HAMM":
        return .54 - .46 * np.cos(x)
    if name == "BLACK":
        return .42 - .5 * np.cos(x) + .08 * np.cos(2 * x)
    if name == "HARRIS":
        return .35875 - .48829 * np.cos(x) + .14128 * np.cos(2 * x) - .01168 * np.cos(3 * x)
    if name == "GAUSS":
        return np.exp(-.5 * ((k - (n - 1) / 2.0) / alpha) ** 2)
    return np.i0(alpha * np.sqrt(np.maximum(1 - (2.0 * k / (n - 1) - 1) ** 2, 0))) / np.i0(alpha)


@st.composite
def fft_case(draw):
    d = draw(data_case())
    d["periods"] = draw(st.sampled_from([1.0, 1.4, 2.0, 3.0, 4.0, 4.6, 5.0, 8.0]))
    d["freq"] = draw(st.sampled_from([True, True, False]))
    lo, hi = 0.0, 1.0
    d["range"] = {}
    if draw(st.booleans()):
        k = draw(st.sampled_from(["start", "from", "both"]))
        v = draw(st.sampled_from([0.0, 0.1, 0.25, 0.333]))
        if k == "both":
            d["range"]["start"] = None
            d["range"]["from"] = v
        else:
            d["range"][k] = v
    if draw(st.booleans()):
        k = draw(st.sampled_from(["stop", "to", "both", "all"]))
        v = draw(st.sampled_from([1.0, 0.9, 0.75, 0.667]))
        if k == "both":
            d["range"]["stop"] = None
            d["range"]["to"] = v
        elif k == "all":
            d["range"]["stop"] = v
            d["range"]["to"] = None
        else:
            d["range"][k] = v
    d["np"] = draw(st.sampled_from([None, None, 2, 16, 100, 128, 200, 256, 257, 512, 1000]))
    d["window"] = draw(st.sampled_from([None, None] + WINDOWS + ["hann", "Kaiser"]))
    d["alpha"] = draw(st.sampled_from([None, 1.5, 40.0]))
    d["fmin"] = draw(st.sampled_from([None, None, None, 0.0, 0.5, 2.5, 3.5]))
    d["fmax"] = draw(st.sampled_from([None, None, None, 1.5, 4.5, 6.5]))
    if d["fmin"] and d["fmax"] and d["fmin"] > d["fmax"]:
        d["fmax"] = None
    d["format"] = draw(st.sampled_from([None, "norm", "unorm"]))
    return d


def span(case, t0, t1):
    r = case["range"]
    lo = next((r[k] for k in ("start", "from") if r.get(k) is not None), 0.0)
    hi = next((r[k] for k in ("stop", "to") if r.get(k) is not None), 1.0)
    at = lambda v: float("%.12g" % (t0 + v * (t1 - t0)))
    return (t0 if lo == 0.0 and not any(r.get(k) is not None for k in ("start", "from")) else at(lo),
            t1 if hi == 1.0 and not any(r.get(k) is not None for k in ("stop", "to")) else at(hi), at)


def expected_fft(case, co, t0, t1, N=None):
    """(frequencies, transform, THD phasors, err scale) of the analytic waveform"""
    start, stop, _ = span(case, t0, t1)
    np2 = 1024 if case["np"] is None else 1 << max(int(math.ceil(math.log(case["np"], 2) - 1e-12)), 1)
    npd = None
    if case["freq"]:
        npd = int((stop - start) * case["fund"] * (1 + 1e-6))
        start = stop - npd / case["fund"]
    else:
        N = np2
    w = window((case["window"] or "RECT").upper(), N, case["alpha"] or 3.0)
    t = start + (stop - start) * np.arange(N) / N
    y = mixture(case, co, t) * w
    F = np.fft.rfft(y)[:N // 2]
    f = np.arange(N // 2) / (stop - start)
    if case["freq"]:
        F, f = F[::npd][:10], f[::npd][:10]
    sel = np.ones(len(f), dtype=bool)
    unit = case["fund"] if case["freq"] else 1 / (stop - start)
    if case["fmin"]:
        sel &= (f >= case["fmin"] * unit) | (np.arange(len(f)) == 0)
    if case["fmax"]:
        sel &= f <= case["fmax"] * unit
    return f[sel], F[sel], np.abs(w).sum(), N


def prepare(tmp, case):
    label, co = pick(case)
    c, sol, t0, t1, h = build(tmp, case, case["periods"])
    start, stop, at = span(case, t0, t1)
    if case["freq"] and (stop - start) * case["fund"] < 1:
        raise Skip("less than a period")
    np2 = 1024 if case["np"] is None else case["np"]
    if not case["freq"]:
        if case["fmin"] and case["fmin"] > np2 / 2 - 1 or case["fmax"] and case["fmax"] > np2 / 2:
            raise Skip("no bins")
        if np2 <= 2:
            if case["fmin"] or case["fmax"]:
                raise Skip("no bins")
    # the extrapolation to the start of the simulation is coarse
    err = mix_err(case, co, h)
    unit = case["fund"] if case["freq"] else 1 / (stop - start)
    args = {k: (at(v) if v is not None else None) for k, v in case["range"].items()}
    for k in ("np", "window", "alpha"):
        if case[k] is not None:
            args[k] = case[k]
    for k in ("fmin", "fmax"):
        if case[k] is not None:
            args[k] = case[k] * unit
    return label, co, c, sol, t0, t1, err, args


def check_fft(case, log):
    with nl.Scratch() as tmp:
        check_fft_in(tmp, case, log)


def check_fft_in(tmp, case, log):
    from ahkab import fourier
    label, co, c, sol, t0, t1, err, args = prepare(tmp, case)
    log.label("freq" if case["freq"] else "plain", "window:%s" % case["window"], "label:" + case["label"])
    freq = case["fund"] if case["freq"] else None
    f, F, THD = fourier.spicefft(label, sol, freq, **dict(args))
    N = None
    if freq:
        a2 = {k: v for k, v in args.items() if k not in ("window", "alpha", "fmin", "fmax")}
        N = points(case, sol, lambda s: fourier.spicefft("Vb", s, freq, **a2)[1])
        start, stop, _ = span(case, t0, t1)
        require(N >= 18 * int((stop - start) * freq * (1 + 1e-6)), "%d points", N)
    wf, wF, wsum, N = expected_fft(case, co, t0, t1, N)
    require(len(f) == len(F) == len(wf) and np.allclose(f, wf, rtol=1e-9), "the frequencies are %r, expected %r", f, wf)
    tol = 4 * err * wsum + 1e-9 * np.abs(wF).max()
    bad = np.abs(F - wF) > tol
    require(not bad.any(), "the component at %r Hz is %r, expected %r +/- %r", f[bad][:1], F[bad][:1], wF[bad][:1], tol)
    if freq:
        # a suppressed fundamental leaves nothing to relate the distortion to
        if not case["fmin"] or case["fmin"] < 1:
            check_thd(THD, wF, tol)
    else:
        require(THD is None, "THD is %r without a fundamental", THD)
    X = harmonics(case, co, t1)
    triv(case, X, err, log)
    for k in ("fmin", "fmax"):
        if case[k]:
            log.label(k)


# -- netlist directives and printed results -----------------------------------

NUM = r"[-+]?(?:inf|nan|\d+\.?\d*(?:e[-+]?\d+)?)"


def rows_of(text, ncol):
    out = []
    for line in text.splitlines():
        p = line.split()
        if len(p) == ncol and re.match(r"^\d+$", p[0]):
            try:
                out.append([float(x) for x in p])
            except ValueError:
                pass
    return out


def dir_label(case):
    return {"a": "v(a)", "b": "v(b)", "i": "i(vsrc)", "a-b": "v(a,b)", "b-a": "v(b,a)", "(a,)": "v(a,0)", "(a,None)": "V(a)"}[case["label"]]


@st.composite
def print_case(draw):
    d = draw(fft_case())
    d["label"] = draw(st.sampled_from(["a", "b", "i", "a-b", "b-a", "(a,)", "(a,None)"]))
    d["four"] = draw(st.integers(0, 2)) == 0
    d["alfa"] = draw(st.sampled_from(["alpha", "alfa"]))
    if d["np"] is not None and d["np"] < 16:
        d["np"] = 16
    if d["four"]:
        d["label2"] = draw(st.sampled_from(["a", "b", "i", "b-a"]))
    return d


def close(got, want, tol):
    return abs(got - want) <= tol + 2e-5 * abs(want)


def angle_close(got, F, tol):
    if abs(F) < 20 * tol:
        return True
    d = (got - math.degrees(np.angle(F)) + 180) % 360 - 180
    return abs(d) <= math.degrees(2 * tol / abs(F)) + 2e-3


def check_print(case, log):
    import ahkab.ahkab as am
    from ahkab import netlist_parser as npar
    log.label("four" if case["four"] else "fft", "format:%s" % case["format"], "window:%s" % case["window"])
    with nl.Scratch() as tmp:
        if case["four"]:
            line = ".four %r %s %s" % (case["fund"], dir_label(case), dir_label(dict(case, label=case["label2"])))
            _, _, c, sol, t0, t1, err, args = prepare(tmp, dict(case, freq=False, range={}, fmin=None, fmax=None))
        else:
            _, co, c, sol, t0, t1, err, args = prepare(tmp, case)
            p = []
            names = dict(format="format", np="np", alpha=case["alfa"])
            if case["freq"]:
                args["freq"] = case["fund"]
            if case["format"]:
                args["format"] = case["format"]
            for k, v in args.items():
                if v is not None:
                    p.append("%s=%s" % (names.get(k, k), v if isinstance(v, str) else repr(v)))
            random.Random(case["seed"]).shuffle(p)
            line = ".fft %s %s" % (dir_label(case), " ".join(p))
        text = "waves\nvsrc a b type=vdc vdc=1\nr1 a 0 1k\nr2 b 0 1k\n%s\n.end\n" % line
        c2, directives, post = npar.parse_circuit(tmp.write("c.ckt", text))
        plist = npar.parse_postproc(c2, post)
        require(len(plist) == 1, "%r gives %r", line, plist)
        out = io.StringIO()
        base = tmp.path("res")
        with contextlib.redirect_stdout(out):
            am.process_postproc(plist, "waves", {"tran": sol}, base)
        if case["four"]:
            check_four_text(case, out.getvalue(), sol, t0, t1, err, log)
        else:
            require(os.path.isfile(base + ".lis"), "no file %s.lis after %r", base, line)
            with open(base + ".lis") as fp:
                check_fft_text(case, co, fp.read(), sol, t0, t1, err, line, log)


def check_four_text(case, text, sol, t0, t1, err, log):
    parts = text.split("Fourier components of transient response")[1:]
    require(len(parts) == 2, "%d reports for two signals: %s", len(parts), text)
    for part, lab in zip(parts, (case["label"], case["label2"])):
        cs = dict(case, label=lab)
        label, co = pick(cs)
        hm = np.diff(np.asarray(sol.get_x())).max()
        e = 4 * mix_err(case, co, hm)
        X = harmonics(case, co, t1)
        if np.abs(X[1:]).max() < 20 * e:
            log.label("no signal")
            continue
        dc = float(re.search(r"DC component =\s*(%s)" % NUM, part).group(1))
        rows = rows_of(part, 6)
        require([r[0] for r in rows] == list(range(1, 10)), "the rows of %s are %r", part, rows)
        # the scale of the printed magnitudes, from the largest
        mags = np.array([r[2] for r in rows])
        k = int(np.argmax(np.abs(X[1:])))
        sc = mags[k] / abs(X[k + 1])
        require(sc > 0 and close(dc / (2 * sc), X[0], 2 * e + 1e-5 * abs(X).max()), "%s: DC is %r, the first harmonics %r, expected %r", label, dc, mags, X)
        m = re.search(r"Normalization to f = (%s) Hz, \|A\| = (%s), phase\(A\) = (%s)" % (NUM, NUM, NUM), part)
        rf, ra, rp = [float(x) for x in m.groups()]
        full = np.concatenate(([abs(dc)], mags))
        require(abs(ra - full.max()) <= 2e-5 * ra, "normalized to %r, the largest of %r", ra, full)
        for i, r in enumerate(rows):
            require(close(r[1], (i + 1) * case["fund"], 0), "row %r: frequency", r)
            require(close(r[2] / sc, abs(X[i + 1]), 2 * e), "harmonic %d of %s is %r, expected %r", i + 1, label, r[2] / sc, abs(X[i + 1]))
            require(close(r[3], r[2] / ra, 1e-9), "row %r: the normalized magnitude is not %r/%r", r, r[2], ra)
            require(angle_close(r[4], X[i + 1], 2 * e), "harmonic %d of %s has the phase %r, expected %r", i + 1, label, r[4], X[i + 1])
            require(abs(r[5] - (r[4] - rp)) <= 2e-3 + 1e-4 * abs(r[5]), "row %r: normalized phase, the reference being %r", r, rp)
        thd = float(re.search(r"Total harmonic distortion:\s*(%s)" % NUM, part).group(1)) / 100
        check_thd(thd, X, 2 * e + 1e-5 * abs(X).max())
        triv(case, X, e, log)


def check_fft_text(case, co, text, sol, t0, t1, err, line, log):
    from ahkab import fourier
    N = None
    if case["freq"]:
        _, _, at = span(case, t0, t1)
        a2 = {k: at(v) for k, v in case["range"].items() if v is not None}
        if case["np"]:
            a2["np"] = case["np"]
        N = points(case, sol, lambda s: fourier.spicefft("Vb", s, case["fund"], **a2)[1])
    wf, wF, wsum, N = expected_fft(case, co, t0, t1, N)
    tol = 4 * err * wsum + 1e-9 * np.abs(wF).max()
    if np.abs(wF).max() < 20 * tol:
        raise Skip("no signal")
    full = {"RECT": "RECTANGULAR", "BART": "BARTLETT", "HANN": "HANNING", "HAMM": "HAMMING", "BLACK": "BLACKMAN",
            "HARRIS": "BLACKMAN-HARRIS", "GAUSS": "GAUSSIAN", "KAISER": "KAISER"}[(case["window"] or "RECT").upper()]
    require(re.search(r"Window: %s\s*$" % full, text, re.M), "%r: the window is not %s: %s", line, full, text[:200])
    rows = rows_of(text, 4)
    require(len(rows) == len(wf) - 1, "%r gives %d rows, expected %d", line, len(rows), len(wf) - 1)
    norm = (case["format"] or "norm").lower() == "norm"
    ref = 0.0
    if norm:
        m = re.search(r"carrier at (%s) Hz: magnitude (%s) dB" % (NUM, NUM), text)
        ref = float(m.group(2))
        require(abs(ref - 20 * math.log10(np.abs(wF).max())) <= 0.01 + 20 * tol / np.abs(wF).max(), "%r: carrier of %r dB, expected %r", line, ref,
                20 * math.log10(np.abs(wF).max()))
    dc = float(re.search(r"DC component: mag = (%s)" % NUM, text).group(1))
    for r, f, F in zip([[0, 0.0, dc, None]] + rows, wf, wF):
        require(close(r[1], f, 0), "%r: frequency %r, expected %r", line, r[1], f)
        if abs(F) > 20 * tol:
            require(abs(r[2] + ref - 20 * math.log10(abs(F))) <= 20 * tol / abs(F) + 2e-3, "%r: %r dB at %r Hz, expected %r", line, r[2] + ref, f,
                    20 * math.log10(abs(F)))
            if r[3] is not None:
                require(angle_close(r[3], F, tol), "%r: the phase at %r Hz is %r, expected %r", line, f, r[3], math.degrees(np.angle(F)))
    m = re.search(r"Total harmonic distortion:\s*(%s)" % NUM, text)
    require((m is not None) == case["freq"], "%r: harmonic distortion %r", line, m)
    if m and (not case["fmin"] or case["fmin"] < 1):
        check_thd(float(m.group(1)) / 100, wF, tol + 1e-5 * np.abs(wF).max(), "%r: " % line)
    triv(case, harmonics(case, co, t1), err, log)


TESTS = [
    Test("fourier", four_case(), check_four, 6000, 80000),
    Test("fft", fft_case(), check_fft, 8000, 120000),
    Test("directives", print_case(), check_print, 4000, 60000),
]
