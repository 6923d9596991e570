"""Reference waveforms, written from the documentation (times are floats)."""
import cmath
import math

from hypothesis import strategies as st

from . import circ


def value(fn, t):
    return REF[fn["t"]](fn, t)


def _g(fn, k, d=0.0):
    x = fn.get(k)
    return d if x is None else x


def ref_sin(f, t):
    td = _g(f, "td")
    ph = math.radians(_g(f, "phi"))
    if t < td:
        return f["vo"] + f["va"] * math.sin(ph)
    u = t - td
    return f["vo"] + f["va"] * math.exp(-u * _g(f, "theta")) * cmath.exp(1j * (2 * math.pi * f["freq"] * u + ph)).imag


def ref_exp(f, t):
    out = f["v1"]
    d = f["v2"] - f["v1"]
    for start, tau, s in ((_g(f, "td1"), f["tau1"], d), (f["td2"], f["tau2"], -d)):
        if t >= start:
            out += -s * math.expm1(-(t - start) / tau)
    return out


def ref_pulse(f, t):
    td = max(_g(f, "td"), 0.0)
    if t < td:
        return f["v1"]
    u = t - td
    u -= math.floor(u / f["per"]) * f["per"]
    xs = [0, f["tr"], f["tr"] + f["pw"], f["tr"] + f["pw"] + f["tf"]]
    ys = [f["v1"], f["v2"], f["v2"], f["v1"]]
    return interp(xs, ys, u)


def interp(xs, ys, u):
    if u < xs[0]:
        return ys[0]
    for a, b, ya, yb in zip(xs, xs[1:], ys, ys[1:]):
        if u < b:
            return ya + (yb - ya) * (u - a) / (b - a)
    return ys[-1]


def ref_sffm(f, t):
    td = _g(f, "td")
    if t <= td:
        return f["vo"]
    u = t - td
    w = 2 * math.pi
    return f["vo"] + f["va"] * math.cos(w * f["fc"] * u + f["mdi"] * math.sin(w * f["fs"] * u) - math.pi / 2)


def ref_am(f, t):
    td = _g(f, "td")
    if t <= td:
        return 0.0
    u = t - td
    # oc*sin(c) + sin(m)*sin(c), the product expanded
    c = 2 * math.pi * f["fc"] * u
    m = 2 * math.pi * f["fm"] * u
    return f["sa"] * (f["oc"] * math.sin(c) + .5 * math.cos(m - c) - .5 * math.cos(m + c))


def ref_pwl(f, t):
    td = _g(f, "td")
    u = max(t - td, 0.0)
    end = max(f["x"])
    if f.get("repeat") and u > end:
        rt = _g(f, "repeat_time")
        if rt == end:
            rt = 0.0
        u = rt + math.fmod(u - end, end - rt)
    return interp(f["x"], f["y"], u)


REF = {"sin": ref_sin, "exp": ref_exp, "pulse": ref_pulse, "sffm": ref_sffm, "am": ref_am, "pwl": ref_pwl}


def corners(f):
    """instants where the definition changes, over a few periods"""
    t = f["t"]
    if t in ("sin", "sffm", "am"):
        return [_g(f, "td")]
    if t == "exp":
        return [x for x in (_g(f, "td1"), f["td2"]) if math.isfinite(x)]
    if t == "pulse":
        td = max(_g(f, "td"), 0)
        return [td + k * f["per"] + x for k in range(4) for x in
                (0, f["tr"], f["tr"] + f["pw"], f["tr"] + f["pw"] + f["tf"])]
    td = _g(f, "td")
    out = [td + x for x in f["x"]]
    if f.get("repeat"):
        end = max(f["x"])
        rt = _g(f, "repeat_time")
        rt = 0.0 if rt == end else rt
        out += [td + end + k * (end - rt) + (x - rt) for k in range(3) for x in f["x"] if x >= rt]
    return out


def span(f):
    """a time within which everything happens a few times"""
    t = f["t"]
    c = [x for x in corners(f) if x > 0]
    m = max(c) if c else 0
    if t == "sin":
        m += 3 / f["freq"]
    elif t == "exp":
        m += 3 * f["tau1"] + (3 * f["tau2"] if math.isfinite(f["tau2"]) else 0)
    elif t == "sffm":
        m += 3 / f["fs"]
    elif t == "am":
        m += 3 / f["fm"]
    return 1.3 * m


def scale(f):
    if f["t"] == "am":
        return abs(f["sa"]) * (abs(f["oc"]) + 1)
    if f["t"] == "pwl":
        return max(abs(y) for y in f["y"])
    return sum(abs(f.get(k, 0)) for k in ("vo", "va", "v1", "v2"))


def slope(f):
    """bound on |df/dt| (between jumps)"""
    t = f["t"]
    w = 2 * math.pi
    if t == "sin":
        return abs(f["va"]) * (w * f["freq"] + _g(f, "theta"))
    if t == "exp":
        return 2 * abs(f["v2"] - f["v1"]) * (1 / f["tau1"] + 1 / f["tau2"])
    if t == "sffm":
        return abs(f["va"]) * w * (f["fc"] + abs(f["mdi"]) * f["fs"])
    if t == "am":
        return scale(f) * w * (f["fm"] + f["fc"])
    if t == "pulse":
        d = abs(f["v2"] - f["v1"])
        return d / min([x for x in (f["tr"], f["tf"]) if x > 0] or [1e300])
    return max([abs((yb - ya) / (b - a)) for a, b, ya, yb in zip(f["x"], f["x"][1:], f["y"], f["y"][1:])] + [0])


def jumps(f):
    """is the waveform discontinuous at its corners?"""
    if f["t"] == "sin":
        return False
    if f["t"] == "pulse":
        return f["tr"] == 0 or f["tf"] == 0 or f["tr"] + f["pw"] + f["tf"] > f["per"]
    if f["t"] == "pwl":
        return bool(f.get("repeat"))
    return False


# ---------------------------------------------------------------- generators

level = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 5.0, 0.1]), circ.mag(-3, 1, signed=True))
TIMES = circ.mag(0, 2)


@st.composite
def sin_fn(draw, u):
    f = {"t": "sin", "vo": draw(level), "va": draw(level), "freq": draw(circ.mag(-1, 0)) / u}
    if draw(st.booleans()):
        f["td"] = draw(circ.mag(-1, 0)) * u
    if draw(st.booleans()):
        f["theta"] = draw(circ.mag(-2, -1)) / u
    if draw(st.booleans()):
        f["phi"] = float(draw(st.sampled_from([0, 30, 45, 90, -60, 180, 200, 359])))
    return f


@st.composite
def exp_fn(draw, u):
    f = {"t": "exp", "v1": draw(level), "v2": draw(level),
         "td1": draw(st.one_of(st.just(0.0), circ.mag(-1, 0))) * u,
         "tau1": draw(circ.mag(-1, 0)) * u}
    f["td2"] = f["td1"] + draw(st.one_of(circ.mag(-1, 0), st.just(0.0))) * u
    f["tau2"] = draw(circ.mag(-1, 0)) * u
    return f


@st.composite
def pulse_fn(draw, u, tame=False):
    z = st.one_of(st.just(0.0), circ.mag(-2, 0)) if not tame else circ.mag(-1, 0)
    tr, tf, pw = (draw(z) * u for _ in range(3))
    rest = draw(st.one_of(circ.mag(-1, 1), st.just(0.0))) * u
    per = tr + tf + pw + rest
    if per == 0:
        per = u
    if not tame and draw(st.integers(0, 9)) == 0:
        pw += per  # never comes down
    return {"t": "pulse", "v1": draw(level), "v2": draw(level), "tr": tr, "tf": tf, "pw": pw, "per": per,
            "td": draw(st.one_of(st.just(0.0), circ.mag(-1, 1))) * u}


@st.composite
def sffm_fn(draw, u):
    return {"t": "sffm", "vo": draw(level), "va": draw(level), "fc": draw(circ.mag(-1, 0)) / u,
            "mdi": draw(st.sampled_from([0.0, .5, 1.0, 3.0, 5.0])), "fs": draw(circ.mag(-2, -1)) / u,
            "td": draw(st.one_of(st.just(0.0), circ.mag(-1, 0))) * u}


@st.composite
def am_fn(draw, u):
    return {"t": "am", "sa": draw(level), "oc": draw(st.sampled_from([0.0, 1.0, 2.5, -1.0])),
            "fm": draw(circ.mag(-2, -1)) / u, "fc": draw(circ.mag(-1, 0)) / u,
            "td": draw(st.one_of(st.just(0.0), circ.mag(-1, 0))) * u}


@st.composite
def pwl_fn(draw, u):
    n = draw(st.integers(2, 6))
    x = [draw(st.sampled_from([0.0, 0.0, 1.0])) * u]
    for _ in range(n - 1):
        x.append(x[-1] + draw(circ.mag(-1, 0)) * u)
    f = {"t": "pwl", "x": x, "y": [draw(level) for _ in x]}
    if draw(st.booleans()):
        f["repeat"] = True
        f["repeat_time"] = draw(st.sampled_from(x))
    if draw(st.booleans()):
        f["td"] = draw(circ.mag(-1, 0)) * u
    return f


UNITS = [1.0, 1e-3, 1e-6, 1e-9]
MAKERS = [sin_fn, exp_fn, pulse_fn, sffm_fn, am_fn, pwl_fn]


def fns(u=None, kinds=None):
    ms = [m for m in MAKERS if kinds is None or m.__name__[:-3] in kinds]
    if u is not None:
        return st.one_of([m(u) for m in ms])
    return st.sampled_from(UNITS).flatmap(lambda v: st.one_of([m(v) for m in ms]))
