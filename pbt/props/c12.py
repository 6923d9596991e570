"""C12: time functions compute the documented waveforms."""
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Test, Skip, fail, require
from .. import circ, tfun

PID = "C12"
RULE = ("a case is non-trivial when the waveform takes at least three different values at the instants examined")
ASSUMPTIONS = [
    "exactly at an instant where the documented waveform jumps, either side is accepted",
    "the AM waveform is 0 before its delay (the documentation's O; pinned by the repository's tests)",
    "a PWL waveform keeps its first and last value outside of its points",
]


def instants(f, rel):
    """JSON-given relative instants and every corner, with its surroundings"""
    sp = tfun.span(f) or 1.0
    out = [r * sp for r in rel]
    for c in tfun.corners(f):
        d = 1e-4 * sp
        out += [c, max(c - d, 0), c + d]
    return out


def check_value(f, got, t, what):
    got = float(got)
    want = tfun.value(f, t)
    eps = 4e-14 * (abs(t) + tfun.span(f)) + 1e-300
    tol = 1e-9 * tfun.scale(f) + 1e-12 * abs(want) + tfun.slope(f) * eps * 4
    if abs(got - want) <= tol:
        return
    # both sides of an instant within rounding
    if tfun.jumps(f) and min(abs(t - c) for c in all_corners(f, t)) <= 1e-9 * (abs(t) + 1e-3 * tfun.span(f)):
        # (an edge of a pulse without width included)
        near = [tfun.value(f, t + d * max(t, 1e-2 * tfun.span(f))) for d in (-1e-8, 1e-8)]
        if f["t"] == "pulse":
            near += [f["v1"], f["v2"]]
        if min(near) - tol - 1e-5 * tfun.scale(f) <= got <= max(near) + tol + 1e-5 * tfun.scale(f):
            return
    fail("%s at t=%r gives %r, documented: %r", what, t, got, want)


def all_corners(f, t):
    if f["t"] == "pulse":
        td = max(f.get("td") or 0, 0)
        k = math.floor((t - td) / f["per"])
        return [td + (k + j) * f["per"] + x for j in (-1, 0, 1, 2) for x in
                (0, f["tr"], f["tr"] + f["pw"], f["tr"] + f["pw"] + f["tf"])]
    if f["t"] == "pwl" and f.get("repeat"):
        td = f.get("td") or 0
        end = max(f["x"])
        rt = f.get("repeat_time") or 0
        rt = 0.0 if rt == end else rt
        k = math.floor((t - td - end) / (end - rt))
        return [td + end + (k + j) * (end - rt) for j in (-1, 0, 1, 2)] + [td + end]
    return tfun.corners(f)


REL = st.lists(st.one_of(st.floats(0, 1), st.floats(0, 5)), min_size=3, max_size=12)


@st.composite
def api_case(draw):
    return {"f": draw(tfun.fns()), "rel": draw(REL)}


def values_differ(f, ts):
    return len(set(round(tfun.value(f, t) / (tfun.scale(f) or 1), 6) for t in ts)) >= 3


def check_api(case, log):
    f = case["f"]
    log.label("fn:" + f["t"])
    fun = circ.make_function(f)
    ts = instants(f, case["rel"])
    log.trivial = not values_differ(f, ts)
    for t in ts:
        check_value(f, fun(t), t, "%r" % (f,))
    # evaluation does not depend on the order of the calls
    for t in reversed(ts):
        check_value(f, fun(t), t, "%r (second evaluation)" % (f,))
    check_value(f, fun(None), 0.0, "%r without a time" % (f,))


# ------------------------------------------------------------ from a netlist

ORDER = {"sin": ["vo", "va", "freq", "td", "theta", "phi"],
         "exp": ["v1", "v2", "td1", "tau1", "td2", "tau2"],
         "pulse": ["v1", "v2", "td", "tr", "tf", "pw", "per"],
         "sffm": ["vo", "va", "fc", "mdi", "fs", "td"],
         "am": ["sa", "oc", "fm", "fc", "td"]}
OPTIONAL = {"sin": ["td", "theta", "phi"], "exp": ["td2", "tau2"], "pulse": ["td"], "sffm": ["td"], "am": ["td"]}


def fmt(x):
    return repr(float(x))


@st.composite
def netlist_case(draw):
    f = dict(draw(tfun.fns(kinds=["sin", "exp", "pulse", "sffm", "am"])))
    style = draw(st.sampled_from(["named", "positional"]))
    t = f["t"]
    if t == "exp" and draw(st.booleans()):
        f["td2"] = f["tau2"] = None
    for k in OPTIONAL[t]:
        if t != "exp" and style == "named" and draw(st.integers(0, 2)) == 0:
            f.pop(k, None)
    keys = [k for k in ORDER[t] if f.get(k) is not None]
    if style == "named":
        keys = draw(st.permutations(keys))
    elif t == "sin":
        keys = ORDER[t][:max(3, 1 + max(ORDER[t].index(k) for k in keys))]
    return {"f": f, "style": style, "keys": list(keys), "k": draw(st.sampled_from("VI")),
            "dc": draw(st.sampled_from(["first", "last", "none", "typed"])),
            "ac": draw(st.booleans()), "upper": draw(st.booleans()), "comment": draw(st.booleans()),
            "cur": draw(st.booleans()), "rel": draw(REL)}


def source_line(case):
    f = case["f"]
    k = case["k"]
    toks = []
    for key in case["keys"]:
        x = fmt(f.get(key, 0.0))
        if case["style"] == "named":
            name = {"phi": "phase"}.get(key, key)
            if k == "I" and case["cur"]:
                name = {"vo": "io", "va": "ia", "v1": "i1", "v2": "i2"}.get(name, name)
            x = name + "=" + x
        toks.append(x)
    body = ["type=" + f["t"]] + toks
    c = k.lower()
    dc = ["%sdc=0.25" % c]
    if case["dc"] == "typed":
        dc = ["type=%sdc" % c] + dc
    ac = ["type=%sac" % c, "%sac=2" % c] if case["ac"] else []
    if case["dc"] == "none":
        parts = ac + body
    elif case["dc"] == "last":
        parts = body + dc + ac
    else:
        parts = dc + body + ac
    s = "%s1 n1 0 %s" % (k, " ".join(parts))
    if case["upper"]:
        s = s.upper()
    if case["comment"]:
        s += " * a comment"
    return s


def parse(text):
    import os
    import tempfile
    from ahkab import netlist_parser
    fd, path = tempfile.mkstemp(suffix=".ckt")
    with os.fdopen(fd, "w") as fp:
        fp.write(text)
    try:
        return netlist_parser.parse_circuit(path)
    finally:
        os.remove(path)


def check_netlist(case, log):
    f = dict(case["f"])
    if f["t"] == "exp" and f["td2"] is None:
        f["td2"] = f["tau2"] = float("inf")
    log.label("fn:" + f["t"], "style:" + case["style"])
    line = source_line(case)
    c, directives, post = parse("title\n" + line + "\nR1 n1 0 1k\n")
    el = c.get_elem_by_name(case["k"] + "1")
    get = el.V if case["k"] == "V" else el.I
    ts = instants(f, case["rel"])
    log.trivial = not values_differ(f, ts)
    for t in ts:
        check_value(f, get(t), t, "%r" % line)
    if case["dc"] == "none":
        check_value(f, get(), 0.0, "DC value of %r" % line)
    else:
        require(get() == 0.25, "%r: the DC value is %r", line, get())
    require((el.abs_ac or 0) == (2 if case["ac"] else 0), "%r: AC value %r", line, el.abs_ac)


# ------------------------------------------------------------- in a transient

@st.composite
def tran_case(draw):
    u = draw(st.sampled_from([1e-3, 1e-6]))
    f = draw(tfun.fns(u))
    return {"f": f, "k": draw(st.sampled_from("VI")), "custom": draw(st.booleans()),
            "dc": draw(st.one_of(st.none(), st.just(0.3))), "n": draw(st.integers(5, 40)),
            "w": draw(st.sampled_from([.3, 1.0, 2.0])), "t0": draw(st.sampled_from([0.0, 0.0, .2])),
            "method": draw(st.sampled_from(["TRAP", "IMPLICIT_EULER"])), "r": draw(st.sampled_from([1.0, 2.5, 10.0]))}


def check_tran(case, log):
    from ahkab import options
    a = circ.sut()
    f = case["f"]
    log.label("fn:" + f["t"])
    fun = circ.make_function(f)
    if case["custom"]:
        inner = fun
        fun = lambda t: inner(t)  # noqa: any callable will do
    c = a.Circuit("tran")
    if case["k"] == "V":
        c.add_vsource("V1", "n1", "0", case["dc"], function=fun)
        gain = 1.0
        el = c.get_elem_by_name("V1")
        dc = el.V()
    else:
        c.add_isource("I1", "0", "n1", case["dc"], function=fun)
        gain = case["r"]
        el = c.get_elem_by_name("I1")
        dc = el.I()
    c.add_resistor("R1", "n1", "0", case["r"])
    if case["dc"] is None:
        check_value(f, dc, 0.0, "DC value of a source with %r" % (f,))
        want_dc = tfun.value(f, 0.0)
    else:
        require(dc == case["dc"], "the DC value is %r instead of %r", dc, case["dc"])
        want_dc = case["dc"]
    op = a.run(c, a.new_op(verbose=0))["op"]
    got = float(np.asarray(op["Vn1"]).reshape(-1)[0])
    require(abs(got - gain * want_dc) <= 1e-6 * abs(gain * want_dc) + 1e-9 * (1 + tfun.scale(f)),
            "the operating point with a source of DC value %r has %r", want_dc, got / gain)
    sp = tfun.span(f) * case["w"] or 1e-3
    t0 = case["t0"] * sp
    options.cmin = 0  # the parasitic capacitors are not part of this property
    r = a.run(c, a.new_tran(tstart=t0, tstop=sp, tstep=(sp - t0) / case["n"], x0=None, method=case["method"],
                            use_step_control=False, verbose=0))["tran"]
    require(r is not None, "the transient of a source and a resistor failed")
    t = np.asarray(r.get_x()).reshape(-1)
    v = np.asarray(r["Vn1"]).reshape(-1)
    for k in range(1, len(t)):
        check_value(f, v[k] / gain, float(t[k]), "the source with %r" % (f,))
    log.trivial = not values_differ(f, [float(x) for x in t])


TESTS = [
    Test("api_waveforms", api_case(), check_api, 6000, 150000),
    Test("netlist_waveforms", netlist_case(), check_netlist, 2400, 50000),
    Test("in_analyses", tran_case(), check_tran, 800, 16000),
]
