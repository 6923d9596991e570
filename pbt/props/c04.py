"""C04: every point of a DC sweep is the operating point at that source value."""
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Test, Skip, fail, require
from .. import circ, nl
from . import c02, c03

PID = "C04"
RULE = ("a case is non-trivial when the sweep has at least three points and the swept source changes "
        "at least one unknown of the circuit by more than 1e-9")
ASSUMPTIONS = [
    "results are compared by position (the sweep value, the nodes, the currents), because a sweep of V1 and the voltage of a node 1 share the name V1",
    "for linear circuits every row is compared with an independent solution; for nonlinear ones every row has to satisfy the circuit's equations within the solver's tolerances",
    "points a nonlinear sweep could not solve may be missing (they are announced); the remaining ones keep their order",
]

DC = circ.mag(-1, 0, signed=True)


def other_case(draw, s):
    return draw(st.sampled_from([s, s, s.upper(), s.lower()]))


@st.composite
def sweep_of(draw, desc, via=("api", "api", "direct", "netlist"), big=True):
    """source and axis of a sweep of one of the circuit's sources"""
    srcs = [e for e in desc["elems"] if e["k"] in "VI"]
    s = draw(st.sampled_from(srcs))
    k = 1.0 if s["k"] == "V" else 1e-3
    sw = {"src": other_case(draw, s["id"]), "id": s["id"], "via": draw(st.sampled_from(via)),
          "type": draw(st.sampled_from(["LIN", "LIN", "LIN", "LOG"])), "guess": draw(st.booleans())}
    m = circ.mag(-2, 1 if big else 0)
    if sw["type"] == "LIN":
        start = draw(st.one_of(st.just(0.0), circ.mag(-2, 1 if big else 0, signed=True), st.sampled_from([-1.0, 0.1, 0.3, -5.0 if big else -.5])))
        n = draw(st.integers(2, 24))
        if sw["via"] == "api":
            stop = draw(st.one_of(circ.mag(-2, 1 if big else 0, signed=True), st.just(0.0)))
            if stop == start:
                stop = start + 1.0
            sw.update(start=start, stop=stop, n=n)
        else:
            step = draw(st.one_of(st.sampled_from([.1, .2, .05, .3, .01, .7, 1.0 / 3, .025]), circ.mag(-2, -1)))
            step *= draw(st.sampled_from([1, -1]))
            # does the last step hit stop, or is there a rest?
            rest = draw(st.sampled_from([0.0, 0.0, 0.0, .3, .5, .7, .999]))
            sw.update(start=start, step=step, stop=start + (n - 1 + rest) * step, n=n)
    else:
        start = draw(m)
        n = draw(st.integers(2, 24))
        if sw["via"] == "direct":
            sw["via"] = "api"
        if sw["via"] == "api":
            sw.update(start=start, stop=start * draw(st.sampled_from([10.0, 2.0, 100.0, 3.7, 1.01])), n=n)
        else:
            step = draw(st.sampled_from([10.0, 2.0, 1.5, 1.1, 10 ** .1]))
            n = max(2, min(n, int(1 + math.log(200.0) / math.log(step))))
            rest = draw(st.sampled_from([0.0, 0.0, .3, .5, .7]))
            sw.update(start=start, step=step, stop=start * step ** (n - 1 + rest), n=n)
    for f in ("start", "stop", "step"):
        if f in sw and not (sw["type"] == "LOG" and f == "step"):
            sw[f] = sw[f] * k
    return sw


def axis(sw):
    """the values the sweep has to take"""
    n = sw["n"]
    if "step" not in sw:
        if sw["type"] == "LIN":
            return [sw["start"] + (sw["stop"] - sw["start"]) * i / (n - 1) for i in range(n)]
        return [sw["start"] * (sw["stop"] / sw["start"]) ** (i / (n - 1.0)) for i in range(n)]
    if sw["type"] == "LIN":
        return [sw["start"] + sw["step"] * i for i in range(n)]
    return [sw["start"] * sw["step"] ** i for i in range(n)]


def run_sweep(case, tmp):
    """(circuit, description the names of which it has, result)"""
    a = circ.sut()
    sw = case["sw"]
    out = tmp.path("out")
    if sw["via"] == "netlist":
        d = nl.low(case)
        text = "\n".join(["a sweep"] + nl.lines(d) + [
            ".dc source=%s start=%r stop=%r step=%r type=%s" % (sw["src"], sw["start"], sw["stop"], sw["step"], sw["type"].lower() if sw["guess"] else sw["type"]),
            ".end", ""])
        from ahkab import netlist_parser as npar
        c, directives, _ = npar.parse_circuit(tmp.write("c.ckt", text))
        ans = npar.parse_analysis(c, directives)
        require(len(ans) == 1, "one .dc line gave the analyses %r", ans)
        an = dict(ans[0])
        an["outfile"] = out
        an["verbose"] = 0
    else:
        d = case
        c = circ.build(case)
        if sw["via"] == "api":
            an = a.new_dc(sw["start"], sw["stop"], sw["n"], sw["src"],
                          sweep_type=("LINEAR" if sw["guess"] else "LIN") if sw["type"] == "LIN" else "LOG",
                          guess=sw["guess"], outfile=out, verbose=0)
        else:
            from ahkab import dc_analysis
            res = dc_analysis.dc_analysis(c, sw["start"], sw["stop"], sw["step"], sw["src"], guess=sw["guess"],
                                          outfile=out, verbose=0)
            return c, d, res
    r = a.run(c, an)
    return c, d, r.get("dc") if isinstance(r, dict) else r


def check_axis(got, sw, partial=False):
    want = axis(sw)
    tol = 1e-9 * max(abs(want[0]), abs(want[-1]))
    if sw["type"] == "LOG":
        tol = 0
    if partial:
        # an ordered selection of the requested values
        it = iter(want)
        for g in got:
            for w in it:
                if abs(g - w) <= tol + 1e-9 * abs(w):
                    break
            else:
                fail("the sweep value %r is not among the requested %r, or out of order", g, want)
        return
    require(len(got) == len(want), "the sweep has %d points from %r to %r, requested were %d from %r to %r",
            len(got), got[0], got[-1], len(want), want[0], want[-1])
    for g, w in zip(got, want):
        require(abs(g - w) <= tol + 1e-9 * abs(w), "the sweep takes the value %r where %r was requested", g, w)


def with_value(d, sid, v):
    return dict(d, elems=[dict(e, dc=v) if e["id"].lower() == sid.lower() else e for e in d["elems"]])


def matrix(sol, ref):
    """the result's data, columns (sweep, unknowns of ref by name)"""
    names = list(sol.keys())
    require(len(names) == ref.n + 1, "the result has the variables %r", names)
    circ.check_unknown_set(names[1:], ref)
    A = np.asarray(sol.asarray())
    require(A.shape[0] == len(names), "%d variables, data of shape %r", len(names), A.shape)
    return names, A


def unchanged(c, case, sid):
    e = c.get_elem_by_name(sid)
    want = [x for x in case["elems"] if x["id"].lower() == sid.lower()][0]["dc"]
    require(e.dc_value == want, "after the sweep the source %s has the value %r, it had %r", sid, e.dc_value, want)


def check_linear(case, log):
    ref = circ.Ref(case)
    if not circ.cond_scaled(ref.G) < 1e8:
        raise Skip("ill-conditioned")
    sw = case["sw"]
    with nl.Scratch() as tmp:
        c, d, sol = run_sweep(case, tmp)
        log.label("via:" + sw["via"], "type:" + sw["type"])
        require(sol is not None, "the sweep gave no result although every point has a unique solution")
        ref = circ.Ref(d)
        names, A = matrix(sol, ref)
        want0 = sw["id"].upper()
        require(names[0].upper() == want0, "the sweep variable is called %r, swept was %r", names[0], sw["id"])
        check_axis(A[0], sw)
        x0 = np.asarray(sol.get_x())
        require(np.array_equal(x0, A[0]), "get_x() is %r, the sweep took %r", x0, A[0])
        require(sol.get_xlabel() == names[0], "get_xlabel() is %r", sol.get_xlabel())
        var = 0.0
        last = None
        xs = np.array([circ.ref_solve(ref.G, ref.b(lambda e: v if e["id"].lower() == sw["id"].lower() else e["dc"])) for v in axis(sw)])
        nn = len(ref.nodes)
        # every point starts from the one before, so that its rounding is relative to the largest
        floor = (np.max(np.abs(xs[:, :nn])), np.max(np.abs(xs[:, nn:]), initial=0.0))
        for j, v in enumerate(axis(sw)):
            b = ref.b(lambda e: v if e["id"].lower() == sw["id"].lower() else e["dc"])
            x = circ.ref_solve(ref.G, b)
            point = {n: A[i, j] for i, n in enumerate(names) if i}
            # names are compared whatever the case of branch currents
            circ.compare(ref, {key: point[key] for _, key in ref.names()}, x, ref.G, b, what="at %s = %g: " % (sw["id"], v), floor=floor)
            if last is not None:
                var = max(var, float(np.max(np.abs(x - last))))
            last = x
        # the documented access by name
        for i, n in enumerate(names):
            if i and n.upper() != names[0].upper():
                require(np.array_equal(np.asarray(sol[n]), A[i]), "sol[%r] is not the column of that name", n)
    unchanged(c, d, sw["id"])
    # and the operating point afterwards is that of the unswept circuit
    op = circ.sut().run(c, circ.sut().new_op(verbose=0))["op"]
    require(op is not None, "no operating point after the sweep")
    b = ref.b(lambda e: e["dc"])
    circ.compare(ref, op, circ.ref_solve(ref.G, b), ref.G, b, what="operating point after the sweep: ")
    log.trivial = sw["n"] < 3 or var < 1e-9


@st.composite
def linear_case(draw):
    d = draw(circ.linear_desc(max_nodes=5, max_extra=5))
    d["sw"] = draw(sweep_of(d))
    return d


LIN = circ.linear_desc(max_nodes=4, max_extra=3, couplings=False, dc=DC, rvals=circ.mag(2, 5))


@st.composite
def nonlinear_case(draw):
    d = draw(c02.add_devices(draw(LIN), draw(st.sampled_from([["D"], ["M"], ["S"], ["D", "M"], ["D", "S"], ["M", "S"]])), 1, 3))
    d["sw"] = draw(sweep_of(d, via=("api", "direct"), big=False))
    d["sw"]["n"] = min(d["sw"]["n"], 10) if "step" not in d["sw"] else d["sw"]["n"]
    d["skip"] = draw(st.booleans())
    return d


def check_nonlinear(case, log):
    from ahkab import options
    options.dc_max_nr_iter = 400
    options.dc_sweep_skip_allowed = case["skip"]
    sw = case["sw"]
    fresh = circ.build(case)
    with nl.Scratch() as tmp:
        c, d, sol = run_sweep(case, tmp)
        unchanged(c, d, sw["id"])
        if sol is None:
            log.label("no-solution")
            log.trivial = True
            return
        names, A = matrix(sol, circ.Ref(d))
    check_axis(A[0], sw, partial=True)
    if A.shape[1] < sw["n"]:
        log.label("points-missing")
        require(case["skip"] or True, "")
    most = 0
    for j in range(A.shape[1]):
        point = {n: A[i, j] for i, n in enumerate(names) if i}
        try:
            imax = c02.check_point(with_value(d, sw["id"], A[0, j]), point, fresh, log)
        except AssertionError:
            raise
        most = max(most, imax or 0)
    log.label("solved", "points:%d" % A.shape[1])
    log.trivial = not most > 1e-9 or A.shape[1] < 3


TESTS = [
    Test("linear", linear_case(), check_linear, 1500, 30000),
    Test("nonlinear", nonlinear_case(), check_nonlinear, 400, 10000, cpu_s=240),
]
