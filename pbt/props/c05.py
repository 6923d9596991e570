"""C05: AC results are the small-signal phasors of the circuit linearised at its operating point."""
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Test, Skip, fail, require
from .. import circ, devices, nl
from . import c02

PID = "C05"
RULE = ("a case is non-trivial when the circuit has an AC source and a reactive element or a nonlinear device, "
        "and the phasors differ between the ends of the sweep or from zero")
ASSUMPTIONS = [
    "options.gmin and options.cmin are added at every node, as documented",
    "for nonlinear circuits the conductances are taken at the linearisation point the result reports (or the one supplied); points where a switch has two states are left out",
]


def acv(e):
    a = e.get("ac") or 0
    return complex(*a) if isinstance(a, (list, tuple)) else complex(a)


AC = st.one_of(circ.mag(-2, 1), st.sampled_from([1.0, 1.0, 0.0, None]),
               st.tuples(circ.mag(-1, 0, signed=True), circ.mag(-1, 0, signed=True)).map(list))
AC_REAL = st.one_of(circ.mag(-2, 1), st.sampled_from([1.0, 1.0, 0.0, None]))


@st.composite
def sweep(draw, via=("api", "api", "direct", "netlist")):
    s = {"via": draw(st.sampled_from(via)), "type": draw(st.sampled_from(["LOG", "LIN"]))}
    s["start"] = draw(circ.mag(0, 7))
    s["n"] = draw(st.integers(2, 9))
    s["stop"] = s["start"] * draw(st.sampled_from([10.0, 2.0, 1000.0, 1.37, 1e5]))
    if draw(st.integers(0, 9)) == 0:
        s["stop"] = s["start"]
        s["n"] = 1
    s["low"] = draw(st.booleans())
    s["short"] = draw(st.booleans())
    return s


def axis(s):
    n = s["n"]
    if n == 1:
        return [s["start"]]
    if s["type"] == "LIN":
        return [s["start"] + (s["stop"] - s["start"]) * i / (n - 1) for i in range(n)]
    return [s["start"] * (s["stop"] / s["start"]) ** (i / (n - 1.0)) for i in range(n)]


def run_ac(case, tmp, x0=None):
    a = circ.sut()
    s = case["sw"]
    out = tmp.path("out")
    ty = s["type"].lower() if s["low"] else s["type"]
    if s["via"] == "netlist":
        d = nl.low(case)
        par = [ty, "%d" % s["n"], repr(s["start"]), repr(s["stop"])] if s["short"] else \
            ["start=%r" % s["start"], "stop=%r" % s["stop"], "nsteps=%d" % s["n"]] + \
            ([] if ty == "LOG" else ["type=" + ty])
        text = "\n".join(["ac case"] + nl.lines(d) + [".ac " + " ".join(par), ".end", ""])
        from ahkab import netlist_parser as npar
        c, directives, _ = npar.parse_circuit(tmp.write("c.ckt", text))
        ans = npar.parse_analysis(c, directives)
        require(len(ans) == 1, "one .ac line gave the analyses %r", ans)
        an = dict(ans[0], outfile=out, verbose=0)
        return d, a.run(c, an).get("ac")
    c = circ.build(case)
    if s["via"] == "api":
        kw = {} if s["short"] and ty == "LOG" else {"sweep_type": ty}
        if x0 is not None:
            kw["x0"] = x0
        an = a.new_ac(s["start"], s["stop"], s["n"], outfile=out, verbose=0, **kw)
        if case.get("opfirst"):
            return case, a.run(c, [a.new_op(verbose=0), an]).get("ac")
        return case, a.run(c, an).get("ac")
    from ahkab import ac
    kw = {} if s["short"] and s["type"] == "LOG" else {"sweep_type": ty}
    return case, ac.ac_analysis(c, s["start"], s["n"], s["stop"], x0=x0, outfile=out, verbose=0, **kw)


def check_phasors(d, s, sol, log, G=None, dG=None, deg=False, start=None):
    """the whole result against (G + j w C) x = b; dG bounds the error of G"""
    ref = circ.Ref(d)
    G = ref.G if G is None else G
    names = list(sol.keys())
    require(names and names[0] == "f", "the result's first variable is %r", names[:1])
    circ.check_unknown_set(names[1:], ref)
    want = axis(s)
    f = np.asarray(sol["f"])
    require(f.shape == (len(want),), "the frequency axis has the shape %r, requested were %d points", f.shape, len(want))
    for g, w in zip(f, want):
        require(abs(g - w) <= 1e-9 * w, "the sweep is at %r Hz where %r Hz was requested (%r)", g, w, list(f))
    require(np.array_equal(f, np.asarray(sol.get_x())), "get_x() is not the frequency axis")
    require(sol.get_xlabel() == "f", "get_xlabel() is %r", sol.get_xlabel())
    data = {key: np.asarray(sol[key]) for _, key in ref.names()}
    for k, v in data.items():
        require(v.shape == f.shape, "sol[%r] has the shape %r", k, v.shape)
    from ahkab import options
    b = ref.b(acv).astype(complex)
    nn = len(ref.nodes)
    # every point starts from the one before, the first from the operating
    # point: rounding is relative to the largest of them
    fl = [1e-3, 1e-6]
    if start is not None:
        fl = [max(fl[0], np.max(np.abs(start[:nn]))), max(fl[1], np.max(np.abs(start[nn:]), initial=0.0))]
    xm = np.abs(start) if start is not None else np.zeros(ref.n)
    nontriv = False
    for j, fr in enumerate(want):
        w = 2 * math.pi * fr
        A = G + 1j * w * ref.C
        cond = circ.cond_scaled(A)
        if not cond < 1e9:
            log.label("ill-conditioned-point")
            continue
        # the simulator's minimum conductance and capacitance at every node
        for k in range(nn):
            A[k, k] += options.gmin + 1j * w * options.cmin
        x = circ.ref_solve(A, b)
        res = np.abs(A) @ xm
        fl = [max(fl[0], np.max(res[nn:], initial=0.0)), max(fl[1], np.max(res[:nn]))]
        xm = np.maximum(xm, np.abs(x))
        e = 20 * circ.backward(A, b, xm, nn)
        if dG is not None:
            e = e + 1.5 * np.abs(np.linalg.inv(A)) @ (dG @ np.abs(x))
        sv, si = circ.scales(ref, A, b, x)
        sv, si = max(fl[0], sv), max(fl[1], si)
        for u, key in ref.names():
            k = ref.idx[u]
            sc = sv if u[0] == "v" else si
            got = data[key][j]
            tol = e[k] + 1e-7 * abs(x[k]) + (1e-10 + 1e-14 * cond) * sc
            require(abs(got - x[k]) <= tol, "at %g Hz %s = %r, the circuit's equations give %r", fr, key, got, x[k])
        if np.max(np.abs(x)) > 0:
            nontriv = True
    # the views of the result agree
    A = np.asarray(sol.asarray())
    require(A.shape == (len(names), len(want)), "asarray() has the shape %r", A.shape)
    vals = sol.values()
    its = dict(sol.items())
    for i, nme in enumerate(names):
        v = np.asarray(sol[nme])
        for what, z in (("asarray", A[i]), ("values", vals[i]), ("items", its[nme])):
            require(np.allclose(np.asarray(z), v, rtol=1e-12, atol=0), "%s gives %r for %s, by name it is %r", what, z, nme, v)
    from ahkab import csvlib
    raw, heads, _, _ = csvlib.load_csv(sol.filename, load_headers=[], verbose=0)
    heads = [h.strip() for h in heads]
    for nme in names[1:]:
        v = np.asarray(sol[nme])
        m = raw[heads.index("|%s|" % nme)]
        p = raw[heads.index("arg(%s)" % nme)]
        p = np.deg2rad(p) if deg else p
        require(np.allclose(m, np.abs(v), rtol=1e-12, atol=0), "the magnitude on file of %s is not that of the result", nme)
        require(np.allclose(m * np.exp(1j * p), v, rtol=1e-9, atol=0), "magnitude and phase on file of %s are %r, %r, the result is %r", nme, m, p, v)
    return nontriv


@st.composite
def linear_case(draw):
    s = draw(sweep())
    d = draw(circ.linear_desc(max_nodes=5, max_extra=7, ac=AC_REAL if s["via"] == "netlist" else AC))
    d["sw"] = s
    d["deg"] = draw(st.integers(0, 5)) == 0
    d["opfirst"] = draw(st.integers(0, 3)) == 0
    return d


def check_linear(case, log):
    from ahkab import options
    options.ac_phase_in_deg = case["deg"]
    ref = circ.Ref(case)
    conds = [circ.cond_scaled(ref.G + 2j * math.pi * f * ref.C) for f in axis(case["sw"])]
    if not all(c < 1e9 for c in conds):
        raise Skip("ill-conditioned")
    log.label("via:" + case["sw"]["via"], "type:" + case["sw"]["type"])
    for k in circ.kinds(case):
        log.label("has:" + k)
    if case["deg"]:
        log.label("deg")
    with nl.Scratch() as tmp:
        d, sol = run_ac(case, tmp)
        require(sol is not None, "the analysis gave no result although the equations have one solution at every frequency")
        start = None
        if circ.cond_scaled(ref.G) < 1e12:
            start = circ.ref_solve(ref.G, ref.b(lambda e: e["dc"]))
        nt = check_phasors(d, case["sw"], sol, log, deg=case["deg"], start=start)
    log.trivial = not nt or not any(e["k"] in "CL" for e in case["elems"])


BASE = circ.linear_desc(max_nodes=4, max_extra=4, couplings=False, dc=circ.mag(-1, 0, signed=True),
                        rvals=circ.mag(2, 5), ac=AC)


@st.composite
def nonlinear_case(draw):
    d = draw(c02.add_devices(draw(BASE), draw(st.sampled_from([["D"], ["M"], ["E"], ["D", "M"], ["D", "S"], ["M", "S", "E"]])), 1, 3))
    d["sw"] = draw(sweep(via=("api", "direct")))
    d["x0"] = draw(st.sampled_from([None, None, "op", "array", "own"]))
    d["opfirst"] = d["x0"] is None and draw(st.booleans())
    d["deg"] = False
    if d["x0"] == "own":
        d["point"] = [draw(st.integers(-60, 60)) / 100.0 for _ in range(circ.Ref(d).n)]
    return d


def conductances(desc, V, fresh):
    """{(row node, column node): conductance}, error bound of each; None out of the domain"""
    models = {m["name"]: m for m in desc["models"]}
    out, err = [], []

    def port(a, b, sa, sb, g, de):
        for r, sr in ((a, 1), (b, -1)):
            for c_, sc in ((sa, 1), (sb, -1)):
                out.append((r, c_, sr * sc * g))
                err.append((r, c_, de))
    for e in desc["elems"]:
        if e["k"] not in "DMS":
            continue
        m = models[e["m"]]
        v = [V[x] for x in e["n"]]
        if e["k"] == "D":
            vd = v[0] - v[1]
            vf, vr = devices.diode_vmax(m["p"], e.get("T"))
            if vd > vf or vd < -vr:
                return None
            g = devices.diode(m["p"], vd, e.get("area"), e.get("T"))[1]
            port(e["n"][0], e["n"][1], e["n"][0], e["n"][1], g, 1e-5 * abs(g) + (5e-12 if abs(g) < 1e-12 else 1e-15))
        elif m["type"] == "mosq":
            i, gs, reg, d = devices.mos(m["p"], e["w"], e["l"], *v)
            s = d["s"]
            vs = [s * x for x in v]
            ls = min(vs[0], vs[2])
            arg = 2 * d["PHI"] - (vs[3] - ls)
            if arg < 1e-2:
                return None
            vt = d["VTO"] + d["GAMMA"] * (math.sqrt(arg) - math.sqrt(2 * d["PHI"]))
            vov = vs[1] - ls - vt
            if d["LAMBDA"] * vov > 1.9 or abs(vov) < 1e-4 or abs(abs(vs[0] - vs[2]) - (vov - .5 * d["LAMBDA"] * vov ** 2)) < 1e-4:
                return None
            for k in range(4):
                de = 1e-5 * abs(gs[k]) + (4e-11 * (1 + abs(vs[1] - ls) + abs(vs[0] - vs[2])) / max(abs(vt), .02) ** 2)
                for r, sr in ((e["n"][0], 1), (e["n"][2], -1)):
                    out.append((r, e["n"][k], sr * gs[k]))
                    err.append((r, e["n"][k], de))
        elif m["type"] == "ekv":
            el = fresh.get_elem_by_name(e["id"])
            num = dict(zip((el.n1, el.ng, el.n2, el.nb), v))
            name = dict(zip((el.n1, el.ng, el.n2, el.nb), e["n"]))
            ports = list(el.get_drive_ports(0))
            pv = tuple(np.float64(num[a] - num[b]) for a, b in ports)
            for k, (a, b) in enumerate(ports):
                g = float(el.g(0, pv, k))
                port(e["n"][0], e["n"][2], name[a], name[b], g, 1e-3 * abs(g) + 1e-12)
        else:
            d = devices.switch_par(m["p"])
            rs = [devices.switch_r(d, v[2] - v[3], on) for on in (False, True)]
            if abs(rs[0] - rs[1]) > 1e-9 * rs[0]:
                return None
            port(e["n"][0], e["n"][1], e["n"][0], e["n"][1], 1 / rs[0], 1e-6 / rs[0])
            h = 1e-4
            dr = (devices.switch_r(d, v[2] - v[3] + h, False) - devices.switch_r(d, v[2] - v[3] - h, False)) / 2 / h
            gm = -(v[0] - v[1]) * dr / rs[0] ** 2
            if abs(gm) > 1e-12:
                return None
            # the simulator keeps a minimum transconductance
            port(e["n"][0], e["n"][1], e["n"][2], e["n"][3], 0.0, 5e-12)
    return out, err


def check_nonlinear(case, log):
    from ahkab import options
    options.dc_max_nr_iter = 400
    a = circ.sut()
    ref = circ.Ref(case)
    fresh = circ.build(case)
    x0 = None
    x = None
    with nl.Scratch() as tmp:
        if case["x0"] in ("op", "array"):
            x0 = a.run(circ.build(case), a.new_op(verbose=0))["op"]
            if x0 is None:
                log.trivial = True
                return
            if case["x0"] == "array":
                x0 = x0.asarray()
        elif case["x0"] == "own":
            o = {key: v for (_, key), v in zip(ref.names(), case["point"])}
            c = circ.build(case)
            # the order of the unknowns is the result's
            from ahkab import results
            order = results.op_solution(np.zeros((ref.n, 1)), np.zeros((ref.n, 1)), c, None, 0).keys()
            low = {k.upper(): v for k, v in o.items()}
            x0 = np.array([[low[k.upper()]] for k in order])
        try:
            d, sol = run_ac(case, tmp, x0)
        except RuntimeError as e:
            if "linearization point" in str(e):
                log.label("no-op")
                log.trivial = True
                return
            raise
        op = sol.linearization_op if sol is not None else None
        if sol is None:
            log.label("no-result")
            log.trivial = True
            return
        if case["x0"] == "own":
            V = {n: o["V" + n] for n in ref.nodes}
        else:
            require(op is not None, "the result does not have its linearisation point")
            V = {}
            if case["x0"] == "array":
                from ahkab import results
                op = results.op_solution(x0, x0, circ.build(case), None, 0)
            for n in ref.nodes:
                V[n] = float(np.asarray(op["V" + n]).reshape(-1)[0])
        V["0"] = 0.0
        gs = conductances(case, V, fresh)
        if gs is None:
            raise Skip("outside of the models' domain, or on a corner of them")
        G = ref.G.copy()
        dG = np.zeros(G.shape)
        for (r, c_, g), (_, _, de) in zip(*gs):
            if r != "0" and c_ != "0":
                i, k = ref.idx[("v", r)], ref.idx[("v", c_)]
                G[i, k] += g
                dG[i, k] += de
        log.label("x0:%s" % case["x0"])
        for k in set(e["k"] for e in case["elems"]) & set("DMS"):
            log.label("has:" + k)
        start = np.array([float(np.asarray(op[key]).reshape(-1)[0]) for _, key in ref.names()]) if op is not None and not isinstance(op, np.ndarray) else np.ones(ref.n)
        nt = check_phasors(case, case["sw"], sol, log, G=G, dG=dG, start=start)
        log.trivial = not nt


TESTS = [
    Test("linear", linear_case(), check_linear, 1200, 40000),
    Test("nonlinear", nonlinear_case(), check_nonlinear, 600, 16000, cpu_s=120),
]
