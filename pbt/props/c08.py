"""C08: periodic steady state."""
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Test, Skip, fail, require
from .. import circ, nl
from . import c02, c06

PID = "C08"
TITLE = "The periodic steady state repeats and satisfies the circuit's equations"
RULE = ("a case is non-trivial when a solution was returned, the circuit has reactive elements and a waveform "
        "varies over the period by more than 1 nV / 1 nA")
ASSUMPTIONS = [
    "with nonlinear devices, solutions of hundreds of volts or tens of amperes are not examined: the methods' "
    "convergence criterion is relative to the largest quantity of the period",
    "the documented discretisation (implicit Euler, constant step) defines the solution expected at the points returned",
    "the shooting method takes the point at t=0 to be one step after the last one (known finding shooting-period); "
    "its results are compared with the equations closed that way or, should it be repaired, with the right ones",
    "circuits whose transients grow are given to the brute-force method only; ill-conditioned ones are left out",
]

METHODS = ["shooting", "brute-force"]


@st.composite
def periodic_fn(draw, T):
    """a waveform of period T (or a submultiple)"""
    lev = c06.tfun.level
    k = draw(st.sampled_from([1, 1, 2, 3]))
    kind = draw(st.sampled_from(["sin", "sin", "pulse", "am", "sffm", "pwl"]))
    if kind == "sin":
        f = {"t": "sin", "vo": draw(lev), "va": draw(lev), "freq": k / T}
        if draw(st.booleans()):
            f["phi"] = float(draw(st.sampled_from([0, 30, 45, 90, -60, 180, 200, 359])))
        return f
    if kind == "pulse":
        per = T / k
        a, b, c = (draw(st.integers(2, 9)) for _ in range(3))
        s = a + b + c + draw(st.integers(1, 9))
        return {"t": "pulse", "v1": draw(lev), "v2": draw(lev), "tr": per * a / s, "pw": per * b / s,
                "tf": per * c / s, "per": per, "td": 0.0}
    if kind == "am":
        return {"t": "am", "sa": draw(lev), "oc": draw(st.sampled_from([0.0, 1.0, 2.5])), "fm": 1 / T, "fc": k / T, "td": 0.0}
    if kind == "sffm":
        return {"t": "sffm", "vo": draw(lev), "va": draw(lev), "fc": k / T, "mdi": draw(st.sampled_from([0.0, .5, 1.0])),
                "fs": 1 / T, "td": 0.0}
    n = draw(st.integers(2, 4))
    ys = [draw(lev) for _ in range(n)]
    return {"t": "pwl", "x": [T * j / n for j in range(n + 1)], "y": ys + ys[:1], "repeat": True, "repeat_time": 0.0}


@st.composite
def settings(draw, T, nmax=30):
    d = {"T": T, "m": draw(st.sampled_from(METHODS)), "N": draw(st.integers(2, nmax)),
         "give": draw(st.sampled_from(["points", "points", "step", "roughstep", "both"])),
         "via": draw(st.sampled_from(["api", "direct", "direct", "netlist"]))}
    if d["give"] != "points" and d["via"] == "api":
        d["via"] = "direct"
    d["x0"] = draw(st.sampled_from([None, None, "rand"])) if d["via"] != "netlist" else None
    d["mats"] = d["via"] == "direct" and draw(st.integers(0, 3)) == 0
    return d


@st.composite
def linear_case(draw):
    u = draw(st.sampled_from([1e-3, 1e-6]))
    T = draw(circ.mag(-1, 1)) * u
    d = draw(circ.linear_desc(max_nodes=5, max_extra=6, caps=circ.mag(-9, -7) if u == 1e-6 else circ.mag(-7, -5),
                              inds=circ.mag(-5, -3) if u == 1e-6 else circ.mag(-3, -1), fn=periodic_fn(T),
                              rvals=circ.mag(1, 4)))
    if draw(st.integers(0, 9)):
        d = livelier(draw, d, T)
    d["s"] = draw(settings(T))
    d["o"] = {"dense_matrix_limit": draw(st.sampled_from([400, 400, 1]))}
    if d["s"]["x0"]:
        d["xs"] = [float(draw(st.integers(-20, 20))) / 10 for _ in range(circ.Ref(d).n)]
    return netlistable(d)


def scaled(f, k):
    return {n: [y * k for y in v] if n == "y" else v * k if n in ("vo", "va", "v1", "v2", "sa") else v for n, v in f.items()}


def livelier(draw, d, T):
    """a source that varies, an element with memory"""
    es = [dict(e) for e in d["elems"]]
    src = [e for e in es if e["k"] in "VI"]
    if not any(e.get("fn") for e in src):
        draw(st.sampled_from(src))["fn"] = draw(periodic_fn(T))
    if not any(e["k"] in "CL" for e in es):
        es.append({"k": "C", "id": "CQ", "n": ["0", draw(st.sampled_from(circ.nodes_of(d)))], "v": T * draw(circ.mag(-4, -2))})
    return dict(d, elems=es)


def netlistable(d):
    if d["s"]["via"] == "netlist" and any((e.get("fn") or {}).get("t") == "pwl" for e in d["elems"]):
        d["s"]["via"] = "direct"
    return d


def run(case, log):
    """(points requested, solution, circuit)"""
    a = circ.sut()
    s = case["s"]
    T, N = s["T"], s["N"]
    kw = {}
    if s["give"] in ("points", "both"):
        kw["points"] = N + 1
    if s["give"] in ("step", "both"):
        kw["step"] = T / N
    if s["give"] == "both":
        kw["points"] = N + 7   # the step has precedence
    if s["give"] == "roughstep":
        kw["step"] = T / (N + .4)   # N whole steps fit: the step is stretched
    log.label("m:" + s["m"], "via:" + s["via"], "give:" + s["give"])
    if s["via"] == "netlist":
        kw = dict(kw)
        with nl.Scratch() as tmp:
            d = nl.low(case)
            line = ".pss period=%r %s" % (T, " ".join("%s=%r" % x for x in sorted(kw.items())))
            if s["m"] != "shooting" or N % 2:
                line += " method=" + s["m"]
            from ahkab import netlist_parser as npar
            text = "\n".join(["pss case"] + nl.lines(d) + [line, ".end", ""])
            c, directives, _ = npar.parse_circuit(tmp.write("c.ckt", text))
            ans = npar.parse_analysis(c, directives)
            require(len(ans) == 1 and ans[0]["type"] == "pss", "%r gave the analyses %r", line, ans)
            an = dict(ans[0], outfile=tmp.path("c.pss"), verbose=0)
            sol = a.run(c, an)["pss"]
            if sol is not None:
                data = {k: np.asarray(sol[k]).reshape(-1) for k in sol.keys()}
            else:
                data = None
            return d, c, data
    c = circ.build(case)
    x0 = None
    if s["x0"]:
        x0 = c06.start_state(case, circ.Ref(case), c, "rand")[0]
    if s["via"] == "api":
        sol = a.run(c, a.new_pss(T, x0=x0, method=s["m"], **kw))["pss"]
    else:
        from ahkab import shooting, bfpss, dc_analysis, transient, utilities
        if s["mats"]:
            mna, Tf = dc_analysis.generate_mna_and_N(c, verbose=0)
            mna = utilities.remove_row_and_col(mna)
            Tf = utilities.remove_row(Tf, rrow=0)
            D = utilities.remove_row_and_col(transient.generate_D(c, [mna.shape[0], mna.shape[0]]))
            log.label("matrices-given")
            if s["m"] == "shooting":
                kw["matrices"] = {"MNA": mna, "Tf": Tf, "D": D}
            else:
                kw.update(mna=mna, Tf=Tf, D=D)
        with nl.Scratch() as tmp:
            f = shooting.shooting_analysis if s["m"] == "shooting" else bfpss.bfpss
            sol = f(c, T, x0=x0, outfile=tmp.path("c.pss"), verbose=0, **kw)
            if sol is not None:
                return case, c, check_container(sol, s)
    if sol is None:
        return case, c, None
    return case, c, check_container(sol, s)


def check_container(sol, s):
    require(sol.sol_type == "PSS" and sol.method == s["m"] and sol.period == s["T"],
            "the result says %r, %r, period %r", sol.sol_type, sol.method, sol.period)
    require(list(sol.keys())[0] == "T" and sol.get_xlabel() == "T", "the first variable is %r", list(sol.keys())[0])
    require(np.array_equal(np.asarray(sol.get_x()).reshape(-1), np.asarray(sol["T"]).reshape(-1)), "get_x() is not T")
    A = np.asarray(sol.asarray())
    keys = list(sol.keys())
    require(A.shape[0] == len(keys), "asarray() has %d rows for %d variables", A.shape[0], len(keys))
    data = {k: np.asarray(sol[k]).reshape(-1) for k in keys}
    for i, k in enumerate(keys):
        require(np.array_equal(A[i], data[k]), "row %d of asarray() is not %s", i, k)
    return data


def check_axis(data, s):
    t = data["T"]
    require(len(t) == s["N"] + 1, "%d points, %d were requested", len(t), s["N"] + 1)
    want = np.arange(s["N"] + 1) * s["T"] / s["N"]
    require(np.all(np.abs(t - want) <= 1e-9 * s["T"]), "the points are at %r, requested were %r", t.tolist(), want.tolist())


def matrix(ref, data):
    circ.check_unknown_set([k for k in data if k.upper() != "T"], ref)
    X = np.zeros((ref.n, len(data["T"])))
    for u, key in ref.names():
        X[ref.idx[u]] = data[[k for k in data if k.upper() == key.upper()][0]]
    require(np.all(np.isfinite(X)), "values that are not finite")
    return X


def cyclic(A, B, bs):
    """x_k with A x_k + B x_{k-1} = b_k around the cycle, and the error rounding makes"""
    m, n = len(bs), len(A)
    K = np.zeros((m * n, m * n))
    for k in range(m):
        K[k * n:(k + 1) * n, k * n:(k + 1) * n] += A
        j = (k - 1) % m
        K[k * n:(k + 1) * n, j * n:(j + 1) * n] += B
    r = np.concatenate(bs)
    if circ.cond_scaled(K) > 1e9:
        raise Skip("ill-conditioned")
    x = circ.ref_solve(K, r)
    e = circ.backward(K, r, x)
    return x.reshape(m, n).T, e.reshape(m, n).T


def discretised(ref, s):
    from ahkab import options
    h = s["T"] / s["N"]
    C = ref.C.copy()
    for i in range(len(ref.nodes)):
        C[i, i] += options.cmin
    A, B = ref.G + C / h, -C / h
    if circ.cond_scaled(A) > 1e9:
        raise Skip("ill-conditioned step")
    return h, A, B


def growth(A, B):
    """per step, with the implicit Euler or the trapezoidal rule"""
    P = np.linalg.solve(A, -B)
    if circ.cond_scaled(A - B) > 1e12:
        return np.inf
    Q = np.linalg.solve(A - B, -2 * B - (A + B))
    return max(np.max(np.abs(np.linalg.eigvals(m)), initial=0.0) for m in (P, Q))


def excess(ref, X, W, E):
    nn = len(ref.nodes)
    sc = np.ones((ref.n, 1))
    sc[:nn] = max(np.abs(W[:nn]).max(initial=0), 1e-3)
    sc[nn:] = max(np.abs(W[nn:]).max(initial=0), 1e-6)
    return np.abs(X - W) / (20 * E + 1e-7 * np.abs(W) + 1e-9 * sc)


def check_linear(case, log):
    s = case["s"]
    ref = circ.Ref(nl.low(case) if s["via"] == "netlist" else case)
    h, A, B = discretised(ref, s)
    if s["m"] == "shooting":
        # (the first guess is a transient run of ten periods)
        if not growth(A, B) <= 1 + 1e-6:
            raise Skip("growing transient")
    c0 = circ.build(case)
    N = s["N"]
    bs = [ref.b(c06.source_value(c0, k * h)) for k in range(N + 1)]
    W, E = cyclic(A, B, bs[1:])
    W, E = np.hstack([W[:, -1:], W]), np.hstack([E[:, -1:], E])
    c02.set_options(case["o"])
    d, c, data = run(case, log)
    require(data is not None, "no periodic steady state was found for a linear circuit")
    check_axis(data, s)
    X = matrix(ref, data)
    log.trivial = not ref.C.any() or np.ptp(X, axis=1).max() <= 1e-9
    ex = excess(ref, X, W, E)
    if ex.max() > 1 and s["m"] == "shooting":
        W2, E2 = cyclic(A, B, bs)
        ex2 = excess(ref, X, W2, E2)
        if ex2.max() <= 1:
            log.label("shooting-period")
            return
        W, ex = W2, ex2
    if ex.max() > 1:
        i, k = np.unravel_index(np.argmax(ex), ex.shape)
        u = [u for u in ref.idx if ref.idx[u] == i][0]
        fail("%s: at point %d %s = %r, the circuit's equations over the period give %r", s["m"], k, circ.key_of(u), X[i, k], W[i, k])


# ------------------------------------------------------------ nonlinear devices

@st.composite
def nonlinear_case(draw, rectifier=False):
    u = 1e-6
    T = draw(circ.mag(-1, 1)) * u
    lin = draw(circ.linear_desc(max_nodes=4, max_extra=5, couplings=False, dc=circ.mag(-1, 0, signed=True),
                                controlled=not rectifier, caps=circ.mag(-9, -7), inds=circ.mag(-5, -3),
                                rvals=circ.mag(2, 4), fn=periodic_fn(T)))
    if draw(st.integers(0, 9)):
        lin = livelier(draw, lin, T)
    d = draw(c02.add_devices(lin, ["D"] if rectifier else draw(st.sampled_from([["D"], ["M"], ["D", "M"]])), 1, 3, rich=not rectifier))
    if rectifier:
        out = []
        for k, e in enumerate(d["elems"]):
            if e["k"] == "D":
                mid = "dm%d" % k
                out.append({"k": "R", "id": "RD%d" % k, "n": [e["n"][0], mid], "v": draw(circ.mag(2, 4))})
                e = dict(e, n=[mid, e["n"][1]])
            out.append(e)
        d["elems"] = out
    # currents of milliamperes
    d["elems"] = [dict(e, fn=scaled(e["fn"], 1e-3)) if e["k"] == "I" and e.get("fn") else e for e in d["elems"]]
    d["s"] = draw(settings(T, 14))
    d["s"]["x0"] = None
    d["o"] = {"ver": 1e-6, "ier": 1e-6, "nl_voltages_lock_factor": draw(st.sampled_from([4, 10, 40]))}
    d["rect"] = rectifier
    return netlistable(d)


def check_nonlinear(case, log):
    from ahkab import options
    s = case["s"]
    low = nl.low(case) if s["via"] == "netlist" else case
    if s["via"] == "netlist":
        low["models"] = [dict(m, name=m["name"].lower()) for m in low["models"]]
    ref = circ.Ref(low)
    h, A, B = discretised(ref, s)
    if s["m"] == "shooting" and not case["rect"] and not growth(A + 1e-6 * np.eye(ref.n), B) <= 1 + 1e-6:
        raise Skip("growing transient")
    c02.set_options(case["o"])
    options.bfpss_max_nr_iter = 3000 if case["rect"] else 300
    options.shooting_max_nr_iter = 300
    try:
        d, c, data = run(case, log)
    except (np.linalg.LinAlgError, OverflowError):
        if case["rect"]:
            raise
        log.label("singular")
        log.trivial = True
        return
    if case["rect"]:
        log.label("found" if data is not None else "not-found")
        if data is None:
            big = max(max(abs(e["dc"] or 0), c06.tfun.scale(e["fn"]) if e.get("fn") else 0) * (1 if e["k"] == "V" else 1e3)
                      for e in case["elems"] if e["k"] in "VI")
            # (the transient run that shooting starts from may not converge)
            # every iteration changes the voltage of a diode by some Vth at most
            lin = circ.Ref({"elems": [dict(e, k="R", v=1e9) if e["k"] == "D" else e for e in low["elems"]]})
            _, A1, B1 = discretised(lin, s)
            c0 = circ.build(case)
            W, _ = cyclic(A1, B1, [lin.b(c06.source_value(c0, k * h)) for k in range(1, s["N"] + 1)])
            require(big > 10 or np.abs(W[:len(lin.nodes)]).max() > 100 or s["m"] == "shooting", "%s: no periodic steady state was found for a circuit of resistors, reactances, "
                    "sources and diodes with series resistors", s["m"])
    if data is None:
        log.label("no-solution")
        log.trivial = True
        return
    check_axis(data, s)
    X = matrix(ref, data)
    log.trivial = not ref.C.any() or np.ptp(X, axis=1).max() <= 1e-9
    N = s["N"]
    if np.abs(X[:len(ref.nodes)]).max() > 200:
        log.label("hundreds-of-volts")
        return
    if np.abs(X[len(ref.nodes):]).max(initial=0) > 10:
        # the convergence criterion is relative to the largest quantity of the period
        log.label("tens-of-amperes")
        return
    c0 = circ.build(case)
    pts = list(range(1, N + 1))
    prev = {k: X[:, k - 1] for k in pts}
    if s["m"] == "brute-force":
        require(np.allclose(X[:, 0], X[:, N], rtol=1e-9, atol=1e-9), "the last point %r is not the first %r", X[:, N].tolist(), X[:, 0].tolist())
    elif not np.allclose(X[:, 0], X[:, N], rtol=1e-6, atol=1e-9):
        pts = [0] + pts
        prev[0] = X[:, N]
        log.label("shooting-period")
    for k in pts:
        point(case, low, ref, A, B, X[:, k], prev[k], ref.b(c06.source_value(c0, k * h)), k, log,
              2 * np.abs(X).max())
    log.label("solved")


def point(case, low, ref, A, B, x, xp, b, k, log, vmax):
    V = {n: x[ref.idx[("v", n)]] for n in ref.nodes}
    V["0"] = 0.0
    alts, imax, slack = c02.device_currents(low, V, None)
    if alts is None:
        log.label("out-of-domain")
        return
    r = A @ x + B @ xp - b
    fl = np.abs(A) @ np.abs(x) + np.abs(B) @ np.abs(xp) + np.abs(b)
    for opts in alts:
        for node, i in opts[0].items():
            if node != "0":
                r[ref.idx[("v", node)]] += i
                fl[ref.idx[("v", node)]] += abs(i)
    nn = len(ref.nodes)
    tol = 2e-6 * fl
    # and an exponential is off by the square of what is left
    tol[:nn] += slack + 2e-8 + imax * (10 * case["o"]["ier"] + (case["o"]["ver"] * vmax / .02) ** 2)
    tol[nn:] += 5e-6
    ex = np.abs(r) / tol
    if ex.max() > 1:
        j = int(np.argmax(ex))
        u = [u for u in ref.idx if ref.idx[u] == j][0]
        fail("%s: point %d leaves %g in the equation of %s (terms of %g, voltages %r)", case["s"]["m"], k, r[j], u, fl[j], V)


# --------------------------------------------------------------- the period

def check_period(case, log):
    """x(0) = x(T), with the shooting method: run through known_findings.jsonl only"""
    a = circ.sut()
    d = {"elems": [{"k": "V", "id": "V1", "n": ["in", "0"], "dc": 0.0, "fn": {"t": "sin", "vo": 0.0, "va": 1.0, "freq": 1e3}},
                   {"k": "R", "id": "R1", "n": ["in", "out"], "v": 1e3},
                   {"k": "C", "id": "C1", "n": ["out", "0"], "v": 1e-6}]}
    sol = a.run(circ.build(d), a.new_pss(1e-3, points=case["points"], method="shooting"))["pss"]
    v = np.asarray(sol["Vout"]).reshape(-1)
    require(abs(v[0] - v[-1]) <= 1e-6 * np.ptp(v), "shooting: v(0) = %r, one period later v = %r", v[0], v[-1])


# ------------------------------------------------------------------ arguments

@st.composite
def argument_case(draw):
    return {"what": draw(st.sampled_from(["autonomous", "method", "default"])), "m": draw(st.sampled_from(METHODS)),
            "T": draw(circ.mag(-6, -2)), "net": draw(st.booleans()), "flag": draw(st.sampled_from(["1", "yes", "true"])),
            "noflag": draw(st.sampled_from([None, "0", "no", "false"])), "npts": draw(st.integers(5, 40))}


def check_args(case, log):
    a = circ.sut()
    from ahkab import options, pss, netlist_parser as npar
    d = {"elems": [{"k": "V", "id": "v1", "n": ["in", "0"], "dc": None, "fn": {"t": "sin", "vo": 0.5, "va": 1.0, "freq": 1 / case["T"]}},
                   {"k": "R", "id": "r1", "n": ["in", "out"], "v": 1e3},
                   {"k": "C", "id": "c1", "n": ["out", "0"], "v": case["T"] / 3e3}]}
    log.label(case["what"])
    options.bfpss_default_points = options.shooting_default_points = case["npts"]
    with nl.Scratch() as tmp:
        def netrun(extra):
            text = "\n".join(["pss"] + nl.lines(d) + [".pss period=%r %s" % (case["T"], extra), ".end", ""])
            c, dirs, _ = npar.parse_circuit(tmp.write("c.ckt", text))
            an = dict(npar.parse_analysis(c, dirs)[0], outfile=tmp.path("o"), verbose=0)
            sol = a.run(c, an)["pss"]
            return len(np.asarray(sol["T"]).reshape(-1)), sol.method
        if case["what"] == "autonomous":
            try:
                if case["net"]:
                    netrun("points=11 method=%s autonomous=%s" % (case["m"], case["flag"]))
                else:
                    a.run(circ.build(d), a.new_pss(case["T"], points=11, method=case["m"], autonomous=True))
            except Exception:
                return
            fail("autonomous=True was accepted")
        if case["what"] == "method":
            try:
                pss.pss_analysis(circ.build(d), case["T"], points=11, method="no-such", outfile=tmp.path("o"))
            except ValueError:
                return
            fail("an unknown method was accepted")
        extra = "" if case["noflag"] is None else "autonomous=%s " % case["noflag"]
        if case["m"] == "brute-force":
            extra += "method=brute-force"
        if case["net"]:
            n, m = netrun(extra)
        else:
            sol = a.run(circ.build(d), a.new_pss(case["T"], method=case["m"]))["pss"]
            n, m = len(np.asarray(sol["T"]).reshape(-1)), sol.method
        require((n, m) == (case["npts"], case["m"]), "%d points by %r, expected %d by %r", n, m, case["npts"], case["m"])


TESTS = [
    Test("linear", linear_case(), check_linear, 1200, 30000, cpu_s=120),
    Test("nonlinear", nonlinear_case(), check_nonlinear, 160, 6000, cpu_s=200),
    Test("rectifiers", nonlinear_case(True), check_nonlinear, 100, 4000, cpu_s=200),
    Test("arguments", argument_case(), check_args, 120, 1000),
    # run through known_findings.jsonl only
    Test("period", st.just({"points": 51}), check_period, 1, 1, known=lambda c: "shooting-period"),
]
