"""C09: pole-zero analysis returns the natural frequencies and the zeros of the circuit."""
import math
import random
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from ..core import Test, Skip, fail, require
from .. import circ, nl
from . import c02, c05

PID = "C09"
TITLE = "Pole-zero analysis returns the circuit's natural frequencies and zeros"
RULE = ("a case is non-trivial when the circuit has two or more finite natural frequencies "
        "or a finite zero; the reference is the characteristic polynomial in exact rational arithmetic")
ASSUMPTIONS = [
    "values are frequencies in Hz (s/2pi), as the documentation says",
    "zeros are those of the determinant of the bordered equations: hidden modes that cancel a pole are listed in both; "
    "when the output does not depend on the frequency at all no zeros need be listed",
    "circuits whose finite natural frequencies span more than five decades, or are ill-conditioned, are left out",
]


# -- exact polynomials --------------------------------------------------------

def det_exact(M):
    """determinant of a matrix of Fractions"""
    M = [row[:] for row in M]
    n = len(M)
    d = Fraction(1)
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c]), None)
        if p is None:
            return Fraction(0)
        if p != c:
            M[c], M[p] = M[p], M[c]
            d = -d
        d *= M[c][c]
        for r in range(c + 1, n):
            if M[r][c]:
                f = M[r][c] / M[c][c]
                for k in range(c, n):
                    if M[c][k]:
                        M[r][k] -= f * M[c][k]
    return d


def poly_exact(A, B, deg, s0):
    """coefficients (Fractions, lowest first) of det(A + s0*z*B) in z, leading zeros removed"""
    n = len(A)
    xs = [Fraction(k) for k in range(-(deg // 2), deg - deg // 2 + 1)]
    ys = []
    for x in xs:
        x = x * s0
        ys.append(det_exact([[A[i][j] + x * B[i][j] if B[i][j] else A[i][j] for j in range(n)] for i in range(n)]))
    # Newton's divided differences
    c = ys[:]
    for k in range(1, len(xs)):
        for i in range(len(xs) - 1, k - 1, -1):
            c[i] = (c[i] - c[i - 1]) / (xs[i] - xs[i - k])
    p = [Fraction(0)]
    for i in range(len(xs) - 1, -1, -1):
        q = [Fraction(0)] + p
        for j, v in enumerate(p):
            q[j] -= xs[i] * v
        q[0] += c[i]
        p = q
    while p and not p[-1]:
        p.pop()
    return p


def frac(M):
    return [[Fraction(float(v)) for v in row] for row in M]


def bordered(G, C, b, c):
    n = len(G)
    A = np.zeros((n + 1, n + 1))
    A[:n, :n] = G
    A[:n, n] = b
    A[n, :n] = c
    B = np.zeros((n + 1, n + 1))
    B[:n, :n] = C
    return A, B


def roots(p, s0):
    """the roots of an exact polynomial in z, as s = s0*z"""
    import mpmath
    z = 0
    while z < len(p) - 1 and not p[z]:
        z += 1
    q = p[z:]
    out = [0j] * z
    if len(q) > 1:
        with mpmath.workdps(60):
            m = max(abs(v) for v in q)
            co = [mpmath.mpf((v / m).numerator) / mpmath.mpf((v / m).denominator) for v in reversed(q)]
            try:
                rs = mpmath.polyroots(co, maxsteps=300, extraprec=400)
            except mpmath.libmp.libhyper.NoConvergence:
                raise Skip("no reference roots")
            out += [complex(r) * float(s0) for r in rs]
    return out


def logratio(rs, s, ref):
    return sum(np.log(np.abs((s - r) / (ref - r))) for r in rs), sum(np.angle((s - r) / (ref - r)) for r in rs)


def test_points(rs):
    mags = sorted(abs(r) for r in rs if r)
    lo, hi = (mags[0] / 10, mags[-1] * 10) if mags else (1.0, 1e6)
    if any(r == 0 for r in rs):
        # a multiple root in the origin comes out as a small circle around it,
        # small relative to the frequency the computation is made at
        lo = max(lo, 3e4)
        hi = max(hi, 100 * lo)
    k = 2 * len(rs) + 4
    pts = []
    for i in range(k):
        for th in (0.35, 1.2, 0.8, 2.0, 2.7):
            s = lo * (hi / lo) ** (i / (k - 1.0)) * np.exp(1j * th)
            if all(abs(s - r) > 0.1 * abs(s) for r in rs):
                pts.append(s)
                break
    return pts


def compare(what, got_hz, want, tols, log):
    """got_hz reported; want the exact roots (rad/s); tols: perturbed root sets"""
    got = [complex(g) * 2 * math.pi for g in got_hz]
    # (what rounding leaves of a root at the origin; the circuits' own frequencies are above 1 kHz)
    origin = lambda rs: [0j if abs(r) < 1e-4 else r for r in rs]
    want, tols = origin(want), [(origin(t), weight) for t, weight in tols]
    if len(got) > len(want):
        # a multiple singularity at infinity comes out as a large circle
        top = max([abs(w) for w in want] + [3e4])
        near = [g for g in got if abs(g) < max(1e4 * top, 1e10)]
        if len(near) == len(want):
            log.label("multiple at infinity")
            got = near
    if len(got) != len(want):
        # roots at infinity, which the rounding of the reference's own matrices made finite:
        # they are elsewhere altogether when the matrices change by 1e-11
        m = sorted(abs(w) for w in want)
        for t, _ in tols:
            mt = sorted(abs(w) for w in t)
            if any(abs(x - y) > .5 * x for x, y in zip(m, mt) if x > 1e6):
                raise Skip("roots that rest on rounding")
    require(len(got) == len(want), "%d %s are reported, the equations have %d (reported %r, expected %r Hz)",
            len(got), what, len(want), [complex(g) for g in got_hz], [w / 2 / math.pi for w in want])
    require(all(np.isfinite(g) for g in got), "%s: %r", what, got_hz)
    if not got:
        return
    pts = test_points(want)
    if len(pts) < 2:
        raise Skip("no test points")
    ref = pts[len(pts) // 2]
    for s in pts:
        if s == ref:
            continue
        a, ph = logratio(want, s, ref)
        tol = 2e-6 * len(want)
        for t, weight in tols:
            a2, p2 = logratio(t, s, ref)
            tol += weight * (abs(a2 - a) + abs((p2 - ph + math.pi) % (2 * math.pi) - math.pi))
        if tol > 0.02:
            log.label("sensitive")
            continue
        g, gp = logratio(got, s, ref)
        require(abs(g - a) <= tol and abs((gp - ph + math.pi) % (2 * math.pi) - math.pi) <= tol,
                "the %s are reported as %r Hz, the equations give %r Hz", what, [complex(x) for x in got_hz],
                [w / 2 / math.pi for w in want])
    srt = sorted(got, key=lambda z: (z.real, z.imag))
    for g in got:
        if abs(g.imag) > 1e-5 * abs(g) and abs(g) > 1e3:
            require(min(abs(h - g.conjugate()) for h in got) <= 1e-3 * abs(g), "the %s are not in conjugate pairs: %r", what, srt)


def spread(rs):
    m = [abs(r) for r in rs if r]
    return max(m) / min(m) if m else 1.0


def wide(rs):
    if spread(rs) > 1e5:
        raise Skip("wide spread")
    if any(abs(r) > 1e11 for r in rs):
        # the simulator leaves those above options.pz_max out
        raise Skip("beyond pz_max")


def exact_roots(A, B, deg, s0):
    p = poly_exact(frac(A), frac(B), deg, s0)
    if not p:
        return None
    return roots(p, s0)


def perturbed(A, rng, rel):
    return A * (1 + rel * (2 * rng.random(A.shape) - 1))


def transfer(G, ref, b, c):
    """the largest ratio, over the frequencies, of the output to the voltages in the circuit"""
    strong = 0.0
    for w in [0.0] + [10.0 ** k for k in range(3, 11)]:
        A = G + w * ref.C
        if circ.cond_scaled(A) < 1e12:
            x = circ.ref_solve(A, b)
            m = np.max(np.abs(x[:len(ref.nodes)]))
            if m:
                strong = max(strong, abs(c @ x) / m)
    return strong


# -- cases --------------------------------------------------------------------

CAPS = circ.mag(-10, -8)
INDS = circ.mag(-4, -2)
RV = circ.mag(2, 4)


@st.composite
def linear_case(draw):
    d = draw(circ.linear_desc(max_nodes=5, max_extra=7, caps=CAPS, inds=INDS, rvals=RV, ac=c05.AC_REAL,
                              extra_kinds=["R", "C", "C", "RL", "I", "RV", "G", "F", "C"]))
    # a few capacitors more, so that most cases have dynamics
    nodes = circ.nodes_of(d)
    used = {e["id"].upper() for e in d["elems"]}
    for _ in range(draw(st.integers(0, 3))):
        a, b = draw(st.permutations(nodes + ["0"]))[:2]
        d["elems"].append({"k": "C", "id": circ.ident(draw, "C", used, True), "n": [a, b], "v": draw(CAPS)})
    k = [e for e in d["elems"] if e["k"] == "K"]
    d["elems"] = [e for e in d["elems"] if e["k"] != "K"] + k
    d["via"] = draw(st.sampled_from(["api", "api", "direct", "poles", "netlist"]))
    srcs = [e["id"] for e in d["elems"] if e["k"] in "VI"]
    d["source"] = draw(st.sampled_from(srcs))
    nodes = circ.nodes_of(d)
    o = draw(st.sampled_from(["node", "tuple", "tuple0", "label", "label2", "none"]))
    d["outform"] = o
    d["out"] = [draw(st.sampled_from(nodes)), draw(st.sampled_from([n for n in nodes] + ["0"]))]
    d["srccase"] = draw(st.sampled_from(["as", "as", "obj", "lower"]))
    d["shift"] = draw(st.sampled_from([0.0, 0.0, 0.0, 1e3, 12345.6]))
    d["mna"] = draw(st.integers(0, 4)) == 0
    if d["via"] == "poles":
        d["outform"] = "none"
    return d


def run_pz(case, tmp):
    a = circ.sut()
    from ahkab import pz, dc_analysis
    o = case["outform"]
    p, n = case["out"]
    if case["via"] == "netlist":
        d = nl.low(case)
        p, n = p.lower(), n.lower()
        args = ""
        if o != "none":
            lab = "v(%s)" % p if o in ("node", "label") else "v(%s,%s)" % (p, n if o != "tuple0" else "0")
            args = " %s %s" % (lab, case["source"].lower()) if case["shift"] == 0 else \
                " output=%s input=%s shift=%r" % (lab, case["source"].lower(), case["shift"])
        text = "\n".join(["pz case"] + nl.lines(d) + [".pz" + args, ".end", ""])
        from ahkab import netlist_parser as npar
        c, directives, _ = npar.parse_circuit(tmp.write("c.ckt", text))
        ans = npar.parse_analysis(c, directives)
        require(len(ans) == 1, "one .pz line gave the analyses %r", ans)
        return d, a.run(c, dict(ans[0], outfile=tmp.path("o"), verbose=0))["pz"], o in ("node", "label", "tuple0")
    c = circ.build(case)
    src = case["source"]
    if case["srccase"] == "obj":
        src = c.get_elem_by_name(src)
    elif case["srccase"] == "lower":
        src = src.lower()
    low = all(x == x.lower() for x in (p, n))
    if o == "node" or o.startswith("label") and not low:
        out, gnd = p, True
    elif o == "tuple":
        out, gnd = (p, n), False
    elif o == "tuple0":
        out, gnd = (p, c.gnd), True
    elif o == "label":
        out, gnd = "V(%s)" % p, True
    elif o == "label2":
        out, gnd = "V(%s,%s)" % (p, n), False
    else:
        out, src, gnd = None, None, True
    mna = dc_analysis.generate_mna_and_N(c, verbose=0)[0] if case["mna"] else None
    if case["via"] == "poles":
        return case, pz.calculate_poles(c, MNA=mna, outfile=tmp.path("o")), gnd
    if case["via"] == "direct":
        return case, pz.calculate_singularities(c, src, out, MNA=mna, shift=case["shift"], outfile=tmp.path("o")), gnd
    an = a.new_pz(src, out, shift=case["shift"], MNA=mna, x0=None, outfile=tmp.path("o"))
    return case, a.run(c, an)["pz"], gnd


def check_result(sol):
    names = ["p%d" % i for i in range(len(sol.poles))] + ["z%d" % i for i in range(len(sol.zeros))]
    require(list(sol.keys()) == names, "the result's variables are %r", list(sol.keys()))
    for nme, v in zip(names, list(sol.poles) + list(sol.zeros)):
        require(sol[nme] == v and sol.get(nme) == v and nme in sol and sol.units[nme] == "Hz",
                "%s is %r by name, %r in the list (%s)", nme, sol[nme], v, sol.units[nme])
    for l in (sol.poles, sol.zeros):
        require(list(l) == list(np.sort_complex(np.array(l))), "the singularities are not sorted: %r", l)
    if names:
        from ahkab import csvlib
        raw, heads, _, _ = csvlib.load_csv(sol.filename, load_headers=[], verbose=0)
        raw = np.asarray(raw).reshape(-1)
        heads = [h.strip() for h in heads]
        for nme in names:
            z = complex(raw[heads.index("Re(%s)" % nme)], raw[heads.index("Im(%s)" % nme)])
            require(abs(z - sol[nme]) <= 1e-12 * abs(z), "%s is %r in the file, %r in the result", nme, z, sol[nme])


def reference(G, C, b, c, ndyn, log):
    """exact poles and zeros, and perturbed versions; zeros None when the transfer function is null"""
    s0 = Fraction(float("%.3g" % 1e6))
    poles = exact_roots(G, C, ndyn, s0)
    if poles is None or all(circ.cond_scaled(G + w * C) > 1e11 for w in [0.0] + [10.0 ** k for k in range(3, 11)]):
        raise Skip("singular at every frequency")
    rng = np.random.default_rng(7)
    pp = [(exact_roots(perturbed(G, rng, 1e-11), perturbed(C, rng, 1e-11), ndyn, s0), 100) for _ in range(2)]
    zeros = zz = None
    if b is not None:
        A, B = bordered(G, C, b, c)
        zeros = exact_roots(A, B, ndyn, s0)
        if zeros is not None:
            zz = [(exact_roots(perturbed(A, rng, 1e-11), perturbed(B, rng, 1e-11), ndyn, s0), 100) for _ in range(2)]
    return poles, pp, zeros, zz


def judge(sol, poles, pp, zeros, zz, with_zeros, log):
    for rs in (poles, zeros or []):
        wide(rs)
    # a perturbed circuit with other counts: the count rests on an exact cancellation
    if any(t is None or len(t) != len(poles) for t, _ in pp):
        pp = [x for x in pp if x[0] is not None and len(x[0]) == len(poles)]
        log.label("structural poles")
    compare("poles", sol.poles, poles, pp, log)
    if not with_zeros:
        require(len(sol.zeros) == 0, "zeros without an input and an output: %r", sol.zeros)
        return
    if zeros is None:
        require(len(sol.zeros) == 0, "zeros of a null transfer function: %r", sol.zeros)
        log.label("null")
        return
    if any(t is None or len(t) != len(zeros) for t, _ in zz):
        zz = [x for x in zz if x[0] is not None and len(x[0]) == len(zeros)]
        log.label("structural zeros")
    if len(sol.zeros) == 0 and len(zeros) == len(poles):
        pts = test_points(poles + zeros)
        r = [complex(logratio(zeros, s, pts[0])[0] - logratio(poles, s, pts[0])[0]) for s in pts]
        if max(abs(v) for v in r) < 1e-6:
            log.label("flat")
            return
    compare("zeros", sol.zeros, zeros, zz, log)


def check_linear(case, log):
    ref = circ.Ref(nl.low(case) if case["via"] == "netlist" else case)
    ndyn = sum(e["k"] in "CL" for e in case["elems"])
    log.label("via:" + case["via"], "out:" + case["outform"])
    with nl.Scratch() as tmp:
        # the reference first: circuits whose equations are singular are left out
        d = nl.low(case) if case["via"] == "netlist" else case
        p, n = case["out"] if case["via"] != "netlist" else [x.lower() for x in case["out"]]
        wz = case["outform"] != "none" and case["via"] != "poles"
        b = c = None
        gndref = case["outform"] in ("node", "label", "tuple0") or \
            (case["via"] != "netlist" and case["outform"] == "label2" and any(x != x.lower() for x in case["out"]))
        if wz:
            sid = case["source"].upper()
            b = ref.b(lambda e: 1.0 if e["id"].upper() == sid else 0.0)
            c = np.zeros(ref.n)
            if p != "0":
                c[ref.v(p)] += 1
            if not gndref and n != "0":
                c[ref.v(n)] -= 1
        poles, pp, zeros, zz = reference(ref.G, ref.C, b, c, ndyn, log)
        for rs in (poles, zeros or []):
            wide(rs)
        if zeros is not None and transfer(ref.G, ref, b, c) < 1e-9:
            # null but for the rounding of the elements' sums
            raise Skip("weak transfer")
        d, sol, g = run_pz(case, tmp)
        require(not wz or g == gndref, "harness: output form")
        check_result(sol)
        judge(sol, poles, pp, zeros, zz, wz, log)
        log.label("poles:%d" % len(poles))
        if zeros is not None:
            log.label("zeros:%d" % len(zeros))
        if 0j in poles:
            log.label("pole at 0")
        if any(r.real > 0 for r in poles):
            log.label("unstable")
        for k in circ.kinds(case):
            log.label("has:" + k)
        log.trivial = len(poles) < 2 and not zeros


BASE = circ.linear_desc(max_nodes=4, max_extra=5, couplings=False, dc=circ.mag(-1, 0, signed=True),
                        rvals=circ.mag(2, 5), caps=CAPS, inds=INDS, extra_kinds=["R", "C", "C", "C", "RL", "G"])


@st.composite
def nonlinear_case(draw):
    d = draw(c02.add_devices(draw(BASE), draw(st.sampled_from([["D"], ["M"], ["E"], ["D", "M"]])), 1, 3))
    d["x0"] = draw(st.sampled_from(["op", "obj", "array", "own", "mna"]))
    nodes = circ.nodes_of(d)
    d["source"] = draw(st.sampled_from([e["id"] for e in d["elems"] if e["k"] in "VI"]))
    d["out"] = draw(st.sampled_from(nodes))
    if d["x0"] == "own":
        d["point"] = [draw(st.integers(-60, 60)) / 100.0 for _ in range(circ.Ref(d).n)]
    return d


def check_nonlinear(case, log):
    from ahkab import options, pz, results, dc_analysis
    options.dc_max_nr_iter = 400
    a = circ.sut()
    ref = circ.Ref(case)
    fresh = circ.build(case)
    log.label("x0:" + case["x0"])
    if case["x0"] == "own":
        vals = {key.upper(): v for (_, key), v in zip(ref.names(), case["point"])}
        order = results.op_solution(np.zeros((ref.n, 1)), np.zeros((ref.n, 1)), fresh, None, 0).keys()
        x0 = np.array([[vals[k.upper()]] for k in order])
        V = {n: vals[("V" + n).upper()] for n in ref.nodes}
    else:
        op = a.run(circ.build(case), a.new_op(verbose=0))["op"]
        if op is None:
            raise Skip("no operating point")
        x0 = op if case["x0"] == "obj" else op.asarray()
        V = {n: float(np.asarray(op["V" + n]).reshape(-1)[0]) for n in ref.nodes}
    V["0"] = 0.0
    gs = c05.conductances(case, V, fresh)
    if gs is None:
        raise Skip("outside of the models' domain, or on a corner of them")
    G, dG = ref.G.copy(), np.zeros(ref.G.shape)
    for (r, c_, g), (_, _, de) in zip(*gs):
        if r != "0" and c_ != "0":
            i, k = ref.idx[("v", r)], ref.idx[("v", c_)]
            G[i, k] += g
            dG[i, k] += de
    sid = case["source"].upper()
    b = ref.b(lambda e: 1.0 if e["id"].upper() == sid else 0.0)
    c = np.zeros(ref.n)
    c[ref.v(case["out"])] = 1
    ndyn = sum(e["k"] in "CL" for e in case["elems"])
    poles, pp, zeros, zz = reference(G, ref.C, b, c, ndyn, log)
    for rs in (poles, zeros or []):
        wide(rs)
    # how far the uncertainty of the conductances moves the singularities
    s0 = Fraction(10) ** 6
    rng = np.random.default_rng(11)
    for _ in range(2):
        G2 = G + dG * rng.choice([-1, 1], size=G.shape)
        t = exact_roots(G2, ref.C, ndyn, s0)
        if t is None or len(t) != len(poles):
            raise Skip("the count depends on rounding")
        pp.append((t, 2))
        A, B = bordered(G2, ref.C, b, c)
        t = exact_roots(A, B, ndyn, s0)
        if (t is None) != (zeros is None) or t is not None and len(t) != len(zeros):
            raise Skip("the count depends on rounding")
        if zz is not None:
            zz.append((t, 2))
    if zeros is None:
        raise Skip("null transfer function")
    # transfers that rest on the leakage of a device are left to rounding
    if transfer(G, ref, b, c) < 1e-4:
        raise Skip("weak transfer")
    with nl.Scratch() as tmp:
        if case["x0"] == "op":
            cc = circ.build(case)
            r = a.run(cc, [a.new_op(verbose=0), a.new_pz(case["source"], case["out"], outfile=tmp.path("o"))])
            sol = r["pz"]
        elif case["x0"] == "mna":
            cc = circ.build(case)
            # the Jacobian of the simulator itself: the AC analysis' one
            from ahkab import ac
            mna = dc_analysis.generate_mna_and_N(cc, verbose=0)[0]
            mna[1:, 1:] += ac._generate_J(x0, cc, mna.shape[0] - 1)
            sol = pz.calculate_singularities(cc, case["source"], (case["out"], "0"), MNA=mna, outfile=tmp.path("o"))
        elif case["x0"] == "obj":
            sol = a.run(circ.build(case), a.new_pz(case["source"], case["out"], x0=x0, outfile=tmp.path("o")))["pz"]
        else:
            sol = pz.calculate_singularities(circ.build(case), case["source"], case["out"], x0=x0, outfile=tmp.path("o"))
        check_result(sol)
        judge(sol, poles, pp, zeros, zz, True, log)
    for k in set(e["k"] for e in case["elems"]) & set("DM"):
        log.label("has:" + k)
    log.label("poles:%d" % len(poles), "zeros:%d" % len(zeros))
    log.trivial = len(poles) < 2 and not zeros


TESTS = [
    Test("linear", linear_case(), check_linear, 1600, 40000, cpu_s=120),
    Test("nonlinear", nonlinear_case(), check_nonlinear, 500, 12000, cpu_s=120),
]
