"""C21: equivalent circuits give equivalent results."""
import math
from types import SimpleNamespace

import numpy as np
from hypothesis import strategies as st

from ..core import Test, Skip, fail, require
from .. import circ, nl, rewrite, tfun
from . import c02, c04, c05, c06, c09

PID = "C21"
TITLE = "Equivalent circuits give equivalent results in every analysis"
RULE = ("a case is non-trivial when at least one rewriting other than a reordering or a renaming applied and some "
        "unknown compared is larger than 1e-9")
ASSUMPTIONS = [
    "options.gmin and options.cmin, which are added to every node whatever the circuit, are set to 0 for the exact relations",
    "both results are allowed the rounding a backward error of 1e-12 makes in either circuit; ill-conditioned circuits are left out",
    "nonlinear circuits are those with one solution: diodes among resistors and sources, transistors with the gate, the source and the "
    "bulk held by voltage sources; the solver's tolerances are tightened",
]


# ------------------------------------------------------------------ analyses

def fn_of(u):
    return tfun.fns(u, ["sin", "exp", "sffm", "am", "pulse", "pwl"])


@st.composite
def analysis(draw, d, u, kinds=("tran", "ac", "dc", "tran", "op", "pss")):
    k = draw(st.sampled_from(kinds))
    an = {"t": k}
    if k == "dc":
        s = draw(st.sampled_from([e["id"] for e in d["elems"] if e["k"] in "VI"]))
        f = 1.0 if s[0].upper() == "V" else 1e-3
        start = draw(circ.mag(-1, 0, signed=True))
        an.update(src=s, start=f * start, stop=f * (start + draw(circ.mag(-1, 0))), n=draw(st.integers(2, 6)))
    elif k == "ac":
        f = draw(circ.mag(-2, 1)) / u
        an.update(start=f, stop=f * draw(st.sampled_from([10.0, 100.0, 3.0])), n=draw(st.integers(2, 5)))
    elif k == "pss":
        an.update(h=draw(circ.mag(-2, -1)) * u, n=draw(st.integers(2, 20)), m="brute-force")
    elif k == "tran":
        an.update(h=draw(circ.mag(-2, -1)) * u, n=draw(st.integers(3, 20)), m=draw(st.sampled_from(c06.METHODS)),
                  x0=draw(st.sampled_from(["none", "op"])), t0=draw(st.sampled_from([0.0, 0.0, 1.5])) * u)
    return an


def run(d, an, tk=1.0, src=None, tmp=None):
    """(abscissa, matrix unknowns x points), the abscissa None for an operating point"""
    a = circ.sut()
    ref = circ.Ref(d)
    c = circ.build(d)
    t = an["t"]
    out = tmp.path("out")
    if t == "op":
        sol = a.run(c, a.new_op(outfile=out, verbose=0))["op"]
        if sol is None:
            return None, None
        return None, c06.unpack(ref, sol).reshape(-1, 1)
    if t == "dc":
        k, sid = src
        sol = a.run(c, a.new_dc(k * an["start"], k * an["stop"], an["n"], sid, outfile=out, verbose=0))["dc"]
        if sol is None:
            return None, None
        names, A = c04.matrix(sol, ref)
        rows = {n.upper(): A[i] for i, n in enumerate(names) if i}
        return A[0], np.array([rows[key.upper()] for _, key in ref.names()])
    if t == "ac":
        sol = a.run(c, [a.new_op(outfile=out + "_op", verbose=0),
                        a.new_ac(an["start"] / tk, an["stop"] / tk, an["n"], outfile=out, verbose=0)]).get("ac")
        if sol is None:
            return None, None
        return np.asarray(sol["f"]) * tk, np.array([np.asarray(sol[key]) for _, key in ref.names()])
    if t == "pss":
        sol = a.run(c, a.new_pss(an["h"] * an["n"] * tk, points=an["n"] + 1, method=an["m"], outfile=out, verbose=0)).get("pss")
        if sol is None:
            return None, None
        return np.asarray(sol.get_x()).reshape(-1) / tk, c06.unpack_all(ref, sol)
    x0 = None
    first = []
    if an["x0"] == "op":
        x0 = "op"
        first = [a.new_op(outfile=out + "_op", verbose=0)]
    sol = a.run(c, first + [a.new_tran(tstart=an["t0"] * tk, tstop=an["t0"] * tk + an["n"] * an["h"] * tk, tstep=an["h"] * tk, x0=x0,
                              method=an["m"], use_step_control=False, outfile=out, verbose=0)]).get("tran")
    if sol is None:
        return None, None
    return np.asarray(sol.get_x()).reshape(-1) / tk, c06.unpack_all(ref, sol)


def matrices(d, an, tk):
    """the matrices solved in an analysis"""
    ref = circ.Ref(d)
    if an["t"] in ("op", "dc"):
        return ref, [ref.G]
    if an["t"] == "ac":
        return ref, [ref.G] + [ref.G + 2j * math.pi * f / tk * ref.C for f in (an["start"], an["stop"])]
    h = an["h"] * tk
    if an["t"] == "pss":
        # the circuit followed around the period: the matrix of the whole of it
        n = ref.n
        N = an["n"]
        big = np.kron(np.eye(N), ref.G + ref.C / h) - np.kron(np.roll(np.eye(N), 1, axis=0), ref.C / h)
        if not circ.cond_scaled(big) < 1e7:
            raise Skip("ill-conditioned")
        return ref, [ref.G + ref.C / h]
    ks = [1 / h, 2 / h] if an["m"] == "TRAP" else [1 / h]
    if an["m"].startswith("GEAR"):
        ks += [c06.bdf([-j * h for j in range(q + 1)])[0] for q in range(2, c06.order_of(an["m"]) + 1)]
    return ref, [ref.G] * (an["x0"] == "op") + [ref.G + k * ref.C for k in ks]


def spread(ref, an, tk, delta):
    """how far rounding errors of the size delta in every step of a transient get"""
    h = an["h"] * tk
    rng = np.random.default_rng(5)
    p = c06.order_of(an["m"])
    out = np.array(delta)
    for _ in range(3):
        noise = lambda: delta * (2 * rng.random(ref.n) - 1)
        es, d = [noise()], None
        for k in range(1, an["n"] + 2):
            if an["m"] == "TRAP" and d is not None:
                c1, c0 = 2 / h, -2 / h * es[-1] - d
            elif an["m"].startswith("GEAR"):
                q = min(p, k)
                w = c06.bdf([-j * h for j in range(q + 1)])
                c1, c0 = w[0], sum(w[j] * es[-j] for j in range(1, q + 1))
            else:
                c1, c0 = 1 / h, -es[-1] / h
            e = np.linalg.solve(ref.G + c1 * ref.C, -ref.C @ c0) + noise()
            d = c1 * e + c0
            es.append(e)
            out = np.maximum(out, np.abs(e))
    return 3 * out


def rounding(ref, mats, X, an, src, tk=1.0):
    """what rounding may do to each unknown, over all the points"""
    xm = np.abs(X).max(axis=1)
    if an["t"] == "ac":
        # the first point starts from the operating point
        xm = np.maximum(xm, np.abs(circ.ref_solve(ref.G, ref.b(lambda e: value0(e)))))
    out = np.zeros(ref.n)
    for A in mats:
        if not circ.cond_scaled(A) < 1e9:
            raise Skip("ill-conditioned")
        inv = np.abs(np.linalg.inv(A))
        out = np.maximum(out, 1e-12 * inv @ (np.abs(A) @ xm + np.abs(ref.b(src))))
    return spread(ref, an, tk, out) if an["t"] == "tran" else out


def value0(e):
    if e.get("dc") is not None:
        return e["dc"]
    return tfun.value(e["fn"], 0.0) if e.get("fn") else 0.0


def floors(ref, mats, X):
    """the largest voltage and current met, or made by the other across the circuit's conductances"""
    nn = len(ref.nodes)
    v, i = np.abs(X[:nn]).max(initial=0.0), np.abs(X[nn:]).max(initial=0.0)
    y = max([np.abs(A[:nn, :nn]).max(initial=0.0) for A in mats] + [0.0])
    i2 = max(i, v * y)
    return max(v, i / y if y else 0.0, 1e-3), max(i2, 1e-6)


def compare(case, an, log, tol=1e-7, nonlinear=False):
    with nl.Scratch() as tmp:
        d1, d2, tk = case["d1"], case["d2"], case["tk"]
        if an["t"] == "dc":
            s2 = case["src"].get(an["src"])
            if s2 is None:
                an = {"t": "op"}
        acs = c05.acv if an["t"] == "ac" else (lambda e: e["dc"] or 0.0)
        if not nonlinear:
            ref1, m1 = matrices(d1, an, 1.0)
            ref2, m2 = matrices(d2, an, tk)
            for A in m1 + m2:
                if not circ.cond_scaled(A) < 1e9:
                    raise Skip("ill-conditioned")
        else:
            ref1, ref2 = circ.Ref(d1), circ.Ref(d2)
        t1, X1 = run(d1, an, 1.0, (1.0, an.get("src")), tmp)
        t2, X2 = run(d2, an, tk, case["src"].get(an.get("src")), tmp)
        if X1 is None or X2 is None:
            if nonlinear:
                raise Skip("no solution")
            require(X1 is not None, "the analysis of the first circuit failed: %r", an)
            require(X2 is not None, "the analysis of the rewritten circuit failed: %r", an)
        log.label("an:" + an["t"], *["rw:" + n for n in set(case["names"])])
        require(X1.shape[1] == X2.shape[1], "%s: %d points, %d after the rewriting", an["t"], X1.shape[1], X2.shape[1])
        if t1 is not None:
            if an["t"] == "dc":
                t2 = t2 / s2[0]
            require(np.all(np.abs(t1 - t2) <= 1e-8 * np.abs(t1).max()), "%s: axis %r, after the rewriting %r", an["t"], t1.tolist(), t2.tolist())
        big = 0.0
        if nonlinear:
            r1, r2 = tol * np.abs(X1).max(axis=1), tol * np.abs(X2).max(axis=1)
        else:
            r1, r2 = rounding(ref1, m1, X1, an, acs), rounding(ref2, m2, X2, an, acs, tk)
        nn = len(ref1.nodes)
        if nonlinear:
            sc = [max(1e-2, np.abs(X1[:nn]).max()), max(1e-4, np.abs(X1[nn:]).max(initial=0.0))]
        else:
            sc = floors(ref1, m1, X1)
        for u, comb in case["map"]:
            if comb is None:
                continue
            u = tuple(u)
            want = X1[ref1.idx[u]]
            got = np.zeros_like(want)
            mag = np.zeros(want.shape)
            e = 30 * r1[ref1.idx[u]]
            for k, w in comb:
                j = ref2.idx[tuple(w)]
                got = got + k * X2[j]
                mag = mag + abs(k) * np.abs(X2[j])
                e = e + 30 * abs(k) * r2[j]
            lim = e + tol * np.maximum(np.abs(want), mag) + (1e-9 if not nonlinear else 10 * tol) * sc[u[0] == "i"]
            bad = np.abs(got - want) > lim
            if np.any(bad):
                i = int(np.argmax(bad))
                fail("%s %s: %s at point %d (%r) is %r, in the rewritten circuit (%s) it is %r", an["t"], an.get("m", ""),
                     circ.key_of(u), i, None if t1 is None else t1[i], want[i], ", ".join(case["names"]), got[i])
            big = max(big, np.abs(want).max())
        log.trivial = big <= 1e-9 or not set(case["names"]) - {"permute", "rename_nodes", "rename_elems", "rename_models"}


# ------------------------------------------------------------ linear circuits

def linear(draw, **kw):
    u = draw(st.sampled_from([1e-3, 1e-6]))
    a = dict(max_nodes=5, max_extra=6, caps=circ.mag(-9, -7) if u == 1e-6 else circ.mag(-7, -5), ac=c05.AC,
             inds=circ.mag(-5, -3) if u == 1e-6 else circ.mag(-3, -1), fn=fn_of(u), rvals=circ.mag(1, 4))
    a.update(kw)
    return u, draw(circ.linear_desc(**a))


def no_none(d):
    """sources with a function only have no value for a sweep or an operating point of ours to scale: give them one"""
    for e in d["elems"]:
        if e["k"] in "VI" and e.get("dc") is None:
            e["dc"] = 0.5 if e["k"] == "V" else 5e-4
    return d


@st.composite
def linear_case(draw):
    u, d = linear(draw)
    if draw(st.booleans()):
        d = no_none(d)
    s = rewrite.rewritten(draw, d, rewrite.LINEAR)
    return dict(rewrite.dump(s), d1=d, an=draw(analysis(d, u)))


def set_linear():
    from ahkab import options
    options.gmin = 0.0
    options.cmin = 0.0


def check_linear(case, log):
    set_linear()
    compare(case, case["an"], log)


# ------------------------------------------------------------------ singularities

@st.composite
def pz_case(draw):
    d = draw(c09.linear_case())
    d = {"elems": d["elems"]}
    nodes = circ.nodes_of(d)
    p = draw(st.sampled_from(nodes))
    n = draw(st.sampled_from([x for x in nodes + ["0"] if x != p]))
    s = rewrite.rewritten(draw, d, [f for f in rewrite.LINEAR if f not in (rewrite.twice,)])
    return dict(rewrite.dump(s), d1=d, out=[p, n], source=draw(st.sampled_from([e["id"] for e in d["elems"] if e["k"] in "VI"])))


def check_pz(case, log):
    d1, d2, tk = case["d1"], case["d2"], case["tk"]
    m = {tuple(u): c for u, c in case["map"]}
    tot = {}
    for x, k in zip(case["out"], (1.0, -1.0)):
        if x == "0":
            continue
        if m[("v", x)] is None:
            raise Skip("the output has gone")
        for c, w in m[("v", x)]:
            tot[tuple(w)] = tot.get(tuple(w), 0.0) + k * c
    tot = {w: c for w, c in tot.items() if abs(c) > 1e-12}
    pos = [w for w, c in tot.items() if c > 0]
    neg = [w for w, c in tot.items() if c < 0]
    if len(pos) > 1 or len(neg) > 1 or not pos and not neg:
        raise Skip("the output is no port")
    port = (pos[0][1] if pos else "0", neg[0][1] if neg else "0")
    if case["source"] not in case["src"]:
        raise Skip("the source has gone")
    a = circ.sut()
    ref = circ.Ref(d1)
    b = ref.b(lambda e: 1.0 if e["id"] == case["source"] else 0.0)
    c = np.zeros(ref.n)
    for x, k in zip(case["out"], (1.0, -1.0)):
        if x != "0":
            c[ref.v(x)] += k
    ndyn = sum(e["k"] in "CL" for e in d1["elems"])
    poles, pp, zeros, zz = c09.reference(ref.G, ref.C, b, c, ndyn, log)
    for rs in (poles, zeros or []):
        c09.wide(rs)
    if zeros is None or c09.transfer(ref.G, ref, b, c) < 1e-9:
        raise Skip("weak transfer")
    log.label(*["rw:" + n for n in set(case["names"])])
    with nl.Scratch() as tmp:
        for d, f, prt, src in ((d1, 1.0, case["out"], case["source"]), (d2, tk, port, case["src"][case["source"]][1])):
            ckt = circ.build(d)
            if prt[0] == "0":
                prt = (prt[1], prt[0])
            o = (prt[0], prt[1] if prt[1] != "0" else ckt.gnd)
            sol = a.run(ckt, a.new_pz(src, o, x0=None, outfile=tmp.path("o")))["pz"]
            got = SimpleNamespace(poles=[p * f for p in sol.poles], zeros=[z * f for z in sol.zeros])
            c09.judge(got, poles, pp, zeros, zz, True, log)
    log.trivial = len(poles) < 2 and not zeros


# ----------------------------------------------- superposition and reciprocity

@st.composite
def super_case(draw):
    u, d = linear(draw)
    d = no_none(d)
    srcs = [e["id"] for e in d["elems"] if e["k"] in "VI"]
    an = draw(analysis(d, u, ("tran", "ac", "op")))
    if len(srcs) < 2:
        d["elems"] = list(d["elems"])
        d["elems"].insert(0, {"k": "I", "id": circ.ident(draw, "I", {e["id"].upper() for e in d["elems"]}, True), "n": ["0", circ.nodes_of(d)[-1]], "dc": 2e-3, "ac": 1e-3})
        srcs = [e["id"] for e in d["elems"] if e["k"] in "VI"]
    return {"d": d, "a": [(i + draw(st.integers(0, 1))) % 2 == 0 for i in range(len(srcs))], "k": [draw(st.sampled_from([1.0, -1.0, 2.0, .5])) for _ in range(2)], "an": an}


def check_super(case, log):
    set_linear()
    d, an = case["d"], case["an"]
    srcs = [e["id"] for e in d["elems"] if e["k"] in "VI"]
    on = {s for s, x in zip(srcs, case["a"]) if x}

    def part(f):
        return {"elems": [rewrite.scale_source(e, f(e["id"])) if e["k"] in "VI" else e for e in d["elems"]]}

    ka, kb = case["k"]
    ref, mats = matrices(d, an, 1.0)
    for A in mats:
        if not circ.cond_scaled(A) < 1e9:
            raise Skip("ill-conditioned")
    with nl.Scratch() as tmp:
        Xs = []
        for f in (lambda s: 1.0 if s in on else 0.0, lambda s: 0.0 if s in on else 1.0, lambda s: ka if s in on else kb):
            t, X = run(part(f), an, 1.0, None, tmp)
            require(X is not None, "the analysis failed: %r", an)
            Xs.append(X)
    log.label("an:" + an["t"])
    want = ka * Xs[0] + kb * Xs[1]
    big = np.maximum(np.maximum(np.abs(Xs[0]), np.abs(Xs[1])), np.abs(Xs[2]))
    e = rounding(ref, mats, 2 * big, an, c05.acv if an["t"] == "ac" else (lambda e: e["dc"] or 0.0))
    scv, sci = floors(ref, mats, big)
    for u, key in ref.names():
        i = ref.idx[u]
        lim = 100 * e[i] + 1e-7 * big[i] + 1e-9 * (scv if u[0] == "v" else sci)
        bad = np.abs(want[i] - Xs[2][i]) > lim
        if np.any(bad):
            j = int(np.argmax(bad))
            fail("%s %s: %s at point %d is %r with all the sources, the sum over two groups of them is %r",
                 an["t"], an.get("m", ""), key, j, Xs[2][i][j], want[i][j])
    log.trivial = not on or len(on) == len(srcs) or min(np.abs(Xs[0]).max(), np.abs(Xs[1]).max()) < 1e-9


@st.composite
def recip_case(draw):
    u, d = linear(draw, controlled=False, fn=None, ac=None)
    d = {"elems": [dict(e, dc=0.0) if e["k"] in "VI" else e for e in d["elems"]]}
    nodes = circ.nodes_of(d)

    def port():
        return list(draw(st.permutations(nodes + ["0"])))[:2]

    return {"d": d, "p": port(), "q": port(), "an": draw(analysis(d, u, ("tran", "ac", "op"))), "fn": draw(tfun.sin_fn(u))}


def check_recip(case, log):
    set_linear()
    d, an = case["d"], case["an"]
    ref, mats = matrices(d, an, 1.0)
    for A in mats:
        if not circ.cond_scaled(A) < 1e9:
            raise Skip("ill-conditioned")
    with nl.Scratch() as tmp:
        vs = []
        for here, there in ((case["p"], case["q"]), (case["q"], case["p"])):
            src = {"k": "I", "id": "IPORT", "n": here[::-1], "dc": 1e-3, "ac": 1e-3}
            if an["t"] == "tran":
                src["fn"] = dict(rewrite.scale_fn(case["fn"], 1e-3))
            t, X = run({"elems": [src] + d["elems"]}, an, 1.0, None, tmp)
            require(X is not None, "the analysis failed: %r", an)
            r = circ.Ref({"elems": [src] + d["elems"]})
            v = [X[r.v(x)] if x != "0" else 0 * X[0] for x in there]
            e = rounding(r, matrices({"elems": [src] + d["elems"]}, an, 1.0)[1], X, an,
                         c05.acv if an["t"] == "ac" else (lambda e: e["dc"] or 0.0))
            vs.append((v[0] - v[1], np.abs(X[:len(r.nodes)]).max(), sum(e[r.v(x)] for x in there if x != "0")))
    log.label("an:" + an["t"])
    lim = 1e-7 * max(vs[0][1], vs[1][1]) + 100 * (vs[0][2] + vs[1][2]) + 1e-12
    bad = np.abs(vs[0][0] - vs[1][0]) > lim
    if np.any(bad):
        j = int(np.argmax(bad))
        fail("%s %s: a current at %r makes %r at %r (point %d), the same current at %r makes %r at %r", an["t"], an.get("m", ""), case["p"],
             vs[0][0][j], case["q"], j, case["q"], vs[1][0][j], case["p"])
    log.trivial = case["p"] == case["q"] or np.abs(vs[0][0]).max() < 1e-9


# --------------------------------------------------------- nonlinear circuits

@st.composite
def nonlinear_case(draw):
    u = 1e-6
    d = draw(circ.linear_desc(max_nodes=4, max_extra=5, controlled=False, couplings=False, dc=circ.mag(-1, 0, signed=True),
                              caps=circ.mag(-9, -7), inds=circ.mag(-5, -3), rvals=circ.mag(2, 4), ac=c05.AC_REAL,
                              fn=st.one_of(tfun.sin_fn(u), tfun.exp_fn(u))))
    no_none(d)
    for e in d["elems"]:
        if e.get("fn"):
            e["fn"] = rewrite.scale_fn(e["fn"], .2 if e["k"] == "V" else .2e-3)
    nodes = circ.nodes_of(d) + ["0"]
    used = {e["id"].upper() for e in d["elems"]}
    models = []
    kinds = draw(st.lists(st.sampled_from("DDMME"), min_size=1, max_size=3))
    for j, k in enumerate(kinds):
        if k == "D":
            p = {"IS": draw(circ.mag(-15, -12)), "N": draw(st.sampled_from([1.0, 1.0, 1.5]))}
            models.append({"type": "diode", "name": "m%d" % j, "p": p})
            a, b = draw(st.permutations(nodes))[:2]
            mid = "dd%d" % j
            d["elems"].append({"k": "R", "id": circ.ident(draw, "R", used, True), "n": [a, mid], "v": draw(circ.mag(2, 4))})
            e = {"k": "D", "id": circ.ident(draw, "D", used), "n": [mid, b], "m": "m%d" % j}
            ar = draw(st.sampled_from([None, 2.0, 4.0]))
            if ar:
                e["area"] = ar
            d["elems"].append(e)
        else:
            ty = draw(st.sampled_from("np"))
            s = 1 if ty == "n" else -1
            p = {"TYPE": ty, "KP": draw(circ.mag(-5, -4)), "VTO": s * draw(st.sampled_from([.3, .5, .8]))}
            if k == "M":
                p.update(LAMBDA=draw(st.sampled_from([0.0, .02, .05])), GAMMA=draw(st.sampled_from([.2, .4])), PHI=.7)
            models.append({"type": "mosq" if k == "M" else "ekv", "name": "m%d" % j, "p": p})
            held = []
            for v in (draw(st.sampled_from([.6, 1.0, 2.0, 3.0, 0.0])), draw(st.sampled_from([0.0, 0.0, .5])), 0.0):
                if v == 0:
                    held.append("0")
                    continue
                x = "h%d%d" % (j, len(held))
                d["elems"].append({"k": "V", "id": circ.ident(draw, "V", used, True), "n": [x, "0"], "dc": s * v,
                                   "ac": draw(st.sampled_from([0.0, 1.0]))})
                held.append(x)
            dn = draw(st.sampled_from(nodes[:-1]))
            d["elems"].append({"k": "M", "id": circ.ident(draw, "M", used), "n": [dn, held[0], held[1], "0"], "m": "m%d" % j,
                               "w": draw(circ.mag(-6, -5)), "l": 1e-6 if k == "M" else 1e-5, "mult": draw(st.sampled_from([1, 1, 2, 3]))})
    d["models"] = models
    s = rewrite.rewritten(draw, d, rewrite.NONLINEAR)
    an = draw(analysis(d, u, ("dc", "ac", "tran", "op")))
    return dict(rewrite.dump(s), d1=d, an=an)


def check_nonlinear(case, log):
    from ahkab import options
    options.vea, options.ver, options.iea, options.ier = 1e-9, 1e-7, 1e-12, 1e-7
    options.dc_max_nr_iter = 1000
    options.gmin = 0.0
    options.cmin = 0.0
    compare(case, case["an"], log, tol=1e-5, nonlinear=True)
    log.label(*["has:" + k for k in circ.kinds(case["d1"])])


TESTS = [
    Test("linear", linear_case(), check_linear, 3600, 80000, cpu_s=60),
    Test("poles_zeros", pz_case(), check_pz, 700, 15000, cpu_s=60),
    Test("superposition", super_case(), check_super, 700, 12000, cpu_s=60),
    Test("reciprocity", recip_case(), check_recip, 700, 12000, cpu_s=60),
    Test("nonlinear", nonlinear_case(), check_nonlinear, 1200, 20000, cpu_s=120),
]
