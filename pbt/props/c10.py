"""C10: symbolic analysis agrees with the circuit's equations for every value of its symbols."""
import os
import warnings
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from ..core import CaseTimeout, Test, Skip, fail, require
from .. import circ, nl

PID = "C10"
TITLE = "Symbolic results agree with the numeric circuit when values are substituted"
RULE = ("a case is non-trivial when at least two variables depend on two or more symbols each; "
        "the reference is the numeric solution of the circuit's own equations at random rational symbol values "
        "and a complex frequency")
ASSUMPTIONS = [
    "a coupling's symbol (K1) stands for the mutual inductance, as its numeric counterpart in the equations does",
    "transistors are their transconductance gm_<id> from gate to source and, when asked for, r0_<id>; diodes are g<id>",
    "circuits that are singular at the substituted values are left out",
]

VAL = circ.mag(0, 0)


@st.composite
def desc_case(draw, tf):
    d = draw(circ.linear_desc(max_nodes=3 if tf else 4, max_extra=3 if tf else 4, caps=VAL, inds=VAL, rvals=VAL,
                              dc=circ.mag(0, 0, signed=True),
                              extra_kinds=["R", "R", "C", "C", "RL", "I", "RV", "G", "F", "E", "H"]))
    nodes = circ.nodes_of(d)
    used = {e["id"].upper() for e in d["elems"]}
    models = []
    for kind in draw(st.sampled_from([[], [], ["D"], ["M"], ["M"], ["D", "M"]])):
        nn = [draw(st.sampled_from(nodes + ["0"])) for _ in range(4)]
        if kind == "D":
            if nn[0] == nn[1]:
                nn[1] = "0" if nn[0] != "0" else nodes[0]
            d["elems"].append({"k": "D", "id": circ.ident(draw, "D", used), "n": nn[:2], "m": "dm"})
            models.append({"type": "diode", "name": "dm", "p": {"IS": 1e-14}})
        else:
            if nn[0] == nn[2]:
                nn[2] = "0" if nn[0] != "0" else nodes[0]
            t = draw(st.sampled_from(["mosq", "ekv"]))
            d["elems"].append({"k": "M", "id": circ.ident(draw, "M", used), "n": nn, "m": "mm", "w": 1e-5, "l": 1e-6})
            models.append({"type": t, "name": "mm", "p": {"TYPE": draw(st.sampled_from("np")), "VTO": 0.5, "KP": 5e-5}})
    d["models"] = models
    if draw(st.booleans()):
        d["elems"] = draw(st.permutations([e for e in d["elems"] if e["k"] != "K"])) + [e for e in d["elems"] if e["k"] == "K"]
    nreact = sum(e["k"] in "CL" for e in d["elems"])
    if tf and nreact > 2:
        keep = {e["id"] for e in [e for e in d["elems"] if e["k"] in "CL"][:2]}
        for e in d["elems"]:
            if e["k"] in "CL" and e["id"] not in keep:
                e["k"] = "R"
                i = 1
                while "R%d" % i in used:
                    i += 1
                e["id"] = "R%d" % i
                used.add(e["id"])
                e.pop("ic", None)
        ls = {e["id"].upper() for e in d["elems"] if e["k"] == "L"}
        d["elems"] = [e for e in d["elems"] if e["k"] != "K" or all(x.upper() in ls for x in e["l"])]
    d["ac"] = draw(st.integers(0, 3)) > 0
    d["r0s"] = draw(st.booleans())
    d["gs"] = draw(st.booleans())
    d["manual"] = draw(st.integers(0, 4)) == 0
    d["via"] = draw(st.sampled_from(["api", "api", "direct", "netlist"]))
    srcs = [e["id"] for e in d["elems"] if e["k"] in "VI"]
    d["source"] = draw(st.sampled_from(srcs)) if tf else None
    d["case"] = draw(st.sampled_from(["as", "lower", "upper"]))
    # numeric elements
    d["num"] = []
    if not tf and d["via"] != "netlist":
        d["num"] = [e["id"] for e in d["elems"] if e["k"] not in "DM" and draw(st.integers(0, 7)) == 0]
    # substitutions
    d["subs"] = {}
    if d["via"] != "netlist":
        syms = {}
        for e in d["elems"]:
            for nm in symbols_of(e, d["r0s"]):
                if nm[0].upper() not in "VI" or nm != d["source"]:
                    syms.setdefault(e["k"] + nm[:2] if e["k"] in "DM" else e["k"], []).append(nm)
        for k in sorted(syms):
            for nm in syms[k]:
                if draw(st.integers(0, 4)) == 0:
                    to = [x for x in syms[k] if x != nm] + [syms[k][0][:3 if k[0] in "M" else 1] + "new"]
                    t = draw(st.sampled_from(to))
                    if k[0] == "D":
                        t = draw(st.sampled_from([x for x in syms[k] if x != nm] or [nm]))
                    if t != nm:
                        d["subs"][nm] = t
    d["seed"] = draw(st.integers(0, 10 ** 6))
    return d


def symbols_of(e, r0s):
    if e["k"] == "D":
        return ["g" + e["id"]]
    if e["k"] == "M":
        return ["gm_" + e["id"]] + (["r0_" + e["id"]] if r0s else [])
    return [e["id"]]


def numeric_value(case, e):
    if e["k"] == "K":
        ls = {x["id"].upper(): x["v"] for x in case["elems"] if x["k"] == "L"}
        return e["v"] * (ls[e["l"][0].upper()] * ls[e["l"][1].upper()]) ** .5
    return e["dc"] if e["k"] in "VI" else e["v"]


def resolve(case, rng):
    """(values of the symbols by name, the circuit with these values, the symbol of every source)"""
    env = {}
    kind = {}
    for e in case["elems"]:
        for nm in symbols_of(e, True):
            kind[nm.upper()] = e["k"]
    names = set(kind) | {v.upper() for v in case["subs"].values()}
    for nm in sorted(names):
        neg = kind.get(nm, "R") in "VIEGFH" and rng.random() < .4
        f = Fraction(rng.randint(300, 3000), rng.choice([997, 1009, 1013]))
        if kind.get(nm, "") == "K" or nm[0] == "K":
            f = f / 20
        env[nm] = -f if neg else f
    subs = {k.upper(): v.upper() for k, v in case["subs"].items()}
    num = {x.upper() for x in case["num"]}
    symbol = {}

    def val(nm, e):
        u = nm.upper()
        if u in num:
            symbol[u] = None
            return float(numeric_value(case, e))
        symbol[u] = subs.get(u, u)
        return float(env[symbol[u]])
    elems = []
    for e in case["elems"]:
        e2 = dict(e)
        if e["k"] == "D":
            e2 = {"k": "R", "id": "R@" + e["id"], "n": e["n"], "v": 1 / val("g" + e["id"], e)}
        elif e["k"] == "M":
            n = e["n"]
            e2 = {"k": "G", "id": "G@" + e["id"], "n": [n[0], n[2], n[1], n[2]], "v": val("gm_" + e["id"], e)}
            if case["r0s"]:
                elems.append({"k": "R", "id": "R@" + e["id"], "n": [n[0], n[2]], "v": val("r0_" + e["id"], e)})
        elif e["k"] in "VI":
            e2["dc"] = val(e["id"], e)
        elif e["k"] != "K":
            e2["v"] = val(e["id"], e)
        elems.append(e2)
    vals = {e["id"].upper(): e["v"] for e in elems if e["k"] == "L"}
    for e in elems:
        if e["k"] == "K":
            m = val(e["id"], e)
            e["v"] = m / (vals[e["l"][0].upper()] * vals[e["l"][1].upper()]) ** .5
    # every node of the circuit, also those a device only touches with its gate or bulk
    return env, {"elems": elems}, symbol


class RefAll(circ.Ref):
    """with the unknowns of nodes that only devices touch"""

    def __init__(self, desc, nodes):
        self._nodes = nodes
        extra = [x for x in nodes if x not in circ.nodes_of(desc)]
        d = dict(desc, elems=desc["elems"] + [{"k": "G", "id": "G@@%d" % i, "n": [x, x, x, x], "v": 0.0}
                                              for i, x in enumerate(extra)])
        circ.Ref.__init__(self, d)


def evaluate(expr, env, sval):
    """the value of an expression, its symbols looked up by name"""
    import sympy
    m = {}
    for sy in expr.free_symbols:
        if sy.name == "s":
            m[sy] = sval
        else:
            require(sy.name.upper() in env and sy.name == sy.name.upper(), "the result has the unknown symbol %s: %s", sy, expr)
            m[sy] = sympy.Rational(env[sy.name].numerator, env[sy.name].denominator)
    v = sympy.sympify(expr).xreplace(m)
    return complex(v.evalf(25)) if v.is_number and v not in (sympy.nan, sympy.zoo) else None


def run_symbolic(case, tmp):
    from ahkab import options, symbolic
    a = circ.sut()
    options.symb_formulate_with_gs = case["gs"]
    options.symb_sympy_manual_solver = case["manual"]
    src = case["source"]
    if src is not None:
        src = {"as": src, "lower": src.lower(), "upper": src.upper()}[case["case"]]
    if case["via"] == "netlist":
        from ahkab import netlist_parser as npar
        args = []
        if src:
            args.append("tf=" + src)
        args.append("ac=%d" % case["ac"])
        if case["r0s"]:
            args.append("r0s=1")
        text = "\n".join(["symbolic case"] + nl.lines(nl.low(case)) + [".symbolic " + " ".join(args), ".end", ""])
        c, directives, _ = npar.parse_circuit(tmp.write("c.ckt", text))
        ans = npar.parse_analysis(c, directives)
        require(len(ans) == 1, "one .symbolic line gave the analyses %r", ans)
        return a.run(c, dict(ans[0], outfile=tmp.path("o"), verbose=0))["symbolic"]
    c = circ.build(case)
    for x in case["num"]:
        c.get_elem_by_name(x).is_symbolic = False
    if case["via"] == "direct":
        return symbolic.symbolic_analysis(c, source=src, ac_enable=case["ac"], r0s=case["r0s"],
                                          subs=dict(case["subs"]) or None, outfile=tmp.path("o"), verbose=0)
    an = a.new_symbolic(source=src, ac_enable=case["ac"], r0s=case["r0s"], subs=dict(case["subs"]) or None,
                        outfile=tmp.path("o"))
    return a.run(c, an)["symbolic"]


def key_of(u):
    return ("V" + u[1]).upper() if u[0] == "v" else "I[%s]" % u[1].upper()


def container(sol, names, log):
    from ahkab import results
    import pickle
    require(sorted(sol.keys()) == sorted(names) and len(sol) == len(names),
            "the variables are %r, expected %r", sorted(sol.keys()), sorted(names))
    items = dict(sol.items())
    pairs = [(k, v) for k, v in sol]
    require(dict(pairs) == items and len(pairs) == len(items), "iteration gives %r, items() %r", pairs, items)
    require(list(sol.values()) == [items[k] for k in sol.keys()], "values() %r do not go with keys() %r", sol.values(), sol.keys())
    for nme in names:
        for alt in (nme, nme.lower(), nme.upper()):
            require(alt in sol and sol.has_key(alt) and sol[alt] is sol.get(alt) and sol[alt] == items[nme],
                    "%s is not found as %s", nme, alt)
    require("VBOGUS" not in sol and sol.get("VBOGUS", 3) == 3, "a bogus variable is in the result")
    str(sol)
    require(sol.filename is not None and os.path.isfile(sol.filename), "no result file %r", sol.filename)
    back = results.symbolic_solution.load(sol.filename)
    require(dict(back.items()) == items, "the saved result is %r, the result %r", dict(back.items()), items)


def dyn(case, elems, ref, sval):
    return ref.G + sval * ref.C if case["ac"] else ref.G


def check_case(case, log):
    try:
        check_one(case, log)
    except CaseTimeout:
        # the computer algebra system takes its time on some circuits
        raise Skip("too long")


def check_one(case, log):
    import random
    import sympy
    rng = random.Random(case["seed"])
    view = nl.low(case) if case["via"] == "netlist" else case
    env, elems, symbol = resolve(view, rng)
    ref = RefAll(elems, circ.nodes_of(view))
    # a device's bulk or gate may be a node nothing else touches
    spts = [sympy.Rational(rng.randint(-900, 900), 997) + sympy.I * sympy.Rational(rng.randint(100, 2000), 991) for _ in range(3)]
    systems = []
    for sp in spts:
        A = dyn(case, elems, ref, complex(sp))
        if circ.cond_scaled(A) > 1e7:
            raise Skip("singular")
        systems.append(A)
    b = ref.b(lambda e: e["dc"])
    log.label("via:" + case["via"], "ac" if case["ac"] else "dc")
    with nl.Scratch() as tmp, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sol, tfs = run_symbolic(case, tmp)
        names = [key_of(u) for u in ref.idx]
        container(sol, names, log)
        many = 0
        for u, key in zip(ref.idx, names):
            e = sympy.sympify(sol[key])
            free = {x.name for x in e.free_symbols}
            for x in free - {"s"}:
                require(sol.as_symbol(x.lower()) in e.free_symbols or x in names, "as_symbol(%r) is not the symbol in %s", x, e)
            require(case["ac"] or "s" not in free, "a DC result depends on s: %s", e)
            live = {v for v in symbol.values() if v}
            require(free - {"s"} <= live, "%s depends on %r, the circuit's symbols are %r", key, free, live)
            many += len(free) >= 2
        for sp, A in zip(spts, systems):
            x = np.linalg.solve(A, b)
            big = max(np.abs(x).max(), 1e-3)
            for u, key in zip(ref.idx, names):
                got = evaluate(sympy.sympify(sol[key]), env, sp)
                want = complex(x[ref.idx[u]])
                require(got is not None and abs(got - want) <= 1e-7 * abs(want) + 1e-8 * big,
                        "%s = %s is %r for %r at s = %s, the circuit equations give %r", key, sol[key], got,
                        {k: str(v) for k, v in env.items()}, sp, want)
        if case["source"] is None:
            require(tfs is None, "transfer functions without a source: %r", tfs)
        else:
            check_tf(case, view, ref, env, symbol, spts, systems, names, tfs, log)
    for k in circ.kinds(case):
        log.label("has:" + k)
    if case["subs"]:
        log.label("subs")
    if case["num"]:
        log.label("numeric elements")
    log.trivial = many < 2


def poly_roots(expr, s):
    import sympy
    p = sympy.Poly(expr, s)
    if p.degree() < 1:
        return []
    sqf = sympy.Poly(sympy.sqf_part(p.as_expr()), s) if p.degree() > 1 else p
    return [complex(r) for r in sqf.nroots(n=20, maxsteps=200)]


def check_tf(case, view, ref, env, symbol, spts, systems, names, tfs, log):
    import sympy
    sname = case["source"].upper()
    require(tfs is not None, "no transfer functions")
    keys = ["%s/%s" % (n, sname) for n in names]
    container(tfs, keys, log)
    hit = lambda e: 1.0 if symbol.get(e["id"].upper()) == sname else 0.0
    b = ref.b(hit)
    for u, key in zip(ref.idx, keys):
        t = tfs[key]
        require(sorted(t) == ["gain", "gain0", "poles", "zeros"], "the entries of %s are %r", key, sorted(t))
        gain = sympy.sympify(t["gain"])
        for sp, A in zip(spts, systems):
            x = np.linalg.solve(A, b)
            want = complex(x[ref.idx[u]])
            got = evaluate(gain, env, sp)
            require(got is not None and abs(got - want) <= 1e-7 * abs(want) + 1e-8 * max(np.abs(x).max(), 1e-3),
                    "the gain %s = %s is %r at s = %s, the circuit equations give %r", key, gain, got, sp, want)
        s = sympy.Symbol("s", complex=True)
        if circ.cond_scaled(ref.G) < 1e7:
            x = np.linalg.solve(ref.G, b)
            want = complex(x[ref.idx[u]])
            got = evaluate(sympy.sympify(t["gain0"]), env, sympy.Integer(0))
            require(got is not None and abs(got - want) <= 1e-7 * abs(want) + 1e-8 * max(np.abs(x).max(), 1e-3),
                    "the DC gain %s = %s is %r, the circuit equations give %r", key, t["gain0"], got, want)
        m = {x: sympy.Rational(env[x.name].numerator, env[x.name].denominator) for x in gain.free_symbols if x.name != "s"}
        g = sympy.cancel(sympy.nsimplify(gain.xreplace(m), rational=True))
        num, den = sympy.fraction(g)
        for what, poly in (("poles", den), ("zeros", num)):
            want = poly_roots(poly, s) if poly != 0 else []
            got = [evaluate(sympy.sympify(r), env, sympy.Integer(0)) for r in t[what]]
            require(None not in got, "the %s of %s are %r", what, key, t[what])
            sc = max([abs(w) for w in want + got] + [1e-3])
            for w in want:
                require(any(abs(w - h) <= 1e-6 * sc for h in got), "%s = %s: the %s are %r, i.e. %r: %r is missing",
                        key, gain, what, t[what], got, w)
            for h in got:
                require(any(abs(w - h) <= 1e-6 * sc for w in want), "%s = %s: the %s are %r, i.e. %r, expected %r",
                        key, gain, what, t[what], got, want)
            if want:
                log.label(what)


TESTS = [
    Test("solve", desc_case(False), check_case, 350, 12000, cpu_s=6),
    Test("transfer", desc_case(True), check_case, 320, 8000, cpu_s=6),
]
