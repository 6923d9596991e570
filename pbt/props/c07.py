"""C07: transient initial conditions are honoured as requested."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from ..core import Test, Skip, fail, require
from .. import circ, nl, tfun
from . import c02, c06

PID = "C07"
RULE = "the state asked for is not all zeros and the transient took its first steps"
ASSUMPTIONS = [
    "results start with the first step after tstart: the state requested is read from the result's start_op and from what the first steps evolve from",
    "initial conditions of elements are checked where they can all be met (they form no loop)",
]

vals = st.one_of(st.sampled_from([0.0, 0.0, 1.0, -1.0]), circ.mag(-2, 1, signed=True))


@st.composite
def case(draw):
    u = draw(st.sampled_from([1e-3, 1e-6]))
    kk = ["sin", "exp", "pulse"]
    d = draw(circ.linear_desc(max_nodes=5, max_extra=7, caps=circ.mag(-9, -7) if u == 1e-6 else circ.mag(-7, -5),
                              inds=circ.mag(-5, -3) if u == 1e-6 else circ.mag(-3, -1), rvals=circ.mag(1, 4),
                              fn=tfun.fns(u, kk), ics=st.one_of(st.none(), vals, vals),
                              extra_kinds=["R", "C", "C", "C", "C", "RL", "RV", "I", "G"]))
    d["mode"] = draw(st.sampled_from(["none", "op", "op+ic", "op+ic", "icmod", "array", "names", "names", "names"]))
    d["via"] = draw(st.sampled_from(["api", "api", "netlist"])) if d["mode"] not in ("icmod", "array") else "api"
    if d["via"] == "netlist":
        if len(d["elems"]) < 2:
            # (the front end refuses smaller circuits)
            d["elems"].append({"k": "R", "id": "Rz", "n": [circ.nodes_of(d)[0], "0"], "v": 1e3})
        d = nl.low(d)
    d["u"] = u
    d["h"] = draw(circ.mag(-2, -1))
    d["n"] = draw(st.integers(2, 4))
    d["t0"] = draw(st.sampled_from([0.0, 0.0, 0.7]))
    d["m"] = draw(st.sampled_from(["TRAP", "IMPLICIT_EULER", "GEAR2"]))
    if d["mode"] in ("names", "array"):
        ref = circ.Ref(d)
        d["xs"] = {}
        for un in ref.idx:
            if d["mode"] == "array" or draw(st.booleans()):
                d["xs"]["%s(%s)" % ("VI"[un[0] == "i"], un[1])] = draw(vals)
        if d["mode"] == "names":
            d["deco"] = draw(st.integers(0, 3))
    return d


def ic_state(desc, ref, op):
    """the unknowns the element's initial conditions determine, and those they leave alone"""
    want = {}
    comp = {"0": "0"}
    rel = {"0": 0.0}
    groups = {"0": ["0"]}
    ok = True
    for e in desc["elems"]:
        if e["k"] in "CD" and e.get("ic") is not None:
            a, b = e["n"]
            for x in (a, b):
                if x not in comp:
                    comp[x], rel[x], groups[x] = x, 0.0, [x]
            if comp[a] == comp[b]:
                if a != b:
                    ok = False
                continue
            # v(a) = v(b) + ic
            ga, gb = comp[a], comp[b]
            if ga == "0":
                keep, gone, shift = ga, gb, rel[a] - e["ic"] - rel[b]
            else:
                keep, gone, shift = gb, ga, rel[b] + e["ic"] - rel[a]
            for x in groups.pop(gone):
                comp[x], rel[x] = keep, rel[x] + shift
                groups[keep].append(x)
        elif e["k"] == "L" and e.get("ic") is not None:
            want[("i", e["id"].upper())] = e["ic"]
    touched = set(comp)
    for g, xs in groups.items():
        if g == "0":
            for x in [y for y in xs if y != "0"]:
                want[("v", x)] = rel[x]
    floating = [(xs, rel) for g, xs in groups.items() if g != "0"]
    keep = {u: op[i] for u, i in ref.idx.items() if u not in want and not (u[0] == "v" and u[1] in touched)}
    return ok, want, floating, keep


def deco(label, k):
    if k == 1:
        # (element names are found in any letter case, nodes are not)
        return label.lower() if label[0] == "I" else label
    if k == 2:
        return label.replace("(", " ( ").replace(")", " )")
    if k == 3:
        return label[0].lower() + label[1:]
    return label


def run_case(case, ref):
    """(circuit, transient result, operating point or None)"""
    from ahkab import options
    a = circ.sut()
    h = case["h"] * case["u"]
    t0 = case["t0"] * case["u"]
    tstop = t0 + h * (case["n"] - .5)
    mode = case["mode"]
    options.transient_no_step_control = True
    if case["via"] == "netlist":
        text = ["a title"] + nl.lines(case)
        if mode in ("op", "op+ic"):
            text.append(".op")
        tr = ".tran tstep=%r tstop=%r tstart=%r method=%s" % (h, tstop, t0, case["m"].lower())
        tr += {"none": " uic=0", "op": " uic=1", "op+ic": " uic=2", "names": " uic=3 ic_label=start"}[mode]
        if mode == "names":
            text.insert(1 + case["deco"], ".ic name=other v(%s)=9" % ref.nodes[0])
            text.append(".ic name=start " + " ".join("%s=%r" % kv for kv in case["xs"].items()))
        text.append(tr)
        text.append(".end")
        with nl.Scratch() as s:
            f = s.write("c.ckt", "\n".join(text) + "\n")
            with contextlib.redirect_stdout(io.StringIO()):
                res = a.main(f, outfile=s.path("out"), verbose=0)
                sol = res["tran"]
                # (the data stay readable while the directory exists)
                if sol is not None:
                    sol = Kept(sol)
            op = res.get("op")
            op = circ_unpack(ref, op) if op is not None else None
        return circ.build(case), sol, op
    c = circ.build(case)
    tran = dict(tstart=t0, tstop=tstop, tstep=h, method=case["m"], use_step_control=False, verbose=0)
    op = None
    if mode == "none":
        x0 = None
        sol = a.run(c, a.new_tran(x0=x0, **tran))["tran"]
    elif mode in ("op", "op+ic"):
        r = a.run(c, [a.new_op(verbose=0), a.new_tran(x0=mode, **tran)])
        op, sol = r["op"], r["tran"]
    elif mode == "icmod":
        op = a.run(c, a.new_op(verbose=0))["op"]
        if op is not None:
            before = np.array(op.asarray())
            x0 = a.ahkab.icmodified_x0(c, op)
            require(np.array_equal(before, op.asarray()), "imposing the initial conditions changed the operating point")
            sol = a.run(c, a.new_tran(x0=x0, **tran))["tran"]
    elif mode == "names":
        x0 = a.ahkab.new_x0(c, {deco(k, case["deco"]): v for k, v in case["xs"].items()})
        sol = a.run(c, a.new_tran(x0=x0, **tran))["tran"]
    else:
        # the order of the unknowns in an array: nodes by internal number, then currents in element order
        x0 = np.zeros((ref.n, 1))
        k = c.get_nodes_number() - 1
        for e in c:
            if a.circuit.is_elem_voltage_defined(e):
                x0[k, 0] = case["xs"]["I(%s)" % e.part_id.upper()]
                k += 1
        for x in ref.nodes:
            x0[c.ext_node_to_int(x) - 1, 0] = case["xs"]["V(%s)" % x]
        sol = a.run(c, a.new_tran(x0=x0, **tran))["tran"]
    if op is not None:
        op = circ_unpack(ref, op)
    elif mode in ("op", "op+ic", "icmod"):
        raise Skip("no operating point")
    return c, Kept(sol) if sol is not None else None, op


class Kept(object):
    def __init__(self, sol):
        self.d = {k.upper(): np.array(sol[k]).reshape(-1) for k in sol.keys()}
        self.start_op = sol.start_op

    def __getitem__(self, k):
        return self.d[k.upper()]


def circ_unpack(ref, sol):
    return c06.unpack(ref, sol)


def check(case, log):
    from ahkab import options
    options.cmin = 0
    ref = circ.Ref(case)
    h = case["h"] * case["u"]
    G = ref.G + c06.gmin_of(ref)
    for k in (1. / h, 2. / h, 1.5 / h):
        if not circ.cond_scaled(G + k * ref.C) < 1e9:
            raise Skip("ill-conditioned")
    mode = case["mode"]
    if mode in ("op", "op+ic", "icmod") and not circ.cond_scaled(G) < 1e9:
        raise Skip("ill-conditioned")
    c, sol, op = run_case(case, ref)
    require(sol is not None, "the transient failed")
    start = c06.unpack(ref, sol.start_op)
    log.label("mode:" + mode, "via:" + case["via"])
    if mode == "none":
        want = np.zeros(ref.n)
    elif mode == "op":
        want = op
    elif mode in ("names", "array"):
        want = np.zeros(ref.n)
        for k, v in case["xs"].items():
            un = (k[0].lower(), k[2:-1].upper() if k[0] == "I" else k[2:-1])
            want[ref.idx[un]] = v
    else:
        ok, fixed, floating, keep = ic_state(case, ref, op)
        want = start
        for un, v in keep.items():
            require(abs(start[ref.idx[un]] - v) <= 1e-12 * (1 + abs(v)), "%s starts from %r, the operating point is %r",
                    circ.key_of(un), start[ref.idx[un]], v)
        for un, v in fixed.items():
            if ok or un[0] == "i":
                require(abs(start[ref.idx[un]] - v) <= 1e-9 * (1 + abs(v)), "%s starts from %r, the initial condition asks for %r",
                        circ.key_of(un), start[ref.idx[un]], v)
        for xs, rel in floating:
            if not ok:
                break
            b = start[ref.idx[("v", xs[0])]]
            for x in xs[1:]:
                d = start[ref.idx[("v", x)]] - b
                require(abs(d - (rel[x] - rel[xs[0]])) <= 1e-9 * (1 + abs(d) + abs(b)), "V%s - V%s starts from %r, the initial conditions ask for %r",
                        x, xs[0], d, rel[x] - rel[xs[0]])
            require(any(abs(start[ref.idx[("v", x)]] - op[ref.idx[("v", x)]]) <= 1e-9 * (1 + abs(op[ref.idx[("v", x)]])) for x in xs),
                    "no voltage of the floating nodes %r is that of the operating point", xs)
        log.label("ics" if fixed or floating else "no-ics", "ok" if ok else "loop")
    require(np.all(np.abs(start - want) <= 1e-12 * (1 + np.abs(want))), "starts from %r, asked for %r (%r)", start.tolist(), want.tolist(),
            [k for _, k in ref.names()])
    t = sol["T"]
    X = c06.unpack_all(ref, sol)
    c06.fixed_axis(t, case["t0"] * case["u"], h, case["t0"] * case["u"] + h * (case["n"] - .5))
    c06.follow(case, log, ref, c, G, t, X, case["t0"] * case["u"], start)
    log.trivial = not np.abs(start).max(initial=0) > 0 or len(t) < 2


# ------------------------------------------------- the state of nonlinear circuits

@st.composite
def nonlinear(draw):
    lin = draw(circ.linear_desc(max_nodes=4, max_extra=5, couplings=False, controlled=False, dc=circ.mag(-1, 0, signed=True),
                                caps=circ.mag(-9, -7), inds=circ.mag(-5, -3), rvals=circ.mag(2, 4),
                                ics=st.one_of(st.none(), vals), extra_kinds=["R", "C", "C", "RL", "I"]))
    d = draw(c02.add_devices(lin, ["D"], 1, 2, rich=False))
    for e in d["elems"]:
        if e["k"] == "D" and draw(st.integers(0, 3)):
            e["ic"] = draw(st.sampled_from([0.0, .6, -.6, .3, -2.0]))
    return d


def check_nonlinear(case, log):
    a = circ.sut()
    ref = circ.Ref(case)
    c = circ.build(case)
    op = a.run(c, a.new_op(verbose=0))["op"]
    if op is None:
        raise Skip("no operating point")
    x0 = a.ahkab.icmodified_x0(c, op)
    o, start = c06.unpack(ref, op), c06.unpack(ref, x0)
    ok, fixed, floating, keep = ic_state(case, ref, o)
    for un, v in keep.items():
        require(abs(start[ref.idx[un]] - v) <= 1e-12 * (1 + abs(v)), "%s starts from %r, the operating point is %r",
                circ.key_of(un), start[ref.idx[un]], v)
    for un, v in fixed.items():
        if ok or un[0] == "i":
            require(abs(start[ref.idx[un]] - v) <= 1e-9 * (1 + abs(v)), "%s starts from %r, the initial condition asks for %r",
                    circ.key_of(un), start[ref.idx[un]], v)
    V = lambda x: 0.0 if x == "0" else start[ref.idx[("v", x)]]
    if ok:
        for e in case["elems"]:
            if e["k"] in "CD" and e.get("ic") is not None and e["n"][0] != e["n"][1]:
                d = V(e["n"][0]) - V(e["n"][1])
                require(abs(d - e["ic"]) <= 1e-9 * (1 + abs(V(e["n"][0]))), "%s starts with %r, its initial condition is %r", e["id"], d, e["ic"])
    log.label("ok" if ok else "loop")
    log.trivial = not (ok and (fixed or floating))


TESTS = [
    Test("linear", case(), check, 2400, 60000),
    Test("diodes", nonlinear(), check_nonlinear, 600, 12000),
]
