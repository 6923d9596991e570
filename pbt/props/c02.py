"""C02: a reported nonlinear operating point satisfies every device equation."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Test, Skip, fail, require
from .. import circ, devices
from . import c03

PID = "C02"
RULE = ("a case is non-trivial when a solution was reported and at least one nonlinear device "
        "carries more than 1 nA in it")
ASSUMPTIONS = [
    "the solver's residual tolerance is its own (1 nA at nodes, 1 uV for branches): the oracle allows 20 nA / 5 uV plus 1e-6 of the currents met",
    "the current of EKV devices is taken from a fresh device object of the simulator (its model is examined in C03), with 3e-5 for its inner iteration",
    "MOS devices beyond 2/LAMBDA of overdrive, or with a forward biased bulk, are outside the model's documented domain",
]

volts = c03.volts


@st.composite
def add_devices(draw, desc, kinds_, lo=1, hi=4, rich=True):
    nodes = ["0"] + circ.nodes_of(desc)
    used = set(e["id"].upper() for e in desc["elems"])
    models = []
    elems = list(desc["elems"])
    anyn = st.sampled_from(nodes)
    for k in range(draw(st.integers(lo, hi))):
        kind = draw(st.sampled_from(kinds_))
        same = [m for m in models if m["type"] == {"D": "diode", "M": "mosq", "E": "ekv", "S": "sw"}[kind]]
        if same and draw(st.booleans()):
            m = draw(st.sampled_from(same))
        else:
            if kind == "D":
                p = draw(c03.diode_params(rich))
                t = "diode"
            elif kind == "M":
                p = draw(c03.mos_params())
                p["LAMBDA"] = min(p["LAMBDA"], .1)
                t = "mosq"
            elif kind == "E":
                p = {"TYPE": draw(st.sampled_from(["n", "p"])), "KP": draw(circ.mag(-5, -4))}
                p["VTO"] = (1 if p["TYPE"] == "n" else -1) * draw(st.sampled_from([.3, .5, .7]))
                t = "ekv"
            else:
                p = {"VT": draw(st.sampled_from([0.0, .5, 1.0, -1.0])), "VH": draw(st.sampled_from([0.0, 0.0, .2])),
                     "RON": draw(circ.mag(0, 2)), "ROFF": draw(circ.mag(5, 8))}
                t = "sw"
            m = {"type": t, "name": "mod%d" % len(models), "p": p}
            models.append(m)
        a = draw(anyn)
        b = draw(st.sampled_from([x for x in nodes if x != a]))
        if kind == "D":
            e = {"k": "D", "id": circ.ident(draw, "D", used), "n": [a, b], "m": m["name"]}
            ar = draw(st.sampled_from([None, None, 2.0, .5]))
            if ar:
                e["area"] = ar
            T = draw(st.sampled_from([None, None, None, 280.0, 350.0])) if rich else None
            if T:
                e["T"] = T
        elif kind in "ME":
            g = draw(anyn)
            s = 1 if m["p"]["TYPE"].lower() == "n" else -1
            bulk = draw(st.sampled_from([b, b, b, "0"]))
            e = {"k": "M", "id": circ.ident(draw, "M", used), "n": [a, g, b, bulk], "m": m["name"],
                 "w": draw(circ.mag(-6, -5)), "l": draw(st.sampled_from([1e-6, 2e-6, 1e-5]))}
            if kind == "E":
                e["l"] = 1e-5
        else:
            c = draw(anyn)
            d = draw(anyn)
            e = {"k": "S", "id": circ.ident(draw, "S", used), "n": [a, b, c, d], "m": m["name"]}
        elems.append(e)
    if draw(st.booleans()):
        elems = draw(st.permutations(elems))
    return {"elems": list(elems), "models": models}


def device_currents(desc, V, fresh):
    """list of alternatives: {node: current leaving into the devices}; None when out of the domain"""
    models = {m["name"]: m for m in desc["models"]}
    alts = []
    total = slack = 0.0
    for e in desc["elems"]:
        if e["k"] not in "DMS":
            continue
        m = models[e["m"]]
        v = [V[x] for x in e["n"]]
        if e["k"] == "D":
            vd = v[0] - v[1]
            vf, vr = devices.diode_vmax(m["p"], e.get("T"))
            if vd > vf or vd < -vr:
                return None, 0, 0
            i, _ = devices.diode(m["p"], vd, e.get("area"), e.get("T"))
            opts = [i]
            pair = e["n"]
        elif m["type"] == "mosq":
            p = devices.mos_par(m["p"])
            s = p["s"]
            vs = [s * x for x in v]
            ls = min(vs[0], vs[2])
            arg = 2 * p["PHI"] - (vs[3] - ls)
            if arg < 1e-3:
                return None, 0, 0
            vov = vs[1] - ls - p["VTO"] - p["GAMMA"] * (math.sqrt(arg) - math.sqrt(2 * p["PHI"]))
            if p["LAMBDA"] * vov > 1.9:
                return None, 0, 0
            vt = p["VTO"] + p["GAMMA"] * (math.sqrt(arg) - math.sqrt(2 * p["PHI"]))
            if vov < 1e-9:
                # leakage added by the simulator below the threshold
                slack += 2e-11 * (abs(vs[1] - ls) + abs(vs[0] - vs[2])) / max(abs(vt), .02)
            i = devices.mos(m["p"], e["w"], e["l"], *v)[0]
            opts = [i]
            pair = [e["n"][0], e["n"][2]]
        elif m["type"] == "ekv":
            el = fresh.get_elem_by_name(e["id"])
            ports = [(a, b) for a, b in el.get_drive_ports(0)]
            num = dict(zip((el.n1, el.ng, el.n2, el.nb), v))
            i = float(el.i(0, tuple(np.float64(num[a] - num[b]) for a, b in ports)))
            opts = [i]
            pair = [e["n"][0], e["n"][2]]
            slack += 3e-5 * abs(i)
        else:
            d = devices.switch_par(m["p"])
            opts = [(v[0] - v[1]) / devices.switch_r(d, v[2] - v[3], on) for on in (False, True)]
            if abs(opts[0] - opts[1]) < 1e-9:
                opts = opts[:1]
            pair = e["n"][:2]
        total = max(total, abs(opts[0]))
        alts.append([{pair[0]: o, pair[1]: -o} if pair[0] != pair[1] else {} for o in opts])
    return alts, total, slack


def check_point(desc, sol, fresh, log, gets=None, extra=0.0):
    """the reported solution satisfies all equations"""
    ref = circ.Ref(desc)
    circ.check_unknown_set(sol.keys(), ref)
    x = np.zeros(ref.n)
    for u, key in ref.names():
        x[ref.idx[u]] = float(np.asarray(sol[key]).reshape(-1)[0])
    require(np.all(np.isfinite(x)), "the solution is not finite: %r", x)
    V = {n: x[ref.idx[("v", n)]] for n in ref.nodes}
    V["0"] = 0.0
    if max(abs(v) for v in V.values()) > 200:
        # the solver's relative tolerance is volts there
        log.label("hundreds-of-volts")
        return None
    alts, imax, slack = device_currents(desc, V, fresh)
    if alts is None:
        log.label("out-of-domain")
        return None
    b = ref.b(lambda e: e["dc"])
    r0 = ref.G @ x - b
    flow = np.abs(ref.G) @ np.abs(x) + np.abs(b)
    from ahkab import options
    gmin = options.gmin  # the solution with gmin is reported when there is none without
    best = None
    for combo in itertools.islice(itertools.product(*alts), 64):
        r = r0.copy()
        fl = flow.copy()
        for d in combo:
            for node, i in d.items():
                if node != "0":
                    r[ref.idx[("v", node)]] += i
                    fl[ref.idx[("v", node)]] += abs(i)
        nn = len(ref.nodes)
        tol = 1e-6 * fl + extra
        tol[:nn] += slack + 2e-8 + 1.01 * gmin * np.abs(x[:nn])
        tol[nn:] += 5e-6
        ex = np.max(np.abs(r) / tol)
        if best is None or ex < best[0]:
            best = (ex, r, tol)
    ex, r, tol = best
    if ex > 1:
        k = int(np.argmax(np.abs(r) / tol))
        u = [u for u in ref.idx if ref.idx[u] == k][0]
        fail("the reported operating point leaves %g in the equation of %s (voltages %r)", r[k], u, V)
    return imax


OPTS = st.fixed_dictionaries({}, optional={
    "use_standard_solve_method": st.booleans(),
    "use_gmin_stepping": st.booleans(),
    "use_source_stepping": st.booleans(),
    "nr_damp_first_iters": st.booleans(),
    "nl_voltages_lock": st.booleans(),
    "nl_voltages_lock_factor": st.sampled_from([1, 2, 4, 10, 40]),
    "dc_use_guess": st.booleans(),
    "dc_max_nr_iter": st.sampled_from([5, 30, 200, 600]),
    "gmin": st.sampled_from([1e-12, 1e-13, 1e-11]),
    "dense_matrix_limit": st.sampled_from([400, 400, 1]),
})


def set_options(o):
    from ahkab import options
    for k, v in o.items():
        setattr(options, k, v)


LIN = circ.linear_desc(max_nodes=5, max_extra=4, couplings=False, dc=circ.mag(-1, 0, signed=True),
                       rvals=circ.mag(2, 5))
LIN_RS = circ.linear_desc(max_nodes=5, max_extra=4, reactive=False, controlled=False,
                          dc=circ.mag(-1, 0, signed=True), rvals=circ.mag(2, 5))


@st.composite
def any_case(draw):
    d = draw(add_devices(draw(LIN), draw(st.sampled_from([["D"], ["M"], ["D", "M"], ["S"], ["D", "M", "S"], ["E"], ["D", "M", "E", "S"]]))))
    d["o"] = draw(OPTS)
    d["guess"] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        d["x0"] = [draw(volts(-3, 3)) for _ in range(circ.Ref(d).n)]
    return d


def check_any(case, log):
    a = circ.sut()
    o = dict(case["o"])
    if not any(o.get(k, True) for k in ("use_standard_solve_method", "use_gmin_stepping", "use_source_stepping")):
        o["use_standard_solve_method"] = True
    set_options(o)
    from ahkab import options
    if "dc_max_nr_iter" not in o:
        options.dc_max_nr_iter = 400
    c = circ.build(case)
    x0 = np.array(case["x0"]).reshape(-1, 1) if "x0" in case else None
    from ahkab import dc_analysis
    sol = dc_analysis.op_analysis(c, x0=x0, guess=case["guess"], verbose=0)
    for k in set(e["k"] for e in case["elems"]) & set("DMS"):
        log.label("has:" + k)
    if sol is None:
        log.label("no-solution")
        log.trivial = True
        return
    imax = check_point(case, sol, circ.build(case), log)
    log.trivial = imax is None or not imax > 1e-9
    log.label("solved")


@st.composite
def diode_case(draw):
    d = draw(add_devices(draw(LIN_RS), ["D"], 1, 5, rich=draw(st.booleans())))
    # a resistor in series with every diode keeps the currents in range
    out = []
    k = 0
    for e in d["elems"]:
        if e["k"] == "D":
            k += 1
            mid = "dm%d" % k
            out.append({"k": "R", "id": "RD%d" % k, "n": [e["n"][0], mid], "v": draw(circ.mag(1, 4))})
            e = dict(e, n=[mid, e["n"][1]])
        out.append(e)
    d["elems"] = out
    return d


def check_diodes(case, log):
    a = circ.sut()
    ref = circ.Ref({"elems": [dict(e, k="R", v=1e3) if e["k"] == "D" else e for e in case["elems"]]})
    ref2 = circ.Ref({"elems": [dict(e, k="R", v=1e9) if e["k"] == "D" else e for e in case["elems"]]})
    for r in (ref, ref2):
        x = np.linalg.solve(r.G, r.b(lambda e: e["dc"]))
        if np.max(np.abs(x[:len(r.nodes)])) > 150:
            raise Skip("hundreds of volts")
    c = circ.build(case)
    sol = a.run(c, a.new_op(verbose=0))["op"]
    require(sol is not None, "no operating point was found for a circuit of resistors, sources and diodes")
    imax = check_point(case, sol, circ.build(case), log)
    log.trivial = imax is None or not imax > 1e-9
    log.label("devices:%d" % sum(e["k"] == "D" for e in case["elems"]))


TESTS = [
    Test("any_options", any_case(), check_any, 1600, 40000, cpu_s=120),
    Test("diodes_solvable", diode_case(), check_diodes, 600, 15000, cpu_s=120),
]
