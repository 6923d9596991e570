"""C18: operating point reports are consistent with the solution they belong to."""
import math
import re

import numpy as np
from hypothesis import strategies as st

from ..core import Test, Skip, fail, require
from .. import circ, devices, nl
from . import c02, c13

PID = "C18"
RULE = ("a case is non-trivial when the report holds at least three elements, one of them a source that delivers power "
        "(a comparison of two operating points: when at least one variable is beyond the tolerance and one is not)")
ASSUMPTIONS = [
    "the total power of the report is the power delivered by all sources, controlled ones included, as the code defines it",
    "the report prints six digits: values are compared to 2e-5",
    "the currents of EKV devices are taken from a fresh device object (examined in C03)",
]


@st.composite
def case(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        d = draw(circ.linear_desc(max_nodes=6, max_extra=9))
    elif k == 1:
        d = draw(c13.any_desc(max_nodes=5, max_extra=6))
    else:
        d = draw(c02.add_devices(draw(c02.LIN), draw(st.sampled_from([["D"], ["M"], ["S"], ["E"], ["D", "M", "E", "S"]])), 1, 3))
    d = dict(d)
    d["title"] = draw(st.sampled_from(["t", "a circuit", "R1 1 2 3"]))
    return d


def num(s):
    s = s.strip("[]")
    return float(s)


def parse(text):
    """{"vars": [(name, unit, value)], "elems": {ID: {column: text}}, "mos": {id: text of its table}, "power": W}"""
    out = {"vars": [], "elems": {}, "mos": {}, "power": None, "count": 0}
    lines = text.splitlines()
    i = next(k for k, l in enumerate(lines) if l.startswith("Variable"))
    i += 2
    while lines[i].strip():
        t = lines[i].split()
        out["vars"].append((t[0], t[1], float(t[2])))
        i += 1
    i = next(k for k, l in enumerate(lines) if l.startswith("ELEMENTS OP"))
    while i < len(lines):
        l = lines[i]
        if l.startswith("Part ID"):
            dash = lines[i + 1]
            # columns by the position of the dashes
            cols = [(m.start(), m.end()) for m in re.finditer("-+", dash)]
            heads = [l[a:b].strip() for a, b in cols]
            i += 2
            while i < len(lines) and lines[i].strip():
                row = [lines[i][a:b].strip() for a, b in cols]
                row[-1] = lines[i][cols[-1][0]:].strip()
                require(row[0] not in out["elems"], "two report lines for %s", row[0])
                out["elems"][row[0]] = dict(zip(heads, row))
                i += 1
        elif l.startswith("----"):
            j = i + 1
            while not lines[j].startswith("----"):
                j += 1
            id = lines[i + 1].split()[0]
            require(id not in out["mos"], "two report tables for %s", id)
            out["mos"][id] = "\n".join(lines[i + 1:j])
            i = j
        elif l.startswith("Total power dissipation:"):
            m = re.match(r"Total power dissipation: (\S+) W", l)
            require(m, "the power line reads %r", l)
            out["power"] = num(m.group(1))
        i += 1
    return out


def near(got, want, what, tol=2e-5, floor=0.0):
    require(abs(got - want) <= tol * abs(want) + floor, "%s is %r in the report, %r follows from the solution", what, got, want)


def field(text, label, unit):
    m = re.search(r"(?:^|\s)%s\s+\[%s\]:\s+(\S+)" % (re.escape(label), re.escape(unit)), text, re.M)
    require(m, "no %s in the report %s", label, text)
    return num(m.group(1))


def col(row, start):
    ks = [k for k in row if k.startswith(start)]
    require(len(ks) == 1, "columns %s", list(row))
    return num(row[ks[0]])


def dc_of(e):
    if e.get("dc") is not None:
        return e["dc"]
    from .. import tfun
    return tfun.value(e["fn"], 0.0)


def check_report(case, log):
    a = circ.sut()
    from ahkab import options
    options.dc_max_nr_iter = 300
    c = circ.build(case, case["title"])
    with nl.Scratch() as tmp:
        sol = a.run(c, a.new_op(outfile=tmp.path("r"), verbose=0))["op"]
        if sol is None:
            raise Skip("no operating point")
        with open(tmp.path("r.opinfo"), encoding="utf8") as fp:
            text = fp.read()
    rep = parse(text)
    require(("\nTitle: %s\n" % case["title"]) in text, "the report does not name the circuit")
    names = list(sol.keys())
    x = {k: float(np.asarray(sol[k]).reshape(-1)[0]) for k in names}
    require([v[0] for v in rep["vars"]] == names, "the report lists %s, the result %s", [v[0] for v in rep["vars"]], names)
    for n, u, v in rep["vars"]:
        require(u == ("A" if n.upper().startswith("I(") else "V"), "the unit of %s is %s", n, u)
        near(v, x[n], n)
    X = {k.upper(): v for k, v in x.items()}
    V = {n: X["V" + n.upper()] for n in circ.nodes_of(case)}
    if len(set("V" + n.upper() for n in V)) < len(V):
        raise Skip("names differ in case only")
    V["0"] = 0.0
    if max(abs(v) for v in V.values()) > 200:
        raise Skip("hundreds of volts")
    cur = lambda id: X["I(%s)" % id.upper()]
    models = {m["name"]: m for m in case.get("models", [])}
    fresh = circ.build(case)
    supplied = used = total = slack = 0.0
    seen = set()
    delivering = False
    from ahkab import constants
    for e in case["elems"]:
        k, id = e["k"], e["id"]
        n = e.get("n")
        if k == "K":
            continue
        v = V[n[0]] - V[n[1]]
        scale = abs(V[n[0]]) + abs(V[n[1]])
        fl = 1e-14 * scale
        row = rep["elems"].get(id.upper()) or rep["elems"].get(id)
        if k in "RCLVIDS":
            require(row is not None, "%s is not in the report", id)
            seen.add(row["Part ID"])
        p = None
        if k == "R":
            near(col(row, "R ["), e["v"], id + " R")
            near(col(row, "V(n1"), v, id + " V", floor=fl)
            near(col(row, "I(n1"), v / e["v"], id + " I", floor=fl / e["v"])
            near(col(row, "P ["), v * v / e["v"], id + " P", floor=4 * fl * scale / e["v"])
            p = v * v / e["v"]
        elif k == "C":
            near(col(row, "V(n1"), v, id + " V", floor=fl)
            near(col(row, "Q ["), v * e["v"], id + " Q", floor=fl * e["v"])
            near(col(row, "E ["), .5 * v * v * e["v"], id + " E", floor=4 * fl * scale * e["v"])
            p = 0.0
        elif k == "L":
            i = cur(id)
            near(col(row, u"\u03d5"), i * e["v"], id + " flux")
            near(col(row, "I(n1"), i, id + " I")
            near(col(row, "E ["), .5 * i * i * e["v"], id + " E")
            p = v * i
        elif k == "V":
            i = cur(id)
            near(col(row, "V(n1"), dc_of(e), id + " V", floor=1e-9 * abs(dc_of(e)))
            near(col(row, "I(n1"), i, id + " I")
            near(col(row, "P ["), dc_of(e) * i, id + " P")
            supplied -= v * i
            total += abs(v * i)
            delivering |= v * i != 0
        elif k == "I":
            i = dc_of(e)
            near(col(row, "V(n1"), v, id + " V", floor=fl)
            near(col(row, "I ["), i, id + " I")
            near(col(row, "P ["), v * i, id + " P", floor=fl * abs(i))
            supplied -= v * i
            total += abs(v * i)
            delivering |= v * i != 0
        elif k in "EH":
            i = cur(id)
            supplied -= v * i
            total += abs(v * i)
        elif k == "G":
            i = e["v"] * (V[n[2]] - V[n[3]])
            supplied -= v * i
            total += abs(v * i)
        elif k == "F":
            i = e["v"] * cur(e["src"])
            supplied -= v * i
            total += abs(v * i)
        elif k == "D":
            m = models[e["m"]]
            near(col(row, "V(n1"), v, id + " V", floor=fl)
            near(col(row, u"T ["), e.get("T") or constants.T, id + " T")
            vf, vr = devices.diode_vmax(m["p"], e.get("T"))
            if -vr < v < vf:
                i, g = devices.diode(m["p"], v, e.get("area"), e.get("T"))
                # the series resistance is solved for iteratively
                it = 1e-3 if m["p"].get("RS") else 2e-5
                near(col(row, "I(n1"), i, id + " I", tol=it, floor=2e-9 * bool(m["p"].get("RS")) + 1e-24)
                near(col(row, "P ["), v * col(row, "I(n1"), id + " P", tol=5e-5, floor=fl * abs(i))
                near(col(row, "gm ["), g, id + " gm", tol=5 * it, floor=3e-12)
                slack += it * abs(v * i) + 2e-9 * abs(v)
                p = v * i
        elif k == "S":
            d = devices.switch_par(models[e["m"]]["p"])
            vs = V[n[2]] - V[n[3]]
            near(col(row, "VO ["), v, id + " VO", floor=fl)
            near(col(row, "VS ["), vs, id + " VS", floor=1e-14 * (abs(V[n[2]]) + abs(V[n[3]])))
            on = row["STATUS"] == "ON"
            require(row["STATUS"] in ("ON", "OFF"), "%s is %s", id, row["STATUS"])
            if vs > d["VT"] + d["VH"] + .4:
                require(on, "%s with %g V at its control is reported off", id, vs)
            if vs < d["VT"] - d["VH"] - .4:
                require(not on, "%s with %g V at its control is reported on", id, vs)
            r = devices.switch_r(d, vs, on)
            cond = 1e-10 * max(d["RON"], d["ROFF"]) / r   # rounding of the tanh law
            near(col(row, "R ["), r, id + " R", tol=2e-5 + cond)
            near(col(row, "I ["), v / r, id + " I", tol=2e-5 + cond, floor=fl / r)
            slack += abs(v * v / r) * cond
            p = v * v / r
        elif k == "M":
            text = rep["mos"].get(id)
            require(text is not None, "%s is not in the report", id)
            seen.add(id)
            m = models[e["m"]]
            vd, vg, vs, vb = (V[q] for q in n)
            if m["type"] == "mosq":
                for l, w in (("Vds", vd - vs), ("Vgs", vg - vs), ("Vbs", vb - vs)):
                    near(field(text, l, "V"), w, "%s %s" % (id, l), floor=1e-14 * (abs(vd) + abs(vs) + abs(vg) + abs(vb)))
                el = fresh.get_elem_by_name(id)
                i, gs, region, d = devices.mos(m["p"], e["w"], e["l"], vd, vg, vs, vb, m=e.get("mult", 1))
                s = d["s"]
                low = min(s * vd, s * vs)
                arg = 2 * d["PHI"] - (s * vb - low)
                if arg > 1e-3:
                    vt = d["VTO"] + d["GAMMA"] * (math.sqrt(arg) - math.sqrt(2 * d["PHI"]))
                    vov = s * vg - low - vt
                    near(field(text, "VTH", "V"), s * vt, id + " VTH", floor=1e-12)
                    near(field(text, "VOD", "V"), vov, id + " VOD", floor=1e-10)
                    lam = d["LAMBDA"]
                    if abs(vov) > 1e-9:
                        require(("ON" in text.splitlines()[0].split()) == (vov > 0), "%s is reported %s with an overdrive of %g V", id,
                                text.splitlines()[0], vov)
                        vds = abs(vd - vs)
                        # the border of saturation, with and without channel length modulation
                        if vds > vov + 1e-9:
                            require("SATURATION" in text, "%s: %g V of overdrive, %g V at the drain, reported linear", id, vov, vds)
                        if vov > 0 and vds < vov - .5 * lam * vov ** 2 - 1e-9:
                            require("LINEAR" in text, "%s: %g V of overdrive, %g V at the drain, reported saturated", id, vov, vds)
                    if region != "off" and abs(vov) > 1e-9 and lam * vov < 1.9 and arg > 1e-2:
                        near(field(text, "Ids", "A"), i, id + " Ids", tol=1e-4, floor=1e-12)
                        gmin = 1e-11
                        near(field(text, "gm", "S"), gs[1], id + " gm", tol=2e-3, floor=gmin + 1e-3 * max(abs(g) for g in gs))
                        near(1 / field(text, "ro", u"\u2126"), gs[0], id + " 1/ro", tol=2e-3, floor=1e-8 + 1e-3 * max(abs(g) for g in gs))
                        near(field(text, "gmb", "S"), gs[3], id + " gmb", tol=2e-3, floor=gmin + 1e-3 * max(abs(g) for g in gs))
                if e.get("mult", 1) != 1:
                    require("%s/1" % e["mult"] in text, "%s: the multiplier %s is not in the report", id, e["mult"])
                p = None
                pi = float(np.asarray(el.istamp((vd - vs, vg - vs, vb - vs), reduced=False)[1]).reshape(-1)[0])
                p = (vd - vs) * pi
            else:
                for l, w in (("Vdb", vd - vb), ("Vgb", vg - vb), ("Vsb", vs - vb)):
                    near(field(text, l, "V"), w, "%s %s" % (id, l), floor=1e-14 * (abs(vd) + abs(vs) + abs(vg) + abs(vb)))
                el = fresh.get_elem_by_name(id)
                pv = tuple(np.float64(w) for w in (vd - vb, vg - vb, vs - vb))
                i = float(el.i(0, pv))
                near(field(text, "Ids", "A"), i, id + " Ids", tol=1e-4, floor=1e-20)
                near(field(text, "gmg", "S"), float(el.g(0, pv, 1)), id + " gmg", tol=1e-3, floor=1e-15)
                near(field(text, "gms", "S"), float(el.g(0, pv, 2)), id + " gms", tol=1e-3, floor=1e-15)
                p = (vd - vs) * i
                slack += 1e-4 * abs(p)
        if k in "RCLDSM":
            if p is None:
                used = float("nan")
            else:
                used += p
                total += abs(p)
    require(set(rep["elems"]) | set(rep["mos"]) == seen, "the report lists %s, the circuit has %s",
            sorted(set(rep["elems"]) | set(rep["mos"])), sorted(seen))
    require(rep["power"] is not None, "the report has no total power")
    near(rep["power"], supplied, "the total power", floor=1e-9 * total)
    log.label("supplied:%s" % ("+" if supplied > 0 else "-" if supplied < 0 else "0"))
    if not math.isnan(used):
        sumv = sum(abs(v) for v in V.values())
        sumi = sum(abs(v) for k, v in X.items() if k.startswith("I("))
        # what the solver leaves in the equations, and gmin at each node
        near(rep["power"], used, "the total power (by the elements that use it)", tol=2e-5,
             floor=slack + 3e-8 * sumv + 5e-6 * sumi * 2 + 2e-6 * total)
        log.label("balanced")
    for k in set(e["k"] for e in case["elems"]):
        log.label("has:" + k)
    log.trivial = not (len(seen) >= 3 and delivering)


# --------------------------------------------------------------------------
# two operating points compared

@st.composite
def delta_case(draw):
    d = draw(circ.linear_desc(max_nodes=5, max_extra=5, simple_names=True))
    srcs = [e["id"] for e in d["elems"] if e["k"] in "VI"]
    return {"elems": d["elems"], "src": draw(st.sampled_from(srcs)),
            "f": draw(st.sampled_from([0.0, 1e-9, 1e-5, 9e-4, 1e-3, 1.1e-3, 1e-2, -1.0])),
            "o": {"ver": draw(st.sampled_from([1e-3, 1e-3, 1e-5])), "vea": draw(st.sampled_from([1e-6, 1e-2])),
                  "ier": draw(st.sampled_from([1e-3, 1e-4])), "iea": draw(st.sampled_from([1e-9, 1e-5]))},
            "swap": draw(st.booleans())}


def check_delta(case, log):
    a = circ.sut()
    ref = circ.Ref(case)
    if not circ.cond_scaled(ref.G) < 1e8:
        raise Skip("ill-conditioned")
    c02.set_options(case["o"])
    el2 = [dict(e, dc=e["dc"] * (1 + case["f"])) if e["id"] == case["src"] else e for e in case["elems"]]
    r1 = a.run(circ.build(case), a.new_op(verbose=0))["op"]
    r2 = a.run(circ.build({"elems": el2}), a.new_op(verbose=0))["op"]
    if r1 is None or r2 is None:
        raise Skip("no operating point")
    if case["swap"]:
        r1, r2 = r2, r1
    got = type(r1).gmin_check(r2, r1)
    o = case["o"]
    want, close = [], []
    for k in r1.keys():
        x, y = float(np.asarray(r1[k]).reshape(-1)[0]), float(np.asarray(r2[k]).reshape(-1)[0])
        er, ea = (o["ier"], o["iea"]) if k.upper().startswith("I(") else (o["ver"], o["vea"])
        lim = er * max(abs(x), abs(y)) + ea
        if abs(abs(x - y) - lim) < 1e-9 * lim:
            close.append(k)
        elif abs(x - y) > lim:
            want.append(k)
    require([k for k in got if k not in close] == want, "the variables that differ are %s, by the tolerances %s", got, want)
    log.label("differ" if want else "same")
    log.trivial = not want or len(want) == len(r1.keys())


TESTS = [
    Test("report", case(), check_report, 2400, 50000, cpu_s=60),
    Test("delta", delta_case(), check_delta, 800, 12000),
]
