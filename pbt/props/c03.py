"""C03: device currents and conductances follow the models."""
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Test, Skip, fail, require
from .. import circ, devices

PID = "C03"
RULE = ("a case is non-trivial when at least one bias point puts the device in conduction "
        "(for the switch: the control voltage crosses a threshold region)")
ASSUMPTIONS = [
    "diode biases stay below the point where the simulator limits the exponential (65 thermal voltages)",
    "MOS overdrive stays below 2/LAMBDA, where the documented saturation voltage is positive",
    "EKV conductances are the model's own approximations: compared with numerical derivatives for long channels with a wide tolerance",
]

# ------------------------------------------------------------------ evaluation


def evaluate(elem, nodev):
    """(current into each node's device terminal, jacobian) by internal node"""
    ports = elem.get_drive_ports(0)
    v = [nodev[a] - nodev[b] for a, b in ports]
    v = [np.float64(x) for x in v]
    n = max(nodev) + 1
    i = np.zeros(n)
    J = np.zeros((n, n))
    if hasattr(elem, "istamp") and hasattr(elem, "gstamp"):
        idx, val = elem.gstamp(tuple(v), 0)
        val = np.asarray(val).reshape(-1)
        for r, c, x in zip(idx[0], idx[1], val):
            J[r + 1, c + 1] += x
        idx, val = elem.istamp(tuple(v), 0)
        val = np.asarray(val).reshape(-1)
        for r, x in zip(idx[0], val):
            i[r + 1] += x
        return i, J
    (n1, n2), = elem.get_output_ports()
    x = elem.i(0, tuple(v), 0)
    i[n1] += x
    i[n2] -= x
    for k, (a, b) in enumerate(ports):
        g = elem.g(0, tuple(v), k, 0)
        for node, s in ((n1, 1), (n2, -1)):
            J[node, a] += s * g
            J[node, b] -= s * g
    return i, J


def close(got, want, rtol, atol, what):
    require(np.isfinite(got) and abs(got - want) <= rtol * abs(want) + atol,
            "%s is %r, the model gives %r", what, float(got), float(want))


# ------------------------------------------------------------------ diode

mant = circ.mag


@st.composite
def diode_params(draw, rich=True):
    p = {"IS": draw(mant(-16, -9))}
    if draw(st.booleans()):
        p["N"] = draw(st.sampled_from([1.0, 1.1, 1.5, 1.9, 2.0]))
    if rich:
        if draw(st.integers(0, 3)) == 0:
            p["ISR"] = draw(mant(-14, -8))
            if draw(st.booleans()):
                p["NR"] = draw(st.sampled_from([1.5, 2.0, 2.5]))
        if draw(st.integers(0, 3)) == 0:
            p["BV"] = draw(st.sampled_from([2.7, 5.1, 12.0, 50.0]))
            if draw(st.booleans()):
                p["NBV"] = draw(st.sampled_from([1.0, 1.5, 2.0]))
            if draw(st.integers(0, 3)) == 0:
                p["TBV"] = draw(st.sampled_from([1e-3, -2e-3]))
        if draw(st.integers(0, 3)) == 0:
            p["IKF"] = draw(mant(-6, -1))
        if draw(st.integers(0, 2)) == 0:
            p["RS"] = draw(mant(-2, 2))
            if draw(st.integers(0, 3)) == 0:
                p["TRS"] = draw(st.sampled_from([1e-3, -1e-3, 4e-3]))
        if draw(st.integers(0, 5)) == 0:
            p["XTI"] = draw(st.sampled_from([2.0, 3.0, 4.0]))
    return p


def volts(lo, hi):
    return st.integers(int(lo * 1000), int(hi * 1000)).map(lambda k: k / 1000.0)


TEMPS = st.sampled_from([None, None, None, 250.0, 273.15, 300.0, 320.5, 350.0, 400.0])


@st.composite
def diode_case(draw):
    p = draw(diode_params())
    nd = draw(st.integers(1, 3))
    devs = [{"area": draw(st.sampled_from([None, 1.0, 2.0, .5, 10.0])), "T": draw(TEMPS)} for _ in range(nd)]
    steps = []
    pool = draw(st.lists(st.one_of(volts(-.2, 1.2), volts(-60, 3), volts(.3, .8)), min_size=1, max_size=3))
    for _ in range(draw(st.integers(1, 6))):
        if draw(st.integers(0, 4)) == 0:
            steps.append(["T", draw(st.integers(0, nd - 1)), draw(st.sampled_from([280.0, 300.0, 330.0, 380.0]))])
        else:
            steps.append(["v", draw(st.integers(0, nd - 1)), draw(st.sampled_from(pool)),
                          draw(st.sampled_from(["ig", "stamp"]))])
    return {"p": p, "devs": devs, "steps": steps}


def check_diode(case, log):
    c = circ.sut().Circuit("d")
    c.add_model("diode", "dm", dict(case["p"]))
    els = []
    Ts = []
    for k, d in enumerate(case["devs"]):
        c.add_diode("D%d" % k, "a%d" % k, "b%d" % k, "dm", Area=d["area"], T=d["T"])
        els.append(c.get_elem_by_name("D%d" % k))
        Ts.append(d["T"])
    on = False
    for s in case["steps"]:
        if s[0] == "T":
            els[s[1]].set_temperature(s[2])
            Ts[s[1]] = s[2]
            continue
        e, T, v = els[s[1]], Ts[s[1]], s[2]
        area = case["devs"][s[1]]["area"]
        vf, vr = devices.diode_vmax(case["p"], T)
        if case["p"].get("RS", 0) == 0 and not (-vr < v < vf) and not (v < 0 and math.isinf(vr)):
            log.label("beyond")
            continue
        i, g = devices.diode(case["p"], v, area, T)
        what = "diode %r area=%s T=%s at %g V: " % (case["p"], area, T, v)
        if s[3] == "ig":
            gi, gg = e.i(0, (v,), 0), e.g(0, (v,), 0, 0)
            close(gi, i, 1e-7, 1e-20, what + "current")
            close(gg, g, 1e-6, 4e-12, what + "conductance")
        else:
            a, b = e.n1, e.n2
            gi, J = evaluate(e, {a: v, b: 0.0})
            close(gi[a], i, 1e-7, 1e-20, what + "anode current")
            close(gi[b], -i, 1e-7, 1e-20, what + "cathode current")
            for r, cc, sg in ((a, a, 1), (a, b, -1), (b, a, -1), (b, b, 1)):
                close(J[r, cc], sg * g, 1e-6, 4e-12, what + "stamp[%d,%d]" % (r, cc))
        if abs(i) > 1e-9:
            on = True
        log.label("rev" if v < 0 else "fwd")
        if case["p"].get("BV") and v < -case["p"]["BV"]:
            log.label("breakdown")
    log.trivial = not on


# ------------------------------------------------------------------ MOS

@st.composite
def process(draw, p, s):
    """some electrical parameters given through those of the process"""
    if draw(st.integers(0, 2)):
        return
    if draw(st.booleans()):
        p["NSUB"] = draw(st.sampled_from([1e15, 1e16, 3.7e16, 1e17]))
    k = draw(st.integers(0, 3))
    if k & 1:
        p["TOX"] = draw(st.sampled_from([5e-9, 1e-8, 4e-8]))
    if k & 2:
        p["COX"] = draw(st.sampled_from([.5e-3, .7e-3, 3e-3]))
    if draw(st.booleans()):
        p["U0"] = draw(st.sampled_from([150.0, 480.0, 1000]))
        if draw(st.booleans()):
            p.pop("KP", None)
    if draw(st.booleans()):
        p["VFB"] = s * draw(st.sampled_from([-1.1, -.9, -.55, -.2]))
        if draw(st.booleans()):
            p.pop("VTO", None)
    for k in ("GAMMA", "PHI"):
        if draw(st.booleans()):
            p.pop(k, None)
    if draw(st.booleans()):
        p["TNOM"] = draw(st.sampled_from([293.15, 300.0, 330.0]))


@st.composite
def mos_params(draw, lam=None):
    t = draw(st.sampled_from(["n", "p", "N", "P"]))
    s = 1 if t in "nN" else -1
    p = {"TYPE": t}
    if draw(st.integers(0, 5)):
        p["VTO"] = s * draw(st.sampled_from([.2, .35, .4, .5, .7, 1.0]))
    if draw(st.integers(0, 3)):
        p["KP"] = draw(mant(-6, -4))
    p["LAMBDA"] = lam if lam is not None else draw(st.sampled_from([0.0, .01, .05, .1, .3, .5]))
    if draw(st.booleans()):
        p["GAMMA"] = draw(st.sampled_from([.1, .3, .45, 1.0]))
    if draw(st.booleans()):
        p["PHI"] = draw(st.sampled_from([.3, .35, .5, .7]))
    if draw(st.integers(0, 3)) == 0:
        p["TCV"] = s * draw(st.sampled_from([1e-3, 5e-4, 2e-3]))
        p["BEX"] = draw(st.sampled_from([-1.5, -1.2]))
    draw(process(p, s))
    return p


@st.composite
def mos_case(draw):
    p = draw(mos_params())
    nodes = draw(st.sampled_from([["d", "g", "s", "b"], ["d", "g", "s", "s"], ["d", "d", "s", "s"],
                                  ["d", "g", "d", "b"], ["b", "g", "s", "b"], ["d", "g", "s", "g"]]))
    biases = draw(st.lists(st.fixed_dictionaries({k: volts(-1, 5) for k in "dgsb"}), min_size=1, max_size=4))
    return {"p": p, "n": nodes, "w": draw(mant(-6, -5)), "l": draw(st.sampled_from([.35e-6, 1e-6, 2e-6, 1e-5])),
            "m": draw(st.sampled_from([1, 1, 2, 5])), "nn": draw(st.sampled_from([1, 1, 1, 2])),
            "T": draw(st.sampled_from([300.0, 300.0, 300, 273.15, 350.0])), "bias": biases}


def check_mos(case, log):
    a = circ.sut()
    a.constants.T = case["T"]
    c = a.Circuit("m")
    p = dict(case["p"])
    c.add_model("mosq", "mm", p)
    c.add_mos("M1", case["n"][0], case["n"][1], case["n"][2], case["n"][3], case["w"], case["l"], "mm",
              m=case["m"], n=case["nn"])
    e = c.get_elem_by_name("M1")
    num = {x: c.ext_node_to_int(x) for x in set(case["n"])}
    s = 1 if case["p"]["TYPE"].lower() == "n" else -1
    on = False
    for b in case["bias"]:
        nv = {x: s * b[x] for x in set(case["n"])}
        vd, vg, vs, vb = [nv[x] for x in case["n"]]
        i, gs, reg, par = devices.mos(case["p"], case["w"], case["l"], vd, vg, vs, vb,
                                      case["m"], case["nn"], case["T"])
        hs, ls = max(s * vd, s * vs), min(s * vd, s * vs)
        arg = 2 * par["PHI"] - (s * vb - ls)
        if arg < 1e-3:
            log.label("bulk-forward")
            continue
        vt = par["VTO"] + par["GAMMA"] * (math.sqrt(arg) - math.sqrt(2 * par["PHI"]))
        vov = s * vg - ls - vt
        if par["LAMBDA"] * vov >= 1.9 or abs(vov) < 1e-6 or (vov < 0 and vt < .05) or par["PHI"] < .1:
            log.label("outside")
            continue
        gi, J = evaluate(e, {num[x]: nv[x] for x in num})
        what = "MOS %r at d,g,s,b=%r (%s): " % (case["p"], [vd, vg, vs, vb], reg)
        if reg == "off":
            lim = 1e-11 * (abs(s * vg - ls) + hs - ls) / vt * case["m"] / case["nn"] * 1.0001 + 1e-20
            want = np.zeros_like(gi)
            for k in range(len(gi)):
                require(abs(gi[k]) <= lim, what + "current %r in cutoff", gi[k])
            require(np.all(np.abs(J) <= 4e-11 * case["m"] / vt + 1e-11), what + "conductance %r in cutoff", J)
            log.label("off")
            continue
        on = True
        log.label(reg, "rev" if s * vd < s * vs else "fwd", "n" if s > 0 else "p")
        want = np.zeros_like(gi)
        WJ = np.zeros_like(J)
        for t, sg in ((0, 1), (2, -1)):
            r = num[case["n"][t]]
            want[r] += sg * i
            for k in range(4):
                WJ[r, num[case["n"][k]]] += sg * gs[k]
        sc = max(abs(g) for g in gs)
        for k in num.values():
            close(gi[k], want[k], 1e-8, 1e-19, what + "current at node %d" % k)
            for q in num.values():
                close(J[k, q], WJ[k, q], 1e-7, 2e-11 + 1e-9 * sc, what + "d i(%d)/d v(%d)" % (k, q))
    log.trivial = not on


# ------------------------------------------------------------------ switch

@st.composite
def sw_case(draw):
    if draw(st.booleans()):
        p = {"VT": draw(st.sampled_from([0.0, .5, 1.0, 2.5, -1.0])), "VH": draw(st.sampled_from([0.0, 0.0, .1, .3, 1.0]))}
        if draw(st.integers(0, 5)) == 0:
            p = {}
    else:
        p = {"VON": draw(st.sampled_from([.5, 1.0, 3.0])), "VOFF": draw(st.sampled_from([.5, 0.0, 1.0]))}
    if draw(st.integers(0, 5)):
        p["RON"] = draw(mant(-1, 2))
        p["ROFF"] = draw(mant(4, 9))
    d = devices.switch_par(p)
    near = st.integers(-400, 400).map(lambda k: round(d["VT"] + k / 1000.0 * (1 + 4 * d["VH"]), 6))
    seq = draw(st.lists(st.one_of(near, volts(-5, 5)), min_size=1, max_size=8))
    vo = draw(st.lists(volts(-3, 3), min_size=len(seq), max_size=len(seq)))
    return {"p": p, "seq": [list(x) for x in zip(seq, vo)]}


def check_switch(case, log):
    c = circ.sut().Circuit("s")
    c.add_model("sw", "sm", dict(case["p"]))
    c.add_switch("S1", "a", "b", "p", "q", False, "sm")
    e = c.get_elem_by_name("S1")
    n = {x: c.ext_node_to_int(x) for x in "abpq"}
    d = devices.switch_par(case["p"])
    on = False
    switched = False
    for vin, vo in case["seq"]:
        # state after hysteresis: closed above VT+VH, open again below VT-VH
        up, dn = d["VT"] + d["VH"], d["VT"] - d["VH"]
        if not on and vin > up + .5:
            on = True
        elif on and vin < dn - .5:
            on = False
        cand = {switch_r: 1 for switch_r in (devices.switch_r(d, vin, on),)}
        if d["VH"] == 0 or (on and vin >= dn - .5) or (not on and vin <= up + .5):
            pass
        gi, J = evaluate(e, {n["a"]: vo, n["b"]: 0.0, n["p"]: vin, n["q"]: 0.0})
        rs = [devices.switch_r(d, vin, on)]
        # within the transition of either threshold both readings of "past the threshold" agree
        # on the resistance to the last digit of tanh
        what = "switch %r at control %g (was %s): " % (case["p"], vin, "on" if on else "off")
        ok = any(abs(gi[n["a"]] - vo / r) <= (1e-6 + abs(d["RON"] - d["ROFF"]) * 4e-16 / r) * abs(vo / r) + 1e-18 for r in rs)
        require(ok, what + "current %r for %g V, model resistance %r", gi[n["a"]], vo, rs)
        r = rs[0]
        h = 1e-7
        A = (d["RON"] - d["ROFF"]) / 2
        th = dn if on else up
        t = math.tanh(100 * (vin - th))
        dr = A * 100 * (1 - t * t)
        gm = -vo * dr / r ** 2
        rt = abs(A) * 4e-16 / r  # rounding of tanh near its limits
        gt = abs(vo * A) * 100 * 1e-15 / r ** 2 + 3e-12
        close(gi[n["b"]], -vo / r, 1e-6 + abs(d["RON"] - d["ROFF"]) * 4e-16 / r, 1e-18, what + "return current")
        close(J[n["a"], n["a"]], 1 / r, 1e-6 + rt, 1e-18, what + "output conductance")
        close(J[n["a"], n["p"]], gm, 1e-5 + 2 * rt, gt, what + "transconductance")
        close(J[n["b"], n["p"]], -gm, 1e-5 + 2 * rt, gt, what + "transconductance")
        close(J[n["a"], n["q"]], -gm, 1e-5 + 2 * rt, gt, what + "transconductance")
        require(gi[n["p"]] == 0 and gi[n["q"]] == 0, what + "the control port draws current")
        # the state flips once the control is past both transitions
        if abs(t) < .999:
            log.label("transition")
            switched = True
        on2 = on
        if vin > up:
            on2 = True
        elif vin < dn:
            on2 = False
        if on2 != on:
            switched = True
            t1 = math.tanh(100 * (vin - up))
            t2 = math.tanh(100 * (vin - dn))
            if t1 != t2:
                return  # flip may or may not have happened: stop here
            on = on2
    log.trivial = not switched


# ------------------------------------------------------------------ EKV

@st.composite
def ekv_case(draw):
    p = {"TYPE": draw(st.sampled_from(["n", "p", "N", "P"])),
         "KP": draw(mant(-6, -4))}
    s = 1 if p["TYPE"] in "nN" else -1
    if draw(st.integers(0, 4)):
        p["VTO"] = s * draw(st.sampled_from([.3, .4, .5, .7]))
    if draw(st.booleans()):
        p["GAMMA"] = draw(st.sampled_from([.5, .7, 1.0]))
    if draw(st.booleans()):
        p["PHI"] = draw(st.sampled_from([.5, .7, .9]))
    if draw(st.integers(0, 2)) == 0:
        p["LAMBDA"] = draw(st.sampled_from([0.0, .1, .3, .8]))
    if draw(st.integers(0, 2)) == 0:
        p["XJ"] = draw(st.sampled_from([5e-8, 1e-7, 3e-7]))
    if draw(st.integers(0, 3)) == 0:
        p["TCV"] = s * draw(st.sampled_from([1e-3, 5e-4, 2e-3]))
        p["BEX"] = draw(st.sampled_from([-1.5, -1.2]))
    draw(process(p, s))
    b = draw(st.lists(st.lists(volts(0, 3), min_size=3, max_size=3), min_size=1, max_size=4))
    return {"p": p, "w": draw(st.sampled_from([1e-6, 5e-6, 2e-5])), "l": draw(st.sampled_from([1e-5, 2e-5])),
            "m": draw(st.sampled_from([1, 1, 2, 3])), "nn": draw(st.sampled_from([1, 1, 1, 2])),
            "T": draw(st.sampled_from([300.0, 300.0, 300, 273.15, 350.0])), "bias": b}


def check_ekv(case, log):
    a = circ.sut()
    s = 1 if case["p"]["TYPE"].lower() == "n" else -1
    T = a.constants.T = case.get("T", 300.0)
    nn = case.get("nn", 1)
    if devices.mos_par(case["p"], T)["PHI"] < .12:
        raise Skip("surface potential")

    def dev(p, m):
        c = a.Circuit("e")
        c.add_model("ekv", "em", dict(p))
        c.add_mos("M1", "d", "g", "s", "b", case["w"], case["l"], "em", m=m, n=nn)
        return c.get_elem_by_name("M1"), {x: c.ext_node_to_int(x) for x in "dgsb"}
    e, n = dev(case["p"], case["m"])
    q = dict(case["p"])
    q["TYPE"] = "p" if s > 0 else "n"
    q.setdefault("TCV", 1e-3)
    for k in ("VTO", "VFB", "TCV"):
        if k in q:
            q[k] = -q[k]
    dual, _ = dev(q, case["m"])
    unit, _ = dev(case["p"], 1)

    def at(el, vd, vg, vs):
        gi, J = evaluate(el, {n["d"]: vd, n["g"]: vg, n["s"]: vs, n["b"]: 0.0})
        return gi, J
    on = False
    first = None
    for vd, vg, vs in [[s * x for x in b] for b in case["bias"]]:
        what = "EKV %r at d,g,s=%r: " % (case["p"], [vd, vg, vs])
        gi, J = at(e, vd, vg, vs)
        i = gi[n["d"]]
        if first is None:
            first = ((vd, vg, vs), i)
        close(gi[n["s"]], -i, 1e-12, 1e-25, what + "source current")
        wi, rep, par = devices.ekv(case["p"], case["w"], case["l"], vd, vg, vs, case["m"], nn, T)
        close(i, wi, 1e-9, 1e-9 * rep["scale"], what + "drain current at %g K, m=%d, n=%d" % (T, case["m"], nn))
        log.label("%s-inversion" % ("strong" if rep["ifn"] > 10 else "weak" if rep["ifn"] < .1 else "moderate"))
        require(gi[n["g"]] == 0 and gi[n["b"]] == 0, what + "gate or bulk current")
        # exchange of drain and source
        close(at(e, vs, vg, vd)[0][n["d"]], -i, 1e-7, 1e-14, what + "current with drain and source exchanged")
        # n/p duality
        gd, Jd = at(dual, -vd, -vg, -vs)
        close(gd[n["d"]], -i, 1e-7, 1e-14, what + "current of the dual device")
        for k in "dgs":
            close(Jd[n["d"], n[k]], J[n["d"], n[k]], 1e-6, 1e-12, what + "conductance by %s of the dual device" % k)
        # multiplicity
        gu, Ju = at(unit, vd, vg, vs)
        close(i, case["m"] * gu[n["d"]], 1e-7, 1e-14, what + "current of %d devices" % case["m"])
        # sign: conventional direction
        if s * (vd - vs) > 1e-3:
            require(s * i >= -1e-13, what + "current %r against the voltage", i)
        # derivatives, as the model approximates them
        sc = abs(J[n["d"], n["d"]]) + abs(J[n["d"], n["s"]]) + 1e-9
        h = 2e-4
        for k, t in enumerate("dgs"):
            hi = [vd, vg, vs]
            lo = [vd, vg, vs]
            hi[k] += h
            lo[k] -= h
            numd = (at(e, *hi)[0][n["d"]] - at(e, *lo)[0][n["d"]]) / (2 * h)
            require(abs(numd - J[n["d"], n[t]]) <= .15 * sc,
                    what + "conductance by %s is %r, the current's slope is %r", t, J[n["d"], n[t]], numd)
        # grows with the gate drive
        if s * (vd - vs) > .05:
            i2 = at(e, vd, vg + s * .05, vs)[0][n["d"]]
            require(s * i2 >= s * i - 1e-13, what + "current falls with the gate drive: %r -> %r", i, i2)
        if abs(i) > 1e-9:
            on = True
    i = at(e, *first[0])[0][n["d"]]
    close(i, first[1], 1e-9, 1e-18, "EKV %r at %r after other evaluations: current" % (case["p"], first[0]))
    log.trivial = not on


# ------------------------------------------------------------------ through the analyses

@st.composite
def incircuit_case(draw):
    k = draw(st.sampled_from(["D", "D", "M", "M", "M"]))
    if k == "D":
        return {"k": "D", "p": draw(diode_params()), "area": draw(st.sampled_from([None, 2.0, .5])),
                "T": draw(TEMPS), "v": draw(volts(-8, .75)), "flip": draw(st.booleans())}
    p = draw(mos_params())
    return {"k": "M", "p": p, "w": draw(mant(-6, -5)), "l": draw(st.sampled_from([1e-6, 2e-6])),
            "v": draw(st.lists(volts(0, 3), min_size=3, max_size=3)), "vb": draw(volts(-2, 0)),
            "ac": draw(st.sampled_from("dgs"))}


def check_incircuit(case, log):
    a = circ.sut()
    c = a.Circuit("dev")
    if case["k"] == "D":
        v = case["v"]
        vf, vr = devices.diode_vmax(case["p"], case["T"])
        if not v < vf or v < -vr + .3 or (case["p"].get("BV") and v < -case["p"]["BV"] - .3):
            raise Skip("strong conduction")
        c.add_model("diode", "dm", dict(case["p"]))
        n = ["a", "0"] if case["flip"] else ["0", "a"]
        vv = v if case["flip"] else -v
        c.add_vsource("V1", "a", "0", vv, ac_value=1.0)
        c.add_diode("D1", n[0], n[1], "dm", Area=case["area"], T=case["T"])
        i, g = devices.diode(case["p"], v, case["area"], case["T"])
        want = -i if case["flip"] else i
        ws = {"V1": (want, -g)}
        vtot = abs(v)
        mul = 1.0
    else:
        s = 1 if case["p"]["TYPE"].lower() == "n" else -1
        c.add_model("mosq", "mm", dict(case["p"]))
        vd, vg, vs = [s * x for x in case["v"]]
        vb = s * case["vb"]
        for nme, x in zip("dgsb", (vd, vg, vs, vb)):
            c.add_vsource("V" + nme, nme, "0", x, ac_value=1.0 if nme == case["ac"] else 0)
        c.add_mos("M1", "d", "g", "s", "b", case["w"], case["l"], "mm")
        i, gs, reg, par = devices.mos(case["p"], case["w"], case["l"], vd, vg, vs, vb)
        ls = min(s * vd, s * vs)
        vt = par["VTO"] + par["GAMMA"] * (math.sqrt(2 * par["PHI"] - (s * vb - ls)) - math.sqrt(2 * par["PHI"]))
        if par["LAMBDA"] * (s * vg - ls - vt) > 1.9 or abs(s * vg - ls - vt) < 1e-6:
            raise Skip("outside")
        k = "dgs".index(case["ac"])
        ws = {"Vd": (-i, -gs[k]), "Vs": (i, gs[k]), "Vg": (0, 0), "Vb": (0, 0)}
        log.label(reg)
    r = a.run(c, [a.new_op(verbose=0), a.new_ac(start=1.0, stop=10.0, points=2, x0=None, verbose=0)])
    require(r.get("op") is not None, "no operating point for a device driven by voltage sources")
    for src, (i, g) in ws.items():
        key = "I(%s)" % src.upper()
        got = float(np.asarray(r["op"][key]).reshape(-1)[0])
        close(got, i, 1e-5, 2e-10, "operating point of %r: %s" % (case, key))
        got = np.asarray(r["ac"][key]).reshape(-1)
        require(np.allclose(got, g, rtol=1e-4, atol=1e-9), "AC of %r: %s is %r, the conductance gives %r", case, key, got, g)
    log.trivial = not any(abs(i) > 1e-8 for i, _ in ws.values())


TESTS = [
    Test("diode", diode_case(), check_diode, 6000, 80000),
    Test("mos", mos_case(), check_mos, 5000, 60000),
    Test("switch", sw_case(), check_switch, 3000, 40000),
    Test("ekv", ekv_case(), check_ekv, 1600, 20000),
    Test("in_circuit", incircuit_case(), check_incircuit, 2000, 20000),
]
