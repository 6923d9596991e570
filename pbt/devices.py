"""Independent device equations, written from the documented models.

Each returns (current, derivatives); complex-step differentiation keeps the
derivatives free of hand-written formulas.
"""
import cmath
import math

K_B = 1.3806503e-23
Q_E = 1.60217646e-19
TREF = 300.0


def vth(T=TREF):
    # the simulator's constants are read for the elementary charge
    import ahkab
    return ahkab.constants.k * T / ahkab.constants.e


def eg(T):
    return 1.16 - 0.000702 * T * T / (T + 1108.0)


# ---------------------------------------------------------------- diode

DIODE_DEF = {"IS": 1e-14, "N": 1.0, "NBV": 1.0, "ISR": 0.0, "NR": 2.0, "RS": 0.0,
             "BV": float("inf"), "IKF": float("inf"), "XTI": 3.0, "TBV": 0.0, "TRS": 0.0}


def diode_par(p, T):
    """temperature-adjusted parameters"""
    d = dict(DIODE_DEF)
    d.update({k: v for k, v in p.items() if v is not None})
    T = TREF if T is None else T
    if T != TREF:
        d["IS"] *= (T / TREF) ** (d["XTI"] / d["N"]) * math.exp(
            -Q_E_over_k() * eg(TREF) / (d["N"] * T) * (1 - T / TREF))
        d["BV"] -= d["TBV"] * (T - TREF)
        d["RS"] *= 1 + d["TRS"] * (T - TREF)
    d["VT"] = vth(T)
    return d


def Q_E_over_k():
    import ahkab
    return ahkab.constants.e / ahkab.constants.k


def _exp(x):
    # capped: only the bracketing of the root search gets there
    return cmath.exp(x if x.real < 600 else complex(600, x.imag))


def junction(d, v):
    """per unit area junction current (complex v for differentiation)"""
    vt = d["VT"]
    i = d["IS"] * (_exp(v / (d["N"] * vt)) - 1)
    if math.isfinite(d["IKF"]) and d["IKF"] > 0 and i.real > 0:
        i = i * cmath.sqrt(d["IKF"] / (d["IKF"] + i))
    if d["ISR"]:
        i = i + d["ISR"] * (_exp(v / (d["NR"] * vt)) - 1)
    if math.isfinite(d["BV"]):
        i = i - d["IS"] * _exp(-(v + d["BV"]) / (d["NBV"] * vt))
    return i


def junction_ig(d, v):
    h = 1e-25
    z = junction(d, complex(v, h))
    return z.real, z.imag / h


def diode(p, v, area=1.0, T=None):
    """(i, g) of the diode with v across it"""
    d = diode_par(p, T)
    area = 1.0 if area is None else area
    if d["RS"] == 0:
        i, g = junction_ig(d, v)
        return area * i, area * g
    # unit device in series with RS: bisection, then Newton, on the junction voltage
    lo, hi = (min(0.0, v), max(0.0, v))

    def f(vj):
        return vj + d["RS"] * junction(d, complex(vj, 0)).real - v
    hi = min(hi, 70 * d["N"] * d["VT"])
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if f(mid) > 0:
            hi = mid
        else:
            lo = mid
    i, g = junction_ig(d, 0.5 * (lo + hi))
    return area * i, area * g / (1 + d["RS"] * g)


def diode_vmax(p, T=None):
    """bias below which the exponential is not limited by the simulator"""
    d = diode_par(p, T)
    m = d["N"]
    if d["ISR"]:
        m = min(m, d["NR"])
    return 65 * m * d["VT"], 65 * d["NBV"] * d["VT"] + d["BV"]


# ---------------------------------------------------------------- quadratic MOS

MOS_DEF = {"TYPE": "n", "KP": 50e-6, "LAMBDA": .5, "GAMMA": 1.0, "PHI": .7, "COX": .7e-3, "BEX": -1.5, "XJ": .1e-6}
IEA = 1e-9
E_SI, E_OX, N_I = 104.5e-12, 34.5e-12, 1.45e16


def n_i(T):
    """intrinsic carriers per cubic metre"""
    return N_I * (T / TREF) ** 1.5 * math.exp(eg(TREF) / (2 * vth(TREF)) - eg(T) / (2 * vth(T)))


def mos_par(p, T=TREF):
    """electrical parameters at temperature T from those of the model card: the
    ones that are missing follow from the process parameters, if given"""
    import ahkab
    d = dict(MOS_DEF)
    p = {k: v for k, v in p.items() if v is not None}
    d.update(p)
    s = d["s"] = 1 if d["TYPE"].lower() == "n" else -1
    tn = p.get("TNOM", TREF)
    if "COX" not in p and "TOX" in p:
        d["COX"] = E_OX / p["TOX"]
    if "NSUB" in p:
        if "GAMMA" not in p:
            d["GAMMA"] = math.sqrt(2 * ahkab.constants.e * E_SI * p["NSUB"] * 1e6) / d["COX"]
        if "PHI" not in p:
            d["PHI"] = 2 * vth(tn) * math.log(p["NSUB"] * 1e6 / n_i(tn))
    if "KP" not in p and "U0" in p:
        d["KP"] = p["U0"] * 1e-4 * d["COX"]
    if "VTO" in p:
        d["VTO"] = s * p["VTO"]
    elif "VFB" in p:
        d["VTO"] = s * p["VFB"] + d["PHI"] + d["GAMMA"] * math.sqrt(d["PHI"])
    else:
        d["VTO"] = .5
    d["TCV"] = s * p.get("TCV", 1e-3)
    d["VTO"] -= d["TCV"] * (T - tn)
    d["KP"] *= (T / tn) ** d["BEX"]
    d["PHI"] = d["PHI"] * T / tn - 3 * vth(T) * math.log(T / tn) - eg(tn) * T / tn + eg(T)
    d["T"] = T
    return d


# ---------------------------------------------------------------- EKV

def _ekv_i(v):
    """normalised current: v = ln(q) + 2 q, i = q + q^2"""
    lo, hi = math.exp(min(v, 0.0) - 2) * 1e-3, max(1.0, v)
    if v < -30:
        q = math.exp(v)
        q = math.exp(v - 2 * q)
        return q * (1 + q)
    for _ in range(200):
        q = math.sqrt(lo * hi)
        if math.log(q) + 2 * q > v:
            hi = q
        else:
            lo = q
    return q * (1 + q)


def ekv(p, w, l, vd, vg, vs, m=1, n=1, T=TREF):
    """(drain current, report, parameters) of the EKV model, voltages to the bulk

    Bucher et al., The EPFL-EKV MOSFET model equations, version 2.6: eq. 33-34
    (pinch-off voltage), 46-57 (saturation and channel length modulation) with
    the charge-based interpolation function."""
    d = mos_par(p, T)
    s, g, phi = d["s"], d["GAMMA"], d["PHI"]
    ut = vth(T)
    vd, vg, vs = s * vd, s * vg, s * vs
    sg = s
    if vd < vs:
        vd, vs, sg = vs, vd, -s
    vgp = vg - d["VTO"] + phi + g * math.sqrt(phi)
    if vgp > 0 and vgp + g * g / 4 > 0:
        vp = vgp - phi - g * (math.sqrt(vgp + g * g / 4) - g / 2)
    else:
        vp = -phi
    nq = 1 + .5 * g / math.sqrt(phi + .5 * vp)
    isp = 2 * nq * ut ** 2 * d["KP"] * w / l
    f = max(_ekv_i((vp - vs) / ut), 10 * 2.220446049250313e-16)
    vc = 2e6 * n * l
    vdss = vc * (math.sqrt(.25 + ut / vc * math.sqrt(f)) - .5)
    vdssp = vc * (math.sqrt(.25 + ut / vc * (math.sqrt(f) - .75 * math.log(f))) - .5) + ut * (math.log(vc / (2 * ut)) - .6)
    lam = d["LAMBDA"]
    dv = 4 * ut * math.sqrt(lam * (math.sqrt(f) - vdss / ut) + 1 / 64.)
    vds = .5 * (vd - vs)
    vip = math.hypot(vdss, dv) - math.hypot(vds - vdss, dv)
    lc = math.sqrt(E_SI * d["XJ"] / d["COX"])
    dl = lam * lc * math.log(1 + (vds - vip) / (lc * 2e6))
    lp = n * l - dl + (vds + vip) / 2e6
    leq = .5 * (lp + math.hypot(lp, n * l / 10))
    r = max(_ekv_i((vp - vds - vs - math.hypot(vdssp, dv) + math.hypot(vds - vdssp, dv)) / ut),
            10 * 2.220446049250313e-16)
    i = sg * l / leq * m * isp * (f - r)
    return i, {"ifn": f, "irn": r, "Vp": vp, "Leff": leq, "Ispec": isp, "scale": l / leq * m * isp * max(f, r),
               "SAT": f > r * math.exp(4), "VTH": d["VTO"]}, d


def _mos_fwd(d, beta, vds, vgs, vbs):
    """normalised n-type current, vds >= 0; complex arguments allowed"""
    a = 2 * d["PHI"]
    vt = d["VTO"] + d["GAMMA"] * ((cmath.sqrt(a - vbs) if a - vbs.real > 0 else 0) - math.sqrt(a))
    if vgs.real < vt.real:
        return 0j, "off"
    vov = vgs - vt
    lam = d["LAMBDA"]
    vsat = vov - .5 * lam * vov ** 2
    if vds.real < vsat.real:
        return beta * (vov * vds - .5 * vds ** 2), "ohmic"
    return .5 * beta * vov ** 2 * (1 + lam * (vds - vov + .25 * lam * vov ** 2)), "sat"


def mos(p, w, l, vd, vg, vs, vb, m=1, n=1, T=TREF):
    """(current into the drain, its derivatives by d, g, s, b, region, d)"""
    d = mos_par(p, T)
    s = d["s"]
    beta = d["KP"] * w / l * m / n

    def cur(vd, vg, vs, vb):
        vd, vg, vs, vb = (s * complex(x) for x in (vd, vg, vs, vb))
        sg = s
        if vd.real < vs.real:
            vd, vs, sg = vs, vd, -s
        i, reg = _mos_fwd(d, beta, vd - vs, vg - vs, vb - vs)
        return sg * i, reg
    i, reg = cur(vd, vg, vs, vb)
    h = 1e-30
    gs = []
    for k in range(4):
        a = [vd, vg, vs, vb]
        a[k] = complex(a[k], h)
        gs.append(cur(*a)[0].imag / h)
    return i.real, gs, reg, d


# ---------------------------------------------------------------- switch

SW_DEF = {"VT": 0.0, "VH": 0.0, "RON": 1.0, "ROFF": 1e12}


def switch_par(p):
    d = dict(SW_DEF)
    d.update({k: v for k, v in p.items() if v is not None})
    if "VON" in d and "VOFF" in d:
        d["VT"] = (d["VON"] - d["VOFF"]) / 2 + d["VOFF"]
        d["VH"] = 1e-3 * d["VT"]
    return d


def switch_r(d, vin, on):
    th = d["VT"] - d["VH"] if on else d["VT"] + d["VH"]
    return (d["RON"] - d["ROFF"]) / 2 * math.tanh(100 * (vin - th)) + (d["RON"] + d["ROFF"]) / 2
