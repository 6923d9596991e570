"""Circuit descriptions (plain JSON), their generators, their construction
through the simulator's API or as netlist text, and an independent reference
formulation of the linear(ised) circuit equations.

The reference shares no code with the simulator: it numbers the unknowns in its
own way and writes every element's equation from its documented definition.
"""
import math

import numpy as np
from hypothesis import strategies as st

from .core import Violation, Skip, fail, require

GND = "0"

# --------------------------------------------------------------------------
# building

def sut():
    import ahkab
    return ahkab


def make_function(fn):
    """A time function object from its description."""
    if fn is None:
        return None
    tf = sut().time_functions
    t = fn["t"]
    a = {k: v for k, v in fn.items() if k != "t"}
    if t == "sin":
        return tf.sin(**a)
    if t == "pulse":
        return tf.pulse(**a)
    if t == "exp":
        return tf.exp(**a)
    if t == "sffm":
        return tf.sffm(**a)
    if t == "am":
        return tf.am(**a)
    if t == "pwl":
        return tf.pwl(**a)
    raise ValueError(t)


def ac_value(e):
    a = e.get("ac", 0)
    return complex(*a) if isinstance(a, (list, tuple)) else a


def add_elem(c, e):
    k = e["k"]
    n = e.get("n")
    if k == "R":
        c.add_resistor(e["id"], n[0], n[1], e["v"])
    elif k == "C":
        c.add_capacitor(e["id"], n[0], n[1], e["v"], ic=e.get("ic"))
    elif k == "L":
        c.add_inductor(e["id"], n[0], n[1], e["v"], ic=e.get("ic"))
    elif k == "K":
        c.add_inductor_coupling(e["id"], e["l"][0], e["l"][1], e["v"])
    elif k == "V":
        c.add_vsource(e["id"], n[0], n[1], e.get("dc"), ac_value=ac_value(e),
                      function=make_function(e.get("fn")))
    elif k == "I":
        c.add_isource(e["id"], n[0], n[1], e.get("dc"), ac_value=ac_value(e),
                      function=make_function(e.get("fn")))
    elif k == "E":
        c.add_vcvs(e["id"], n[0], n[1], n[2], n[3], e["v"])
    elif k == "G":
        c.add_vccs(e["id"], n[0], n[1], n[2], n[3], e["v"])
    elif k == "F":
        c.add_cccs(e["id"], n[0], n[1], e["src"], e["v"])
    elif k == "H":
        c.add_ccvs(e["id"], n[0], n[1], e["src"], e["v"])
    elif k == "D":
        c.add_diode(e["id"], n[0], n[1], e["m"], Area=e.get("area"), T=e.get("T"), ic=e.get("ic"), off=bool(e.get("off", False)))
    elif k == "M":
        c.add_mos(e["id"], n[0], n[1], n[2], n[3], e["w"], e["l"], e["m"], m=e.get("mult", 1))
    elif k == "S":
        c.add_switch(e["id"], n[0], n[1], n[2], n[3], e.get("ic", False), e["m"])
    else:
        raise ValueError(k)


def build(desc, title="case"):
    """The circuit of a description, through the API."""
    c = sut().Circuit(title)
    for m in desc.get("models", []):
        c.add_model(m["type"], m["name"], dict(m["p"]))
    for e in desc["elems"]:
        add_elem(c, e)
    return c


# --------------------------------------------------------------------------
# reference equations

def nodes_of(desc):
    out = []
    for e in desc["elems"]:
        for x in e.get("n", []):
            if x != GND and x not in out:
                out.append(x)
    return out


def vde_ids(desc):
    return [e["id"] for e in desc["elems"] if e["k"] in "VEHL"]


class Ref(object):
    """G x + C x' = b(t) for the linear elements, unknowns by name.

    Unknowns: ('v', node) for every non-ground node, ('i', id) for every
    element with a current unknown (V, E, H, L).
    """

    def __init__(self, desc):
        self.desc = desc
        self.nodes = nodes_of(desc)
        self.vde = vde_ids(desc)
        self.idx = {}
        for x in self.nodes:
            self.idx[("v", x)] = len(self.idx)
        for x in self.vde:
            self.idx[("i", x.upper())] = len(self.idx)
        n = self.n = len(self.idx)
        self.G = np.zeros((n, n))
        self.C = np.zeros((n, n))
        self.srcs = []  # (elem, row, sign)
        for e in desc["elems"]:
            self._stamp(e)

    def v(self, node):
        return None if node == GND else self.idx[("v", node)]

    def i(self, eid):
        return self.idx[("i", eid.upper())]

    def _add(self, M, r, c, x):
        if r is not None and c is not None:
            M[r, c] += x

    def admittance(self, M, a, b, y):
        self.transadmittance(M, a, b, a, b, y)

    def transadmittance(self, M, a, b, sa, sb, y):
        """current y*(v(sa)-v(sb)) leaves a and enters b through the element"""
        self._add(M, a, sa, y)
        self._add(M, a, sb, -y)
        self._add(M, b, sa, -y)
        self._add(M, b, sb, y)

    def _stamp(self, e):
        k = e["k"]
        if k == "K":
            ls = {x["id"].upper(): x["v"] for x in self.desc["elems"] if x["k"] == "L"}
            l1, l2 = e["l"][0].upper(), e["l"][1].upper()
            m = e["v"] * math.sqrt(ls[l1] * ls[l2])
            self._add(self.C, self.i(l1), self.i(l2), -m)
            self._add(self.C, self.i(l2), self.i(l1), -m)
            return
        if k in "DMS":
            return
        n = [self.v(x) for x in e["n"]]
        if k == "R":
            self.admittance(self.G, n[0], n[1], 1.0 / e["v"])
        elif k == "C":
            self.admittance(self.C, n[0], n[1], e["v"])
        elif k == "G":
            self.transadmittance(self.G, n[0], n[1], n[2], n[3], e["v"])
        elif k == "F":
            j = self.i(e["src"])
            self._add(self.G, n[0], j, e["v"])
            self._add(self.G, n[1], j, -e["v"])
        elif k == "I":
            self.srcs.append((e, n[0], n[1]))
        else:
            j = self.i(e["id"])
            # KCL: branch current leaves n0, enters n1
            self._add(self.G, n[0], j, 1.0)
            self._add(self.G, n[1], j, -1.0)
            # branch equation
            self._add(self.G, j, n[0], 1.0)
            self._add(self.G, j, n[1], -1.0)
            if k == "V":
                self.srcs.append((e, j, None))
            elif k == "E":
                self._add(self.G, j, n[2], -e["v"])
                self._add(self.G, j, n[3], e["v"])
            elif k == "H":
                # sign of the repository's reference data: v = -alpha * i(source)
                self._add(self.G, j, self.i(e["src"]), e["v"])
            elif k == "L":
                self.C[j, j] -= e["v"]

    def b(self, value):
        """right-hand side, value(elem) -> source value"""
        dt = complex if any(isinstance(value(e), complex) for e, _, _ in self.srcs) else float
        out = np.zeros(self.n, dtype=dt)
        for e, r, s in self.srcs:
            x = value(e)
            if e["k"] == "V":
                out[r] += x
            else:  # current leaves n0 through the source
                if r is not None:
                    out[r] -= x
                if s is not None:
                    out[s] += x
        return out

    def pack(self, x):
        return {k: x[j] for k, j in self.idx.items()}

    def names(self):
        """(unknown, simulator key)"""
        return [(k, key_of(k)) for k in self.idx]


def key_of(u):
    return ("V" + u[1]) if u[0] == "v" else ("I(%s)" % u[1].upper())


def cond_scaled(A):
    """condition number after row/column equilibration"""
    A = np.array(A)
    for _ in range(3):
        r = np.abs(A).max(axis=1)
        if not np.all(r > 0):
            return np.inf
        A = A / r[:, None]
        c = np.abs(A).max(axis=0)
        if not np.all(c > 0):
            return np.inf
        A = A / c[None, :]
    try:
        return np.linalg.cond(A)
    except np.linalg.LinAlgError:
        return np.inf


def ref_solve(A, b):
    """Solve with equilibration and one refinement step."""
    A = np.array(A)
    r = np.abs(A).max(axis=1)
    As = A / r[:, None]
    c = np.abs(As).max(axis=0)
    As = As / c[None, :]
    bs = b / r
    y = np.linalg.solve(As, bs)
    y = y + np.linalg.solve(As, bs - As @ y)
    return y / c


def scales(ref, A, b, x):
    """(voltage scale, current scale) against which rounding is judged"""
    nn = len(ref.nodes)
    ax = np.abs(x)
    ab = np.abs(b)
    sv = max(list(ax[:nn]) + list(ab[nn:]) + [1e-6])
    y = np.abs(np.array(A)[:nn, :nn]).max() if nn else 0.0
    si = max(list(ax[nn:]) + list(ab[:nn]) + [sv * y, 1e-9])
    if y:
        # the voltage of that current in the smallest resistance
        sv = max(sv, max(list(ax[nn:]) + list(ab[:nn])) / y)
    return sv, si


def backward(A, b, x, nn=None):
    """what rounding (a backward error of 1e-13) can change in every unknown

    With nn, the number of nodes, also what elimination carries from one node's
    equation (or one branch's) into another's, relative to the largest of them."""
    inv = np.abs(np.linalg.inv(A))
    r = np.abs(A) @ np.abs(x) + np.abs(b)
    e = 1e-13 * r
    if nn is not None:
        for s in (slice(0, nn), slice(nn, None)):
            e[s] += 2e-15 * r[s].max(initial=0.0)
    return inv @ e


def compare(ref, sol, x, A, b, rtol=1e-7, stol=1e-9, what="", floor=(0, 0)):
    """every unknown of the result `sol` (mapping) against the reference x"""
    cond = cond_scaled(A)
    sv, si = scales(ref, A, b, x)
    sv, si = max(sv, floor[0]), max(si, floor[1])
    back = backward(A, b, x)
    for u, key in ref.names():
        got = complex(np.asarray(sol[key]).reshape(-1)[0])
        want = complex(x[ref.idx[u]])
        sc = sv if u[0] == "v" else si
        tol = rtol * abs(want) + (stol + 1e-14 * cond) * sc + back[ref.idx[u]]
        require(abs(got - want) <= tol, "%s%s = %r, the circuit equations give %r", what, key, got, want)


def check_unknown_set(sol_keys, ref):
    """The simulator's result has exactly the circuit's unknowns."""
    got = sorted(k.upper() for k in sol_keys)
    want = sorted(key_of(u).upper() for u in ref.idx)
    require(got == want, "variables are %r, expected %r", got, want)


# --------------------------------------------------------------------------
# generators

MANT = [1.0, 1.5, 2.0, 2.2, 3.3, 4.7, 5.0, 6.8, 8.2]


def mag(lo, hi, signed=False):
    """mantissa * 10**exp, 10**lo <= |x| < 10**(hi+1)"""
    m = st.one_of(st.sampled_from(MANT), st.integers(100, 999).map(lambda k: k / 100.0))
    e = st.integers(lo, hi)
    if signed:
        return st.builds(lambda s, m, e: float(s * float("%.3ge%d" % (m, e))), st.sampled_from([1, -1]), m, e)
    return st.builds(lambda m, e: float("%.3ge%d" % (m, e)), m, e)


R_VALUES = mag(1, 4)
NODE_POOLS = [
    ["1", "2", "3", "4", "5", "6", "7", "8", "9", "10"],
    ["n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "n10"],
    ["in", "out", "a", "b", "vdd", "x1", "nn", "p5", "q", "zz"],
    ["10", "2a", "mid", "01", "7", "u_2", "out", "y", "k", "ab"],
    ["Out", "IN", "n_1", "B2", "c", "D", "e5", "11", "VSS", "T"],
]


@st.composite
def node_names(draw, lo=1, hi=6):
    n = draw(st.integers(lo, hi))
    pool = draw(st.sampled_from(NODE_POOLS))
    return pool[:n]


def ident(draw, letter, used, simple=False):
    """an element name not in `used` (names differ beyond letter case)"""
    i = 1
    while True:
        nm = letter + str(i)
        if nm.upper() not in used:
            break
        i += 1
    if not simple and draw(st.integers(0, 3)) == 0:
        suf = draw(st.sampled_from(["a", "x_1", "FB", "in", "load", "99", "s", None, None]))
        if suf is None:
            # a name which continues another one's
            same = sorted(x for x in used if x[0] == letter.upper())
            alt = (draw(st.sampled_from(same)) if same else letter) + draw(st.sampled_from("1b"))
        else:
            alt = letter + suf
        if alt.upper() not in used:
            nm = alt
    used.add(nm.upper())
    return nm


@st.composite
def linear_desc(draw, max_nodes=6, max_extra=7, reactive=True, controlled=True,
                couplings=True, sources=True, dc=mag(-2, 1, signed=True), ac=None, fn=None,
                caps=mag(-12, -6), inds=mag(-9, -3), rvals=R_VALUES, tree_kinds=None,
                simple_names=False, shuffle=True, ics=None, extra_kinds=None,
                always_source=True, allow_self=True):
    """A random linear circuit with a resistive/voltage-defined spanning tree, so
    that without controlled sources it has exactly one solution."""
    nodes = draw(node_names(1, max_nodes))
    used = set()
    elems = []
    vsrc = []  # ids usable as current sensors

    def src_fields(e, is_v):
        e["dc"] = draw(dc) if draw(st.integers(0, 9)) else 0.0
        if ac is not None:
            e["ac"] = draw(ac)
        if fn is not None:
            f = draw(st.one_of(st.none(), fn))
            if f is not None:
                e["fn"] = f
                e["dc"] = draw(st.one_of(st.none(), dc))
        if not is_v:
            if e["dc"] is not None:
                e["dc"] = float("%.6g" % (e["dc"] * 1e-3))
        return e

    tk = tree_kinds or (["R", "R", "R", "V", "L", "E", "H"] if controlled else ["R", "R", "R", "V", "L"])
    if not reactive:
        tk = [k for k in tk if k != "L"]
    if not sources:
        tk = [k for k in tk if k not in "VEH"]
    deferred = []
    for i, x in enumerate(nodes):
        par = GND if i == 0 else draw(st.sampled_from([GND] + nodes[:i]))
        ends = [x, par] if draw(st.booleans()) else [par, x]
        k = draw(st.sampled_from(tk))
        if k in "EH":
            deferred.append((k, ends))
            continue
        e = {"k": k, "id": ident(draw, k, used, simple_names), "n": ends}
        if k == "R":
            e["v"] = draw(rvals)
        elif k == "L":
            e["v"] = draw(inds)
            if ics is not None:
                e["ic"] = draw(ics)
        else:
            src_fields(e, True)
            vsrc.append(e["id"])
        elems.append(e)

    anyn = st.sampled_from([GND] + nodes)

    def pair():
        a = draw(anyn)
        b = draw(anyn)
        if a == b and (not allow_self or len(nodes) < 1 or draw(st.integers(0, 5))):
            others = [y for y in [GND] + nodes if y != a]
            b = draw(st.sampled_from(others))
        return [a, b]

    for k, ends in deferred:
        if k == "H" and not vsrc:
            k = "E"
        e = {"k": k, "id": ident(draw, k, used, simple_names), "n": ends}
        if k == "E":
            e["n"] = ends + pair()
            e["v"] = draw(mag(-1, 1, signed=True))
        else:
            e["src"] = draw(st.sampled_from(vsrc))
            e["v"] = draw(mag(0, 3, signed=True))
        elems.append(e)

    ek = extra_kinds
    if ek is None:
        ek = ["R", "R", "I"]
        if reactive:
            ek += ["C", "C", "RL"]
        ek += ["RV"]
        if controlled:
            ek += ["G", "F"]
        if not sources:
            ek = [k for k in ek if k in ("R", "C", "RL")]
    for _ in range(draw(st.integers(0, max_extra))):
        k = draw(st.sampled_from(ek))
        ends = pair()
        if k == "R":
            elems.append({"k": "R", "id": ident(draw, "R", used, simple_names), "n": ends, "v": draw(rvals)})
        elif k == "C":
            e = {"k": "C", "id": ident(draw, "C", used, simple_names), "n": ends, "v": draw(caps)}
            if ics is not None:
                e["ic"] = draw(ics)
            elems.append(e)
        elif k in ("RL", "RV"):
            # a branch through a node of its own, so that no loop of
            # voltage-defined elements is closed
            mid = "m%s" % ident(draw, "node", used, True)[4:]
            if mid in nodes or mid.upper() in [y.upper() for y in nodes]:
                continue
            elems.append({"k": "R", "id": ident(draw, "R", used, simple_names), "n": [ends[0], mid], "v": draw(rvals)})
            if k == "RL":
                e = {"k": "L", "id": ident(draw, "L", used, simple_names), "n": [mid, ends[1]], "v": draw(inds)}
                if ics is not None:
                    e["ic"] = draw(ics)
                elems.append(e)
            else:
                e = {"k": "V", "id": ident(draw, "V", used, simple_names), "n": [mid, ends[1]]}
                src_fields(e, True)
                elems.append(e)
                vsrc.append(e["id"])
        elif k == "I":
            e = {"k": "I", "id": ident(draw, "I", used, simple_names), "n": ends}
            src_fields(e, False)
            elems.append(e)
        elif k == "G":
            elems.append({"k": "G", "id": ident(draw, "G", used, simple_names), "n": ends + pair(),
                          "v": draw(mag(-5, -2, signed=True))})
        elif k == "F" and vsrc:
            elems.append({"k": "F", "id": ident(draw, "F", used, simple_names), "n": ends,
                          "src": draw(st.sampled_from(vsrc)), "v": draw(mag(-1, 0, signed=True))})
    if sources and always_source and not any(e["k"] in "VI" for e in elems):
        e = {"k": "I", "id": ident(draw, "I", used, simple_names), "n": [GND, nodes[-1]]}
        src_fields(e, False)
        if e["dc"] == 0:
            e["dc"] = 1e-3
        elems.append(e)
    if shuffle and draw(st.booleans()):
        elems = draw(st.permutations(elems))
    # couplings follow the inductors they couple
    ls = [e["id"] for e in elems if e["k"] == "L"]
    if couplings and len(ls) >= 2:
        prs = [(a, b) for i, a in enumerate(ls) for b in ls[i + 1:]]
        chosen = draw(st.lists(st.sampled_from(prs), unique=True, max_size=min(3, len(prs))))
        for a, b in chosen:
            # |k| small enough to keep the inductance matrix positive definite
            kk = draw(st.sampled_from([0.05, 0.1, 0.2, 0.3])) if len(chosen) > 1 else \
                draw(st.sampled_from([0.1, 0.5, 0.9, 0.99]))
            ends = [a, b] if draw(st.booleans()) else [b, a]
            elems.append({"k": "K", "id": ident(draw, "K", used, simple_names), "l": ends, "v": kk})
            if draw(st.integers(0, 3)) == 3:
                # two couplings of the same inductors add up
                elems[-1]["v"] = kk * .75
                elems.append({"k": "K", "id": ident(draw, "K", used, simple_names), "l": ends[::draw(st.sampled_from([1, -1]))],
                              "v": kk * .25})
    return {"elems": list(elems)}


def kinds(desc):
    return sorted(set(e["k"] for e in desc["elems"]))
