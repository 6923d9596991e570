"""Rewritings of circuit descriptions that keep their meaning.

A rewriting turns a description into another one and says how every unknown of
the first is a linear combination of unknowns of the second: a mapping
{unknown: [(coefficient, unknown)] or None}, None when it has no counterpart.
"""
import copy

from hypothesis import strategies as st

from . import circ

GND = "0"
TWO = "RCLVI"


class State(object):
    """a description, the map from the unknowns of the first one to it"""

    def __init__(self, desc):
        self.first = desc
        self.d = copy.deepcopy(desc)
        ref = circ.Ref(desc)
        self.map = {u: [(1.0, u)] for u in ref.idx}
        self.src = {e["id"]: (1.0, e["id"]) for e in desc["elems"] if e["k"] in "VI"}
        self.tk = 1.0
        self.names = []
        self.used = {e["id"].upper() for e in desc["elems"]}
        self.nodes = {x.upper() for x in circ.nodes_of(desc)} | {GND}

    def ident(self, letter):
        i = 1
        while "%sT%d" % (letter, i) in self.used:
            i += 1
        self.used.add("%sT%d" % (letter, i))
        return "%st%d" % (letter, i)

    def node(self):
        i = 1
        while "T%d" % i in self.nodes:
            i += 1
        self.nodes.add("T%d" % i)
        return "t%d" % i

    def remap(self, m):
        """m: {unknown of the current description: combination of the new one's}"""
        for u, comb in self.map.items():
            if comb is None:
                continue
            acc = {}
            for c, v in comb:
                r = m.get(v, [(1.0, v)])
                if r is None:
                    acc = None
                    break
                for c2, w in r:
                    if w != ("v", GND):
                        acc[w] = acc.get(w, 0.0) + c * c2
            self.map[u] = None if acc is None else [(c, w) for w, c in acc.items()]

    def resource(self, m):
        """m: {source of the current description: (factor, source) or None}"""
        for s, x in self.src.items():
            if x is not None and x[1] in m:
                y = m[x[1]]
                self.src[s] = None if y is None else (x[0] * y[0], y[1])

    def insert(self, new):
        """add elements, the couplings staying last"""
        es = self.d["elems"]
        k = [e for e in es if e["k"] == "K"]
        self.d["elems"] = [e for e in es if e["k"] != "K"] + new + k

    def replace(self, e, new):
        es = self.d["elems"]
        i = es.index(e)
        self.d["elems"] = es[:i] + new + es[i + 1:]

    def pick(self, draw, kinds, cond=lambda e: True):
        es = [e for e in self.d["elems"] if e["k"] in kinds and cond(e)]
        return draw(st.sampled_from(es)) if es else None

    def sensed(self, e):
        return any(x.get("src", "").upper() == e["id"].upper() for x in self.d["elems"])

    def dependents(self, e):
        return [x for x in self.d["elems"] if x.get("src", "").upper() == e["id"].upper()]

    def coupled(self, e):
        return any(e["id"].upper() in [y.upper() for y in x["l"]] for x in self.d["elems"] if x["k"] == "K")


def I(e):
    return ("i", e["id"].upper())


def vcomb(k, a, b):
    return [(c, ("v", x)) for c, x in ((k, a), (-k, b)) if x != GND]


def scale_source(e, k):
    """every value of an independent source times k"""
    e = dict(e)
    if e.get("dc") is not None:
        e["dc"] = e["dc"] * k
    ac = e.get("ac")
    if ac is not None:
        e["ac"] = [x * k for x in ac] if isinstance(ac, (list, tuple)) else ac * k
    if e.get("fn"):
        e["fn"] = scale_fn(e["fn"], k)
    return e


def scale_fn(f, k):
    return {n: [y * k for y in v] if n == "y" else v * k if n in ("vo", "va", "v1", "v2", "sa") else v
            for n, v in f.items()}


def stretch_fn(f, k):
    """f(t/k)"""
    out = {}
    for n, v in f.items():
        if n in ("td", "td1", "td2", "tau1", "tau2", "tr", "tf", "pw", "per", "repeat_time"):
            v = None if v is None else v * k
        elif n in ("freq", "fc", "fs", "fm", "theta"):
            v = None if v is None else v / k
        elif n == "x":
            v = [y * k for y in v]
        out[n] = v
    return out


# ---------------------------------------------------------------- rewritings

def permute(s, draw):
    es = s.d["elems"]
    s.d["elems"] = list(draw(st.permutations([e for e in es if e["k"] != "K"]))) + \
        list(draw(st.permutations([e for e in es if e["k"] == "K"])))


def rename_nodes(s, draw):
    old = circ.nodes_of(s.d)
    pool = draw(st.sampled_from([["%d" % (k + 1) for k in range(40)], ["nd%d" % k for k in range(40)],
                                 list(reversed(["%d" % (k + 1) for k in range(40)])),
                                 ["z9", "a", "out", "GG", "x_1", "in", "b2", "T", "q", "VDD"] + ["w%d" % k for k in range(30)]]))
    new = pool[:len(old)]
    if draw(st.booleans()):
        new = draw(st.permutations(new))
    tr = dict(zip(old, new))
    for e in s.d["elems"]:
        if "n" in e:
            e["n"] = [tr.get(x, x) for x in e["n"]]
    s.nodes = {x.upper() for x in new} | {GND}
    s.remap({("v", a): [(1.0, ("v", b))] for a, b in tr.items()})


def rename_elems(s, draw):
    es = s.d["elems"]
    tag = draw(st.sampled_from(["x", "_", "9", "Ab"]))
    order = draw(st.permutations(range(len(es))))
    tr = {e["id"]: "%s%s%d" % (e["id"][0], tag, k) for e, k in zip(es, order)}
    up = {a.upper(): b for a, b in tr.items()}
    for e in es:
        e["id"] = tr[e["id"]]
        if "src" in e:
            e["src"] = up[e["src"].upper()]
        if e["k"] == "K":
            e["l"] = [up[x.upper()] for x in e["l"]]
    s.used = {e["id"].upper() for e in es}
    s.remap({("i", a.upper()): [(1.0, ("i", b.upper()))] for a, b in tr.items()})
    s.resource({a: (1.0, b) for a, b in tr.items()})


def reverse(s, draw):
    e = s.pick(draw, "RRCCLVVIEEGGFFHHK")
    if e is None:
        return False
    k = e["k"]
    if k == "K":
        e["l"] = e["l"][::-1]
        return True
    if k == "L" and s.coupled(e):
        # reverse every inductor: the couplings keep their sign
        for x in s.d["elems"]:
            if x["k"] == "L":
                x["n"] = x["n"][::-1]
        s.remap({I(x): [(-1.0, I(x))] for x in s.d["elems"] if x["k"] == "L"})
        return True
    if k in "EG" and draw(st.booleans()):
        # both port pairs
        e["n"] = [e["n"][1], e["n"][0], e["n"][3], e["n"][2]]
        if k == "E":
            s.remap({I(e): [(-1.0, I(e))]})
        return True
    if k in "EG" and draw(st.booleans()):
        # the controlling pair and the gain
        e["n"] = [e["n"][0], e["n"][1], e["n"][3], e["n"][2]]
        e["v"] = -e["v"]
        return True
    e["n"] = [e["n"][1], e["n"][0]] + e["n"][2:]
    if k in "VI":
        e.update(scale_source(e, -1.0))
        s.resource({e["id"]: (-1.0, e["id"])})
    if k in "EGFH":
        e["v"] = -e["v"]
    if k == "V":
        for x in s.dependents(e):
            x["v"] = -x["v"]
    if k in "VLEH":
        s.remap({I(e): [(-1.0, I(e))]})
    return True


FR = st.sampled_from([.5, .25, .1, .7])


def split(s, draw):
    e = s.pick(draw, "RRCLVIEGFH", lambda e: not (e["k"] == "L" and s.coupled(e)))
    if e is None:
        return False
    k = e["k"]
    f = draw(FR)
    a, b = dict(e), dict(e, id=s.ident(k))
    if k == "R" and draw(st.booleans()) or k == "C":
        if k == "R":
            a["v"], b["v"] = e["v"] / f, e["v"] / (1 - f)
        else:
            a["v"], b["v"] = e["v"] * f, e["v"] * (1 - f)
    elif k in "IGF":
        if k == "I":
            a = scale_source(a, f)
            b = scale_source(b, 1 - f)
            s.resource({e["id"]: None})
        else:
            a["v"], b["v"] = e["v"] * f, e["v"] * (1 - f)
    else:
        m = s.node()
        a["n"] = [e["n"][0], m] + e["n"][2:]
        b["n"] = [m, e["n"][1]] + e["n"][2:]
        if k == "V":
            a = scale_source(a, f)
            b = scale_source(b, 1 - f)
            s.resource({e["id"]: None})
        else:
            a["v"], b["v"] = e["v"] * f, e["v"] * (1 - f)
        if k in "VLEH" and draw(st.booleans()):
            s.remap({I(e): [(1.0, I(b))]})
    s.replace(e, [a, b] if draw(st.booleans()) else [b, a])
    return True


def ammeter(s, draw):
    """a 0 V source in series; what senses the current may look there"""
    e = s.pick(draw, "RCLVIEH")
    if e is None:
        return False
    m = s.node()
    v = {"k": "V", "id": s.ident("V"), "dc": 0.0}
    if draw(st.booleans()):
        v["n"], sign = [e["n"][0], m], 1.0
    else:
        v["n"], sign = [m, e["n"][0]], -1.0
    e["n"] = [m] + e["n"][1:]
    for x in s.dependents(e):
        if draw(st.booleans()):
            x["src"] = v["id"]
            x["v"] = x["v"] * sign
    if e["k"] in "VLEH" and draw(st.booleans()):
        s.remap({I(e): [(sign, I(v))]})
    s.insert([v])
    return True


def shunt(s, draw):
    """a resistor across a source"""
    e = s.pick(draw, "VEH", lambda e: not s.sensed(e))
    if e is None:
        return False
    r = {"k": "R", "id": s.ident("R"), "n": [e["n"][0], e["n"][1]], "v": draw(circ.R_VALUES)}
    s.insert([r])
    s.remap({I(e): [(1.0, I(e))] + vcomb(1.0 / r["v"], *r["n"])})
    return True


def series(s, draw):
    """a resistor in series with a current source"""
    e = s.pick(draw, "IGF")
    if e is None:
        return False
    m = s.node()
    r = {"k": "R", "id": s.ident("R"), "n": [e["n"][0], m], "v": draw(circ.R_VALUES)}
    e["n"] = [m] + e["n"][1:]
    s.insert([r])
    return True


def norton(s, draw):
    """a voltage source with a resistor in series is a current source with it in parallel"""
    found = []
    deg = {}
    for e in s.d["elems"]:
        for x in e.get("n", []):
            deg[x] = deg.get(x, 0) + 1
    for v in s.d["elems"]:
        if v["k"] != "V" or s.sensed(v):
            continue
        for i in (0, 1):
            m = v["n"][i]
            if m != GND and deg[m] == 2 and v["n"][0] != v["n"][1]:
                for r in s.d["elems"]:
                    if r["k"] == "R" and m in r["n"] and r["n"][0] != r["n"][1] and len(circ.nodes_of(s.d)) > 1:
                        found.append((v["id"], i, r["id"]))
    if not found:
        return False
    vid, i, rid = draw(st.sampled_from(found))
    v = [e for e in s.d["elems"] if e["id"] == vid][0]
    r = [e for e in s.d["elems"] if e["id"] == rid][0]
    m = v["n"][i]
    far = v["n"][1 - i]
    a = r["n"][1 - r["n"].index(m)]
    # v(m) - v(far) = +-E ; the source drives +-E/R into a
    src = dict(scale_source(v, 1.0 / r["v"]), k="I", id=s.ident("I"), n=[far, a] if i == 0 else [a, far])
    s.replace(v, [src])
    r["n"] = [a, far]
    s.remap({("v", m): None, I(v): None})
    s.resource({vid: (1.0 / r["v"], src["id"])})
    return True


def dangling(s, draw):
    """elements that carry nothing"""
    nodes = circ.nodes_of(s.d) + [GND]
    a = draw(st.sampled_from(nodes))
    k = draw(st.sampled_from(["stub", "loop", "idle", "none"]))
    if k == "stub":
        s.insert([{"k": "R", "id": s.ident("R"), "n": draw(st.permutations([a, s.node()])), "v": draw(circ.R_VALUES)}])
    elif k == "loop":
        t = draw(st.sampled_from("RCG"))
        s.insert([{"k": t, "id": s.ident(t), "n": [a, a] + ([a, GND] if t == "G" else []),
                   "v": {"R": 1e3, "C": 1e-9, "G": 1e-3}[t]}])
    elif k == "idle":
        b = draw(st.sampled_from(nodes))
        s.insert([{"k": "I", "id": s.ident("I"), "n": [a, b], "dc": 0.0}])
    else:
        # a circuit of its own, which shares the ground
        m = s.node()
        s.insert([{"k": "V", "id": s.ident("V"), "n": [m, GND], "dc": 1.0, "ac": 1.0},
                  {"k": "R", "id": s.ident("R"), "n": [m, GND], "v": 1e3}])
    return True


def as_vccs(s, draw):
    """a resistor is a transconductance controlled by its own voltage"""
    e = s.pick(draw, "R")
    if e is None:
        return False
    s.replace(e, [{"k": "G", "id": s.ident("G"), "n": e["n"] + e["n"], "v": 1.0 / e["v"]}])
    return True


def as_ccvs(s, draw):
    """a controlled current source by the voltage of a resistor in an ammeter's place"""
    e = s.pick(draw, "F")
    if e is None:
        return False
    # F = v*i : a CCVS makes a voltage of the current, a VCCS the current again
    m = s.node()
    h = {"k": "H", "id": s.ident("H"), "n": [m, GND], "src": e["src"], "v": -1e3}
    g = {"k": "G", "id": s.ident("G"), "n": e["n"] + [m, GND], "v": e["v"] * 1e-3}
    s.replace(e, [h, g, {"k": "R", "id": s.ident("R"), "n": [m, GND], "v": 1e3}])
    return True


def impedance(s, draw):
    k = draw(st.sampled_from([2.0, 10.0, .1, .5]))
    for e in s.d["elems"]:
        if e["k"] in "RLH":
            e["v"] *= k
        elif e["k"] in "CG":
            e["v"] /= k
        elif e["k"] == "I":
            e.update(scale_source(e, 1.0 / k))
    s.remap({u: [(k, u)] for u in circ.Ref(s.d).idx if u[0] == "i"})
    s.resource({e["id"]: (1.0 / k, e["id"]) for e in s.d["elems"] if e["k"] == "I"})


def timescale(s, draw):
    k = draw(st.sampled_from([2.0, 4.0, .5, 16.0, .125]))
    for e in s.d["elems"]:
        if e["k"] in "LC":
            e["v"] *= k
        if e.get("fn"):
            e["fn"] = stretch_fn(e["fn"], k)
    s.tk *= k


def sources(s, draw):
    k = draw(st.sampled_from([2.0, -1.0, 10.0, -.5, .1]))
    for e in s.d["elems"]:
        if e["k"] in "VI":
            e.update(scale_source(e, k))
    s.remap({u: [(1.0 / k, u)] for u in circ.Ref(s.d).idx})
    s.resource({e["id"]: (k, e["id"]) for e in s.d["elems"] if e["k"] in "VI"})


def ground(s, draw):
    """another node is the reference"""
    nodes = circ.nodes_of(s.d)
    g = draw(st.sampled_from(nodes))
    for e in s.d["elems"]:
        if "n" in e:
            e["n"] = [{g: GND, GND: g}.get(x, x) for x in e["n"]]
    m = {("v", x): [(1.0, ("v", x)), (-1.0, ("v", g))] for x in nodes if x != g}
    m[("v", g)] = [(-1.0, ("v", g))]
    s.remap(m)


def twice(s, draw):
    """a copy of everything, which shares the ground only"""
    if len(s.d["elems"]) > 12:
        return False
    nodes = {x: s.node() for x in circ.nodes_of(s.d)}
    ids = {e["id"].upper(): s.ident(e["id"][0].upper()) for e in s.d["elems"]}
    new = []
    for e in copy.deepcopy(s.d["elems"]):
        e["id"] = ids[e["id"].upper()]
        if "n" in e:
            e["n"] = [nodes.get(x, x) for x in e["n"]]
        if "src" in e:
            e["src"] = ids[e["src"].upper()]
        if e["k"] == "K":
            e["l"] = [ids[x.upper()] for x in e["l"]]
        new.append(e)
    if draw(st.booleans()):
        s.remap({u: [(1.0, ("v", nodes[u[1]]) if u[0] == "v" else ("i", ids[u[1]].upper()))] for u in circ.Ref(s.d).idx})
        s.resource({e["id"]: (1.0, ids[e["id"].upper()]) for e in s.d["elems"]})
    s.insert([e for e in new if e["k"] != "K"])
    s.d["elems"] += [e for e in new if e["k"] == "K"]
    if draw(st.booleans()):
        permute(s, draw)
    return True


def mirror(s, draw):
    """every voltage and current negated, the devices exchanged for their complements"""
    for e in s.d["elems"]:
        if e["k"] in "VI":
            e.update(scale_source(e, -1.0))
        elif e["k"] == "D":
            e["n"] = e["n"][::-1]
    for m in s.d.get("models", []):
        if m["type"] in ("mosq", "ekv"):
            p = m["p"]
            p["TYPE"] = {"n": "p", "p": "n"}[p["TYPE"].lower()]
            p["VTO"] = -p["VTO"]
    s.remap({u: [(-1.0, u)] for u in circ.Ref(s.d).idx})
    s.resource({e["id"]: (-1.0, e["id"]) for e in s.d["elems"] if e["k"] in "VI"})


def parallel_devices(s, draw):
    e = s.pick(draw, "DM", lambda e: e["k"] == "D" or e.get("mult", 1) > 1)
    if e is None:
        return False
    a, b = dict(e), dict(e, id=s.ident(e["k"]))
    if e["k"] == "D":
        ar = e.get("area") or 1.0
        f = draw(FR)
        a["area"], b["area"] = ar * f, ar * (1 - f)
    else:
        m = e["mult"]
        k = draw(st.integers(1, m - 1))
        a["mult"], b["mult"] = k, m - k
    s.replace(e, [a, b])
    return True


def series_diode(s, draw):
    """an ammeter at a terminal of a device"""
    e = s.pick(draw, "DM")
    if e is None:
        return False
    i = draw(st.integers(0, len(e["n"]) - 1))
    m = s.node()
    s.insert([{"k": "V", "id": s.ident("V"), "n": draw(st.permutations([e["n"][i], m])), "dc": 0.0}])
    e["n"] = [m if j == i else x for j, x in enumerate(e["n"])]
    return True


def rename_models(s, draw):
    ms = s.d["models"]
    tr = {m["name"]: "w%d_%s" % (len(ms) - i, draw(st.sampled_from(["a", "B", "x1"]))) for i, m in enumerate(ms)}
    for m in ms:
        m["name"] = tr[m["name"]]
    for e in s.d["elems"]:
        if "m" in e:
            e["m"] = tr[e["m"]]
    s.d["models"] = list(draw(st.permutations(ms)))


LINEAR = [reverse, split, norton, ammeter, shunt, series, as_ccvs, as_vccs, ground, impedance, timescale, sources, twice,
          dangling, split, norton, reverse, permute, rename_nodes, rename_elems]
NONLINEAR = [mirror, parallel_devices, series_diode, reverse, split, norton, ammeter, shunt, series, ground, timescale, twice,
             as_vccs, dangling, mirror, parallel_devices, permute, rename_nodes, rename_elems, rename_models]


def rewritten(draw, desc, kinds, lo=1, hi=5):
    """(State after some rewritings)"""
    s = State(desc)
    for f in draw(st.lists(st.sampled_from(kinds), min_size=lo, max_size=hi, unique=False)):
        if f(s, draw) is not False:
            s.names.append(f.__name__)
    return s


def dump(s):
    """the rewriting as plain JSON"""
    return {"d2": s.d, "names": s.names, "tk": s.tk,
            "map": [[list(u), None if c is None else [[k, list(w)] for k, w in c]] for u, c in s.map.items()],
            "src": {a: list(b) for a, b in s.src.items() if b is not None}}
