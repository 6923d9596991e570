"""C13: parsing a netlist builds the circuit and analyses it describes."""
import math
import random
import re

from hypothesis import strategies as st

from ..core import Test, Skip, fail, require
from .. import circ, nl, canon, tfun
from . import c02

PID = "C13"
RULE = "a case is non-trivial when it has at least three elements and its text uses at least one layout feature (case, suffix, continuation, comment, include, subcircuit), or is a malformed netlist or an analysis line"
ASSUMPTIONS = [
    "letter case carries no meaning in a netlist: names come out in lower case",
    "a bare +, * or blank line inside a line continuation is not examined beyond blank lines",
    "values are read to 1e-12",
]
SUF = [("t", 12), ("g", 9), ("meg", 6), ("k", 3), ("m", -3), ("u", -6), ("n", -9), ("p", -12), ("f", -15)]


class Layout(object):
    """writes tokens in one of the spellings the grammar allows"""

    def __init__(self, seed, level):
        self.r = random.Random(seed)
        self.level = level
        self.used = set()

    def p(self, prob):
        return self.level > 0 and self.r.random() < prob

    def num(self, x):
        x = float(x)
        s = repr(x)
        if x == 0 or not math.isfinite(x) or not self.p(.6):
            return s
        how = self.r.choice(["suffix", "suffix", "plus", "exp", "EXP"])
        self.used.add("number")
        if how == "plus":
            return s if s.startswith("-") else "+" + s
        if how.lower() == "exp":
            return ("%.17e" % x) if how == "exp" else ("%.17E" % x)
        ok = [(t, e) for t, e in SUF if 1e-4 <= abs(x) / 10.0 ** e < 1e6]
        if not ok:
            return s
        t, e = self.r.choice(ok)
        from fractions import Fraction
        m = Fraction(x) / Fraction(10) ** e
        m = "%.17g" % float(m)
        return s if "e" in m else m + self.case(t)

    def case(self, s):
        if not self.p(.5):
            return s
        self.used.add("case")
        return "".join(self.r.choice([c.lower(), c.upper()]) for c in s)

    def line(self, toks):
        toks = [t if t.endswith(".lib") else self.case(t) for t in toks]
        out = toks[0]
        if self.p(.1):
            out = self.r.choice([" ", "\t"]) + out
        for i, t in enumerate(toks[1:]):
            if self.p(.12):
                self.used.add("continuation")
                blank = self.r.choice(["", "", "", "\n", " \n\t\n"])
                out += self.r.choice(["", " "]) + "\n" + blank + "+" + self.r.choice(["", " ", "  "]) + t
            else:
                out += self.r.choice([" ", " ", "  ", "\t", " \t "] if self.level else [" "]) + t
        if self.p(.1):
            self.used.add("comment")
            out += self.r.choice([" * a comment", " *tight", " *", "  * r9 1 2 3", " ** type=vdc vdc=3"])
        elif self.p(.1):
            out += self.r.choice([" ", "\t"])
        return out

    def filler(self):
        """lines without meaning"""
        out = []
        while self.p(.15):
            self.used.add("filler")
            out.append(self.r.choice(["", "   ", "* a comment", "*r1 1 0 5", "\t", "*", "* .end", " * indented"]))
        return out


@st.composite
def waves(draw, desc):
    """time functions on some independent sources"""
    for e in desc["elems"]:
        if e["k"] in "VI" and draw(st.integers(0, 2)) == 0:
            f = draw(tfun.fns(st.sampled_from([1e-6, 1e-3]), ["sin", "exp", "pulse", "sffm", "am"]) if False else tfun.fns(1e-5, ["sin", "exp", "pulse", "sffm", "am"]))
            e["fn"] = f
            if draw(st.integers(0, 3)) == 0:
                e["dc"] = None
    return desc


@st.composite
def any_desc(draw, max_nodes=5, max_extra=5, devices=True):
    ic = st.one_of(st.none(), st.just(0.0), circ.mag(-2, 1, signed=True))
    desc = draw(circ.linear_desc(max_nodes=max_nodes, max_extra=max_extra, ac=st.one_of(st.none(), circ.mag(-1, 1, signed=True)), ics=ic))
    desc = {"elems": [dict(e) for e in desc["elems"]], "models": desc.get("models", [])}
    desc = draw(waves(desc))
    if devices and draw(st.integers(0, 1)):
        desc = draw(c02.add_devices(desc, ["D", "D", "M", "E", "S"], 1, 3))
        desc["elems"] = [dict(e) for e in desc["elems"]]
        for e in desc["elems"]:
            if e["k"] == "D":
                if draw(st.integers(0, 3)) == 0:
                    e["ic"] = draw(circ.mag(-2, 0, signed=True))
                if draw(st.integers(0, 3)) == 0:
                    e["off"] = draw(st.integers(0, 1))
            if e["k"] == "M" and draw(st.integers(0, 3)) == 0:
                e["mult"] = draw(st.sampled_from([1, 2, 3]))
        # couplings name inductors declared before
        ks = [e for e in desc["elems"] if e["k"] == "K"]
        desc["elems"] = [e for e in desc["elems"] if e["k"] != "K"] + ks
    return fix_case(desc)


def fix_case(desc):
    """names that differ by letter case only would be one name in a netlist"""
    d = nl.low(desc)
    return d


@st.composite
def flat_case(draw):
    return {"desc": draw(any_desc()), "seed": draw(st.integers(0, 2 ** 31)), "level": draw(st.sampled_from([0, 1, 1, 1])),
            "include": draw(st.integers(0, 3)) == 0, "end": draw(st.integers(0, 2)) == 0,
            "title": draw(st.sampled_from(["title", "R1 1 0 5", "* stars", "", ".op"])),
            "eol": draw(st.booleans())}


def toks(e, L):
    return nl.elem_tokens(e, L.num, positional=L.p(.4))


def write(case, tmp, L):
    desc = case["desc"]
    els = [L.line(toks(e, L)) for e in desc["elems"]]
    mods = [L.line(nl.model_tokens(m, L.num)) for m in desc["models"]]
    inc = None
    if case["include"]:
        L.used.add("include")
        k = L.r.randint(0, len(els))
        inc, els = els[k:], els[:k]
        if mods and L.r.random() < .5:
            inc = inc + mods
            mods = []
    # models may be anywhere
    out = list(els)
    for m in mods:
        out.insert(L.r.randint(0, len(out)), m)
    name = L.r.choice(["part.lib", "Part.lib", "sub/MORE.lib"])
    if inc is not None:
        out.insert(L.r.randint(0, len(out)), L.line([".include", name]))
        import os
        os.makedirs(tmp.path("sub"), exist_ok=True)
        body = []
        for x in inc:
            body += L.filler() + [x]
        tmp.write(name, "\n".join(body) + ("\n" if case["eol"] else ""))
    text = [case["title"]]
    for x in out:
        text += L.filler() + [x]
    if case["end"] and inc is None:
        L.used.add("end")
        text += [L.case(".end"), "R999 1 0 1", "this is not read"]
    return tmp.write("main.ckt", "\n".join(text) + ("\n" if case["eol"] else ""))


def check_flat(case, log):
    from ahkab import netlist_parser as NP
    L = Layout(case["seed"], case["level"])
    with nl.Scratch() as tmp:
        f = write(case, tmp, L)
        text = open(f).read()
        try:
            c, directives, post = NP.parse_circuit(f)
        except (NP.NetlistParseError, ValueError, IndexError, TypeError, KeyError) as e:
            fail("the netlist is refused: %s: %s\n%s", type(e).__name__, e, text)
    log.label(*sorted(L.used))
    if len(case["desc"]["elems"]) < 3 or not L.used:
        log.trivial = True
    require(not directives and not post, "directives out of nowhere: %r\n%s", directives, text)
    require(c.title == case["title"].lower(), "the title is %r, the first line was %r", c.title, case["title"])
    try:
        want = circ.build(case["desc"])
    except ValueError as e:
        raise Skip("not buildable: %s" % e)
    canon.same(canon.account(c), canon.account(want), what="netlist\n%s\n" % text)
    got, exp = set(k for k in c.nodes_dict if isinstance(k, str)), set(k for k in want.nodes_dict if isinstance(k, str))
    require(got == exp, "the nodes are %s, expected %s", sorted(got), sorted(exp))
    require(set(c.models) == set(m["name"] for m in case["desc"]["models"]), "models %s", sorted(c.models))


# ---------------------------------------------------------------- subcircuits

@st.composite
def sub_case(draw):
    """subcircuit definitions (the later may call the earlier ones), and a main circuit calling them"""
    subs = []
    for i in range(draw(st.integers(1, 3))):
        d = draw(any_desc(max_nodes=3, max_extra=3, devices=draw(st.integers(0, 2)) == 0))
        for m in d["models"]:
            m["name"] = m["name"] + "_%d" % i
        for e in d["elems"]:
            if e["k"] in "DMS":
                e["m"] += "_%d" % i
        nodes = circ.nodes_of(d)
        ports = draw(st.lists(st.sampled_from(nodes), min_size=1, max_size=3, unique=True)) if nodes else []
        calls = []
        if subs and draw(st.booleans()):
            calls.append(call(draw, draw(st.sampled_from(subs)), nodes, "xin"))
        # ids of the calls: x followed by a name
        subs.append({"name": draw(st.sampled_from(["amp", "s", "cell_", "x"])) + str(i), "desc": d, "ports": ports, "calls": calls})
    main = draw(any_desc(max_nodes=3, max_extra=2, devices=False))
    nodes = circ.nodes_of(main)
    calls = [call(draw, draw(st.sampled_from(subs)), nodes + ["0", "extra"], "x%d" % k) for k in range(draw(st.integers(1, 3)))]
    return {"subs": subs, "main": main, "calls": calls, "seed": draw(st.integers(0, 2 ** 31)), "level": draw(st.sampled_from([0, 1]))}


def call(draw, sub, nodes, id):
    return {"id": id + draw(st.sampled_from(["", "a", "_b"])), "sub": sub["name"],
            "map": [[p, draw(st.sampled_from(nodes))] for p in sub["ports"]]}


def expand(case, call, outer, depth):
    """flat list of (element, node map, table of ids) in netlist order"""
    sub = [s for s in case["subs"] if s["name"] == call["sub"]][0]
    inst = depth + "/" + call["id"]
    m = {p: outer(n) for p, n in call["map"]}
    m["0"] = "0"

    def node(n):
        return m[n] if n in m else inst + ":" + n
    out = [(e, node, inst) for e in sub["desc"]["elems"]]
    for c in sub["calls"]:
        out += expand(case, c, node, inst)
    return out


def check_sub(case, log):
    from ahkab import netlist_parser as NP
    L = Layout(case["seed"], case["level"])
    blocks = []
    for s in case["subs"]:
        b = [L.line([".subckt", s["name"]] + s["ports"])]
        for e in s["desc"]["elems"]:
            b += L.filler() + [L.line(toks(e, L))]
        for c in s["calls"]:
            b.append(L.line(calltoks(c, L)))
        b.append(L.line([".ends"]))
        blocks.append(b)
        for m in s["desc"]["models"]:
            # declarations mean the same anywhere
            ml = L.line(nl.model_tokens(m, L.num))
            if L.r.random() < .5:
                b.insert(1, ml)
            else:
                blocks.append([ml])
    lines = [[L.line(toks(e, L))] for e in case["main"]["elems"]]
    calls = [[L.line(calltoks(c, L))] for c in case["calls"]]
    body = lines + calls
    for b in blocks:
        # calls may come before or after the definition
        body.insert(L.r.randint(0, len(body)), b)
    text = "title\n" + "\n".join(x for b in body for x in b) + "\n"
    with nl.Scratch() as tmp:
        try:
            c, directives, post = NP.parse_circuit(tmp.write("n.ckt", text))
        except (NP.NetlistParseError, ValueError, IndexError, TypeError, KeyError) as e:
            fail("the netlist is refused: %s: %s\n%s", type(e).__name__, e, text)
    log.label("nested" if any(s["calls"] for s in case["subs"]) else "flat")
    flat = [(e, lambda n: n, "") for e in case["main"]["elems"]]
    for cl in case["calls"]:
        flat += expand(case, cl, lambda n: n, "")
    if len(flat) - len(case["main"]["elems"]) < 2:
        log.trivial = True
    # the expected flat circuit, with names of our own
    names = {}
    for i, (e, node, inst) in enumerate(flat):
        names[(inst, e["id"])] = e["id"][0] + "%d" % i
    elems = []
    for e, node, inst in flat:
        f = dict(e, id=names[(inst, e["id"])])
        if "n" in e:
            f["n"] = [node(n) for n in e["n"]]
        if "src" in e:
            f["src"] = names[(inst, e["src"])]
        if e["k"] == "K":
            f["l"] = [names[(inst, x)] for x in e["l"]]
        elems.append(f)
    models = [m for s in case["subs"] for m in s["desc"]["models"]]
    try:
        want = circ.build({"elems": elems, "models": models})
    except ValueError as e:
        raise Skip("not buildable: %s" % e)
    require(len(c) == len(want), "%d elements, expected %d\n%s", len(c), len(want), text)
    ids = [e.part_id for e in c]
    require(len(set(ids)) == len(ids), "element names are not unique: %s\n%s", sorted(ids), text)
    # rename the parsed circuit: elements by position, nodes by the bijection they induce
    ren = dict(zip(ids, [e.part_id for e in want]))
    acc, exp = canon.account(c), canon.account(want)
    top = set(n for e in case["main"]["elems"] for n in e.get("n", [])) | {"0", "extra"}
    fwd, back = {}, {}
    for g, w in zip(acc, exp):
        require(g["class"] == w["class"], "element %s is a %s, expected a %s\n%s", g["id"], g["class"], w["class"], text)
        g["id"] = ren[g["id"]]
        for k in ("source", ):
            if k in g:
                require(g[k] in ren, "%s refers to %r, which is no element of the circuit\n%s", g["id"], g[k], text)
                g[k] = ren[g[k]]
        for k in ("L", "coupled"):
            if k in g:
                require(all(x in ren for x in g[k]), "%s refers to %r\n%s", g["id"], g[k], text)
                g[k] = [ren[x] for x in g[k]]
                if k == "coupled":
                    g[k].sort()
        for k in ("n", "sn1", "sn2", "ng", "nb"):
            if k not in g:
                continue
            gs, ws = (g[k], w[k]) if k == "n" else ([g[k]], [w[k]])
            for a, b in zip(gs, ws):
                require(fwd.setdefault(a, b) == b and back.setdefault(b, a) == a,
                        "node %r of the circuit stands for %r and %r\n%s", a, fwd.get(a), b, text)
                if b in top or a in top:
                    require(a == b, "node %r appears as %r\n%s", b, a, text)
            g[k] = w[k]
    canon.same(acc, exp, what="netlist\n%s\n" % text)


def calltoks(c, L):
    t = ["name=" + c["sub"]] + ["%s=%s" % (a, b) for a, b in c["map"]]
    L.r.shuffle(t)
    return [c["id"]] + t


# ---------------------------------------------------------------- analyses

def number_text(draw, lo, hi):
    x = draw(circ.mag(lo, hi))
    return x


@st.composite
def an_case(draw):
    t = draw(st.sampled_from(["op", "dc", "tran", "ac", "pss", "pz", "symbolic"]))
    pos = draw(st.booleans())
    a = {"t": t, "pos": pos, "seed": draw(st.integers(0, 2 ** 31))}
    if t == "op":
        a["args"] = {"guess": draw(st.sampled_from([None, True, False]))}
    elif t == "dc":
        lo = draw(circ.mag(-2, 1, signed=True))
        n = draw(st.integers(1, 40))
        step = draw(circ.mag(-2, 0)) * draw(st.sampled_from([1, 1, -1]))
        a["args"] = {"source": draw(st.sampled_from(["V1", "vbias", "I2"])), "start": lo, "stop": lo + n * step, "step": step,
                     "type": draw(st.sampled_from([None, "lin", "LIN"]))}
        a["label"] = draw(st.sampled_from(["source", "src"]))
    elif t == "tran":
        a["args"] = {"tstep": draw(circ.mag(-9, -6)), "tstop": draw(circ.mag(-5, 0)), "uic": draw(st.sampled_from([None, 0, 1, 2])),
                     "tstart": draw(st.sampled_from([None, 0.0, 1e-7])), "method": draw(st.sampled_from([None, "trap", "implicit_euler", "gear3", "GEAR4"]))}
        if draw(st.integers(0, 4)) == 0:
            a["args"]["uic"] = 3
            a["args"]["ic_label"] = "lab1"
    elif t == "ac":
        lo = draw(circ.mag(-1, 4))
        a["args"] = {"type": draw(st.sampled_from(["lin", "log", "LOG"])), "nsteps": draw(st.integers(1, 300)), "start": lo,
                     "stop": lo * draw(st.sampled_from([10.0, 1e3, 12.5]))}
        a["label"] = draw(st.sampled_from(["type", "sweep_type"]))
    elif t == "pss":
        a["args"] = {"period": draw(circ.mag(-6, 0)), "points": draw(st.integers(10, 500)), "method": draw(st.sampled_from([None, "shooting", "brute-force"]))}
    elif t == "pz":
        a["args"] = {"output": draw(st.sampled_from([None, "v(out,in)", "v(2)", "v(2,0)"])), "input": draw(st.sampled_from(["V1", "isrc"])),
                     "shift": draw(st.sampled_from([None, 1.0, 2e3]))}
        if a["args"]["output"] is None:
            a["args"]["input"] = None
            if pos:
                a["args"]["shift"] = None
        a["label"] = draw(st.sampled_from(["input", "source"]))
    else:
        a["args"] = {"tf": draw(st.sampled_from([None, "V1"])), "ac": draw(st.sampled_from([None, True, False])), "r0s": draw(st.sampled_from([None, True, False]))}
        a["pos"] = False
    return a


POS = {"op": [], "dc": ["source", "start", "stop", "step"], "tran": ["tstep", "tstop", "uic"], "ac": ["type", "nsteps", "start", "stop"],
       "pss": ["period"], "pz": ["output", "input", "shift"], "symbolic": []}


def an_line(case, L):
    a, t = case["args"], case["t"]
    lab = {"source": case.get("label") if t == "dc" else None, "input": case.get("label") if t == "pz" else None,
           "type": case.get("label") if t == "ac" else None}

    def val(v):
        if isinstance(v, bool):
            return L.r.choice(["yes", "true", "1"] if v else ["no", "false", "0"])
        if isinstance(v, int):
            return str(v)
        return v if isinstance(v, str) else L.num(v)
    positional, rest = [], [k for k in a if a[k] is not None]
    if case["pos"]:
        for k in POS[t]:
            if a.get(k) is None:
                break
            positional.append(val(a[k]))
            rest.remove(k)
    L.r.shuffle(rest)
    return ["." + t] + positional + ["%s=%s" % (lab.get(k) or k, val(a[k])) for k in rest]


def check_an(case, log):
    import ahkab
    from ahkab import netlist_parser as NP
    L = Layout(case["seed"], 1)
    a, t = case["args"], case["t"]
    text = "title\nv1 1 0 vdc=1\nr1 1 0 1k\n%s\n" % L.line(an_line(case, L))
    log.label(t)
    with nl.Scratch() as tmp:
        c, d, p = NP.parse_circuit(tmp.write("n.ckt", text))
    try:
        an = NP.parse_analysis(c, d)
    except (NP.NetlistParseError, ValueError, TypeError) as e:
        fail("the line %r is refused: %s", text.split("1k\n")[1], e)
    require(len(an) == 1 and an[0]["type"] == t, "the line %r gives %r", text, an)
    got = an[0]
    if t == "op":
        want = {"guess": True if a["guess"] is None else a["guess"]}
    elif t == "dc":
        want = {"source": a["source"].lower(), "start": a["start"], "stop": a["stop"], "step": a["step"], "sweep_type": "LIN"}
        got = dict(got, sweep_type=got["sweep_type"].upper()[:3])
    elif t == "tran":
        x0 = {None: None, 0: None, 1: "op", 2: "op+ic", 3: a.get("ic_label")}[a["uic"]]
        want = {"tstart": a["tstart"] or 0.0, "tstop": a["tstop"], "tstep": a["tstep"], "x0": x0,
                "method": a["method"].lower() if a["method"] else None}
    elif t == "ac":
        want = {"start": a["start"], "stop": a["stop"], "points": a["nsteps"], "sweep_type": a["type"].upper()}
        got = dict(got, sweep_type=got["sweep_type"].upper()[:3])
    elif t == "pss":
        want = {"period": a["period"], "points": a["points"], "method": a["method"] or ahkab.options.SHOOTINGPSS}
    elif t == "pz":
        want = {"output_port": a["output"], "input_source": a["input"].lower() if a["input"] else None, "shift": a["shift"] or 0.0}
    else:
        want = {"source": a["tf"].lower() if a["tf"] else None, "ac_enable": True if a["ac"] is None else a["ac"], "r0s": bool(a["r0s"])}
    for k, v in want.items():
        require(k in got, "%r: no %s in %r", text, k, got)
        if isinstance(v, float) or isinstance(v, int) and not isinstance(v, bool):
            ok = not isinstance(got[k], str) and got[k] is not None and abs(float(got[k]) - v) <= 1e-12 * abs(v)
        elif isinstance(v, bool):
            ok = bool(got[k]) == v and not isinstance(got[k], str)
        else:
            ok = got[k] == v
        if not ok:
            fail("%r: %s is %r, expected %r", text.split("1k\n")[1], k, got[k], v)


# ---------------------------------------------------------------- refusals

WRONG = [
    "r9 1 0", "r9 1 0 0", "r9 1 0 1k 2k", "r9 1 0 1k foo=1", "c9 1 0", "c9 1 0 1u ic", "c9 1 0 1u 3", "c9 1 0 1u foo=2", "l9 1 0", "l9 1 0 1u bar=1",
    "l9 1 0 1u ic=1 2", "k9 l1 l2", "k9 l1 lx .5", "k9 l1 l2 q=.5", "k9 l1 l2 .5 .6", "v9 1 0", "v9 1", "v9 1 0 type=vdc", "v9 1 0 vac=1", "v9 1 0 type=foo vdc=1",
    "v9 1 0 idc=1", "v9 1 0 vdc=1 type=sin 1", "v9 1 0 vdc=1 type=sin vo=1 va=1", "v9 1 0 vdc=1 type=sin vo=1 va=1 freq=1 foo=3",
    "v9 1 0 vdc=1 type=sin 0 1 1k type=sin 0 1 1k", "v9 1 0 vdc=1 type=pulse 0 1 2", "i9 1 0", "i9 1 0 vdc=1", "i9 1 0 type=bar", "i9 1 0 iac=1",
    "e9 1 0 1", "e9 1 0 1 0", "e9 1 0 1 0 2 3", "g9 1 0 1 0", "g9 1 0 1 0 2 3", "f9 1 0 v1", "f9 1 0 v1 2 3", "h9 1 0 v1", "h9 1 0 v1 2 3",
    "d9 1 0", "d9 1 0 nomodel", "d9 1 0 dd foo=1", "d9 1 0 dd off=maybe", "m9 1 2 3 0", "m9 1 2 3 0 mm", "m9 1 2 3 0 mm w=1u", "m9 1 2 3 0 mm l=1u", "m9 1 2 3 0 nomodel w=1u l=1u",
    "m9 1 2 3 0 mm w=1u l=1u q=3", "m9 1 2 3 0 dd w=1u l=1u", "s9 1 2 3 0", "s9 1 2 3 0 nomodel", "s9 1 2 3 0 dd", "s9 1 2 3 0 sw 3", "q9 1 2 3", "z1 1 0 5",
    "x9 name=nosub a=1", "x9 a=1 b=2", "x9 name=sub a=1", "x9 name=sub a=1 b=2 c=3", "x9",
    ".model foo bar x=1", ".model diode", ".model diode d2 foo=1", ".model mosq m2 type=q", ".subckt sub a b\nr1 a b 1\n.ends", ".subckt in1 a\nr1 a 0 1",
    ".ends", ".subckt in2 a\n.subckt in3 b\n.ends\n.ends", ".subckt in4 0 a\nr1 a 0 1\n.ends\nx8 name=in4 0=1 a=1",
    ".foo 1 2", ".tran tstep=1u", ".tran 1u", ".tran 1u 1m 7", ".tran tstep=1u tstop=1m foo=2", ".dc v1 0 1", ".dc v1 0 1 .1 .2 .3", ".dc source=v1 start=0 stop=1",
    ".ac lin 10 1", ".ac lin 10 1 10 20", ".ac start=1 stop=2", ".op 1 2", ".op guess=maybe", ".pss points=10", ".dc v1 0 10 2 type=log", ".pz v(1) v1 0 5",
    ".ic v(1)=2", ".ic name=a v(1)=abc",
]


@st.composite
def bad_case(draw):
    return {"line": draw(st.sampled_from(WRONG)), "at": draw(st.integers(0, 8)), "seed": draw(st.integers(0, 2 ** 31))}


def check_bad(case, log):
    from ahkab import netlist_parser as NP
    base = ["v1 1 0 vdc=1", "r1 1 2 1k", "l1 2 3 1u", "l2 3 0 1u", ".model diode dd is=1f", ".model mosq mm type=n", ".model sw sw vt=1",
            ".subckt sub a b\nr1 a b 1\n.ends"]
    L = Layout(case["seed"], 1)
    line = case["line"]
    if line[0] != "." and not line.startswith(("k9", "v9 1 0 type=sin")):
        line = L.line(line.split())
        if "*" in line or "+" in line:
            line = case["line"]
    at = min(case["at"], len(base))
    lines = base[:at] + [line] + base[at:]
    if case["line"].startswith("k9"):
        lines = base + [line]
    if case["line"].startswith(".subckt in1"):
        lines = base + [line]
    text = "\n".join(["title"] + lines) + "\n"
    log.label(case["line"][:3])
    # without the line the netlist is fine
    with nl.Scratch() as tmp:
        NP.parse_circuit(tmp.write("ok.ckt", "\n".join(["title"] + base) + "\n"))
        try:
            c, d, p = NP.parse_circuit(tmp.write("n.ckt", text))
            NP.parse_analysis(c, d)
            NP.parse_ics(d)
        except NP.NetlistParseError:
            return
        except Exception as e:
            fail("the line %r ends in %s: %s, not in a netlist error", line, type(e).__name__, e)
    fail("the wrong line %r is accepted", line)


TESTS = [
    Test("flat", flat_case(), check_flat, 700, 12000),
    Test("subckt", sub_case(), check_sub, 400, 8000),
    Test("analyses", an_case(), check_an, 700, 8000),
    Test("refusals", bad_case(), check_bad, 1200, 6000),
]
