"""C14: printing a circuit as a netlist and parsing it back preserves it."""
import numpy as np
from hypothesis import strategies as st

from ..core import Test, Skip, fail, require
from .. import circ, nl, canon, tfun
from . import c13

PID = "C14"
RULE = "a case is non-trivial when the circuit has at least three elements of at least two kinds, one of them with a parameter beyond its value (initial condition, waveform, model, control)"
ASSUMPTIONS = [
    "netlists carry no letter case, no AC phase other than 0 and 180 degrees, no piece-wise linear waveforms and no state of switches",
    "model declarations are not part of what a circuit prints: the harness adds them to the text",
]


@st.composite
def case(draw):
    d = draw(c13.any_desc(max_nodes=6, max_extra=8))
    # values with all their digits
    for e in d["elems"]:
        for k in ("v", "dc", "ic", "area", "T", "w", "ac"):
            x = e.get(k)
            if isinstance(x, float) and x and draw(st.booleans()) and e["k"] != "K":
                e[k] = x * (1 + draw(st.integers(-999, 999)) / 1237.0 * .1)
            if e["k"] == "K" and k == "v" and x and draw(st.booleans()):
                e[k] = x * (1 - draw(st.integers(0, 999)) / 12370.0)
        f = e.get("fn")
        if f:
            for k in f:
                if isinstance(f[k], float) and f[k] and k not in ("per", "tr", "tf", "pw", "td", "td1", "td2") and draw(st.booleans()):
                    f[k] = f[k] * (1 + draw(st.integers(-999, 999)) / 1237.0 * .1)
            if f["t"] == "exp" and draw(st.booleans()):
                f["td2"] = f["tau2"] = float("inf")
    up = draw(st.booleans())
    if up:
        # names in any letter case: a netlist does not tell them apart
        def u(s):
            return draw(st.sampled_from([s, s.upper(), s.capitalize()]))
        mapn = {n: u(n) for n in circ.nodes_of(d)}
        mapn["0"] = "0"
        for e in d["elems"]:
            if "n" in e:
                e["n"] = [mapn[x] for x in e["n"]]
        ids = {e["id"]: e["id"][0].upper() + u(e["id"][1:]) if len(e["id"]) > 1 else e["id"] for e in d["elems"]}
        for e in d["elems"]:
            e["id"] = ids[e["id"]]
            if "src" in e:
                e["src"] = ids[e["src"]]
            if e["k"] == "K":
                e["l"] = [ids[x] for x in e["l"]]
    return {"desc": d, "num": draw(st.sampled_from(["float", "float", "np", "int"])),
            "title": draw(st.sampled_from(["t", "", "R1 1 0 1", "a circuit"]))}


def typed(d, how):
    """the same values as numpy or (when whole) int numbers"""
    out = dict(d, elems=[])
    for e in d["elems"]:
        e = dict(e)
        for k in ("v", "dc", "ic", "area", "T", "w", "l"):
            x = e.get(k)
            if isinstance(x, float):
                if how == "np":
                    e[k] = np.float64(x)
                elif how == "int" and x == int(x) and abs(x) < 1e9:
                    e[k] = int(x)
        out["elems"].append(e)
    return out


def check(case, log):
    from ahkab import netlist_parser as NP
    d = typed(case["desc"], case["num"])
    try:
        c = circ.build(d, title=case["title"])
    except ValueError as e:
        raise Skip("not buildable: %s" % e)
    text = str(c)
    for k in sorted(set(e["k"] for e in d["elems"])):
        log.label(k)
    for e in d["elems"]:
        if e.get("fn"):
            log.label(e["fn"]["t"])
    body = text.split("\n")
    require(len(body) == 1 + len(d["elems"]), "%d lines for %d elements:\n%s", len(body), len(d["elems"]), text)
    full = "\n".join(body[:1] + [" ".join(nl.model_tokens(m)) for m in d["models"]] + body[1:]) + "\n"
    with nl.Scratch() as tmp:
        try:
            p, directives, post = NP.parse_circuit(tmp.write("n.ckt", full))
        except (NP.NetlistParseError, ValueError, TypeError, IndexError, KeyError) as e:
            fail("the printed netlist is refused: %s: %s\n%s", type(e).__name__, e, full)
    require(not directives and not post, "the printed netlist has directives: %r", directives)
    want = canon.account(circ.build(nl.low(d)))
    canon.same(canon.account(p), want, rtol=1e-12, what="netlist\n%s\n" % full)
    if len(d["elems"]) < 3 or len(set(e["k"] for e in d["elems"])) < 2 or not any(
            e["k"] in "DMSKFHEG" or e.get("fn") or e.get("ic") is not None for e in d["elems"]):
        log.trivial = True


TESTS = [Test("roundtrip", case(), check, 1200, 20000)]
