"""C15: numbers with SPICE suffixes are read as the value they denote."""
import math
import re
from fractions import Fraction

from hypothesis import strategies as st

from ..core import Test, Skip, fail, require
from .. import nl

PID = "C15"
RULE = "a number is non-trivial when it has a suffix, an exponent, a sign or a fraction; a malformed text when it begins like a number or is a near miss of a suffix"
ASSUMPTIONS = [
    "the grammar of numbers is the one quoted in convert_units(): integer or decimal, with either a decimal exponent or a scale suffix",
    "2 ulp are allowed for scaling in floating point",
]

SUFFIX = {"": Fraction(1), "t": Fraction(10) ** 12, "g": Fraction(10) ** 9, "meg": Fraction(10) ** 6, "k": Fraction(1000),
          "mil": Fraction(254, 10) / 10 ** 6, "m": Fraction(1, 1000), "u": Fraction(1, 10 ** 6), "n": Fraction(1, 10 ** 9),
          "p": Fraction(1, 10 ** 12), "f": Fraction(1, 10 ** 15)}


@st.composite
def number(draw, sign=True):
    """(text, value as 'num/den')"""
    sg = draw(st.sampled_from(["", "", "+", "-"])) if sign else draw(st.sampled_from(["", "+"]))
    ip = draw(st.one_of(st.integers(0, 9), st.integers(0, 99999)).map(str))
    if draw(st.integers(0, 5)) == 0:
        ip = "0" * draw(st.integers(1, 3)) + ip
    form = draw(st.sampled_from(["int", "frac", "frac", "lead", "trail"]))
    fp = draw(st.one_of(st.integers(0, 99).map(str), st.text("0123456789", min_size=1, max_size=7)))
    if form == "int":
        m = ip
    elif form == "frac":
        m = ip + "." + fp
    elif form == "lead":
        m = "." + fp
    else:
        m = ip + "."
    tail = draw(st.sampled_from(["suffix", "suffix", "exp", "none"]))
    suf, ex = "", ""
    if tail == "suffix":
        suf = draw(st.sampled_from(sorted(SUFFIX)))
        suf = "".join(draw(st.sampled_from([c.lower(), c.upper()])) for c in suf)
    elif tail == "exp":
        ex = draw(st.sampled_from("eE")) + draw(st.sampled_from(["", "+", "-"])) + str(draw(st.integers(0, 20)))
        if draw(st.integers(0, 4)) == 0:
            ex = re.sub(r"(\d+)$", r"0\1", ex)
    return sg + m + ex + suf


def denote(text):
    m = re.match(r"^([+-]?)(\d*)\.?(\d*)(?:[eE]([+-]?\d+))?([a-zA-Z]*)$", text)
    sg, ip, fp, ex, suf = m.groups()
    v = Fraction(int((ip or "0") + (fp or "")), 10 ** len(fp or ""))
    if ex:
        v *= Fraction(10) ** int(ex)
    v *= SUFFIX[suf.lower()]
    return -v if sg == "-" else v


def matches(got, text):
    want = denote(text)
    if type(got) not in (float,) and not hasattr(got, "dtype"):
        return False
    if want == 0:
        return got == 0
    if not math.isfinite(got):
        return False
    return abs(Fraction(float(got)) - want) <= abs(want) * Fraction(2, 2 ** 52)


PLACES = ["r", "c", "c.ic", "l", "l.ic", "k", "e", "f", "g", "h", "vdc", "vac", "idc", "iac", "sin", "pulse", "model",
          "area", "w", "tran", "dc", "ac", "ic"]


@st.composite
def num_case(draw):
    return {"text": draw(number()), "pad": draw(st.sampled_from(["", "", " ", "\t"])),
            "place": draw(st.sampled_from(PLACES))}


def place_in(place, text):
    """(netlist lines, getter of the value read)"""
    from ahkab import netlist_parser as NP
    base = ["v1 1 0 vdc=1", "r1 1 0 1k"]

    def el(name):
        return lambda c, d: c.get_elem_by_name(name)
    if place == "r":
        return base + ["r9 1 2 %s" % text], lambda c, d: el("r9")(c, d).value
    if place == "c":
        return base + ["c9 1 2 %s" % text], lambda c, d: el("c9")(c, d).value
    if place == "c.ic":
        return base + ["c9 1 2 1u ic=%s" % text], lambda c, d: el("c9")(c, d).ic
    if place == "l":
        return base + ["l9 1 2 %s" % text], lambda c, d: el("l9")(c, d).value
    if place == "l.ic":
        return base + ["l9 1 2 1u ic=%s" % text], lambda c, d: el("l9")(c, d).ic
    if place == "k":
        return base + ["l1 1 2 1u", "l2 1 3 1u", "k1 l1 l2 %s" % text], lambda c, d: el("k1")(c, d).K
    if place in "eg":
        return base + ["%s9 1 2 1 0 %s" % (place, text)], lambda c, d: el(place + "9")(c, d).alpha
    if place in "fh":
        return base + ["%s9 1 2 v1 %s" % (place, text)], lambda c, d: el(place + "9")(c, d).alpha
    if place in ("vdc", "idc"):
        return base + ["%s9 1 2 %s=%s" % (place[0], place, text)], lambda c, d: el(place[0] + "9")(c, d).dc_value
    if place in ("vac", "iac"):
        def g(c, d):
            e = el(place[0] + "9")(c, d)
            if not e.abs_ac:
                return 0.0
            return float(e.abs_ac) * (-1.0 if math.cos(e.arg_ac) < 0 else 1.0)
        return base + ["%s9 1 2 %sdc=1 %s=%s" % (place[0], place[0], place, text)], g
    if place == "sin":
        return base + ["v9 1 2 vdc=0 type=sin vo=1 va=%s freq=1k" % text], \
            lambda c, d: (el("v9")(c, d).V(.25e-3) - 1.0, 1e-9)
    if place == "pulse":
        return base + ["v9 1 2 vdc=0 type=pulse %s 1 1 1 1 1 5" % text], lambda c, d: el("v9")(c, d).V(.5)
    if place == "model":
        return base + [".model diode dd is=%s" % text, "d9 1 2 dd"], lambda c, d: c.models["dd"].IS
    if place == "area":
        return base + [".model diode dd is=1f", "d9 1 2 dd area=%s" % text], lambda c, d: el("d9")(c, d).device.AREA
    if place == "w":
        return base + [".model mosq mm type=n vto=.5", "m9 1 2 0 0 mm w=%s l=1u" % text], lambda c, d: el("m9")(c, d).device.W
    if place == "tran":
        return base + [".tran tstep=1n tstop=%s" % text], lambda c, d: NP.parse_analysis(c, d)[0]["tstop"]
    if place == "dc":
        return base + [".dc v1 %s 1 .1" % text], lambda c, d: NP.parse_analysis(c, d)[0]["start"]
    if place == "ac":
        return base + [".ac start=%s stop=1g nsteps=3" % text], lambda c, d: NP.parse_analysis(c, d)[0]["start"]
    if place == "ic":
        return base + [".ic name=q v(1)=%s" % text], lambda c, d: NP.parse_ics(d)[0]["q"]["v(1)"]
    raise ValueError(place)


def parse(lines):
    from ahkab import netlist_parser as NP
    with nl.Scratch() as tmp:
        c, d, p = NP.parse_circuit(tmp.write("n.ckt", "\n".join(["title"] + lines) + "\n"))
    return c, d


def check_number(case, log):
    from ahkab import netlist_parser as NP
    t = case["text"]
    got = NP.convert_units(case["pad"] + t)
    require(matches(got, t), "convert_units(%r) gives %r, the text denotes %.17g", t, got, float(denote(t)))
    got = NP.convert(t, float)
    require(matches(got, t), "convert(%r, float) gives %r, the text denotes %.17g", t, got, float(denote(t)))
    p, v = NP.parse_param_value_from_string("ab=" + t)
    require(p == "ab" and matches(v, t), "parse_param_value_from_string('ab=%s') gives %r", t, (p, v))
    require(NP.convert(t, str) == t, "a number read as a string changes: %r", NP.convert(t, str))
    place = case["place"]
    v = denote(t)
    if place == "r" and v == 0:
        log.trivial = True
        return
    if v <= 0 and place in ("l", "model", "area", "w", "tran"):
        place = "c.ic"
    log.label(place)
    lines, get = place_in(place, t)
    c, d = parse(lines)
    got = get(c, d)
    if isinstance(got, tuple):
        f = float(v)
        require(abs(got[0] - f) <= got[1] * abs(f) + 1e-15, "%r as the amplitude of a sine gives %r", t, got[0])
        return
    require(matches(got, t), "%r in %r is read as %r, it denotes %.17g", t, lines[-1], got, float(v))


BAD = ["", "abc", "k", "meg", "e", "e5", ".", "+", "-", "--1", "+-1", "1.2.3", "1e", "1e+", "1ee5", "1e5.5", "1x", "1kk", "1mega", "1me",
       "1mi", "1 k", "1,5", "0x10", "1_000", "1k5", "1k2", "nan", "inf", "-inf", "infinity", "1e5e5", "1-2", "1+", "5v", "10ohm", "1meg1", "ten", "1..", "..1",
       "1/2", "$1", "1h", "1a", "1d3", "1%", "1q"]


@st.composite
def bad_case(draw):
    if draw(st.booleans()):
        t = draw(st.sampled_from(BAD))
    else:
        good = draw(number(sign=False))
        k = draw(st.integers(0, len(good)))
        t = good[:k] + draw(st.sampled_from(list("xzqy#_.+-e/;,") + ["kk", "megg", "ee"])) + good[k:]
    if re.match(r"^\s*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\s*(t|g|meg|k|mil|m|u|n|p|f)?\s*$", t, re.I):
        t = "1x"      # it is a number (or a number with both an exponent and a suffix, which is left open)
    return {"text": t, "place": draw(st.sampled_from([p for p in PLACES]))}


def check_bad(case, log):
    from ahkab import netlist_parser as NP
    t = case["text"]
    log.label(case["place"])
    try:
        v = NP.convert_units(t)
    except (NP.NetlistParseError, ValueError):
        pass
    else:
        fail("convert_units(%r) gives %r for a text that is no number", t, v)
    if not t or re.search(r"\s", t):
        return
    if case["place"] == "k" and "=" in t:
        return
    lines, get = place_in(case["place"], t)
    try:
        c, d = parse(lines)
        v = get(c, d)
    except NP.NetlistParseError:
        return
    fail("%r is accepted as %r: it should be refused with a netlist error", lines[-1], v)


@st.composite
def bool_case(draw):
    t = draw(st.sampled_from(["yes", "no", "true", "false", "0", "1", "yes", "no", "y", "n", "2", "on", "off", "tru", "00", "-1", "1.0", "none"]))
    return {"text": "".join(draw(st.sampled_from([c, c.upper()])) for c in t),
            "place": draw(st.sampled_from(["op", "symbolic", "off"]))}


def check_bool(case, log):
    from ahkab import netlist_parser as NP
    t = case["text"]
    want = {"yes": True, "true": True, "1": True, "no": False, "false": False, "0": False}.get(t.lower())
    try:
        if case["place"] == "op":
            c, d = parse(["v1 1 0 vdc=1", "r1 1 0 1k", ".op guess=%s" % t])
            got = NP.parse_analysis(c, d)[0]["guess"]
        elif case["place"] == "symbolic":
            c, d = parse(["v1 1 0 vdc=1", "r1 1 0 1k", ".symbolic ac=%s" % t])
            got = NP.parse_analysis(c, d)[0]["ac_enable"]
        else:
            c, d = parse(["v1 1 0 vdc=1", "r1 1 0 1k", ".model diode dd is=1f", "d1 1 0 dd off=%s" % t])
            got = c.get_elem_by_name("d1").off
    except NP.NetlistParseError:
        got = None
    require(got is want or (want is not None and got is not None and bool(got) == want), "the boolean %r (%s) is read as %r", t, case["place"], got)


TESTS = [
    Test("number", num_case(), check_number, 4000, 60000,
         nontrivial=lambda c, l: bool(re.search(r"[a-zA-Z+.-]", c["text"]))),
    Test("malformed", bad_case(), check_bad, 2500, 30000, nontrivial=lambda c, l: len(c["text"]) > 0),
    Test("boolean", bool_case(), check_bool, 400, 2000),
]
