"""C22: sweep axes, matrix helpers, convergence checks and circuit checks do
what they document."""
import itertools
import math
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from ..core import Test, Skip, fail, require
from .. import circ

PID = "C22"
TITLE = "Sweep axes and matrix utilities produce what they document"
RULE = ("axis: three or more points and different ends; matrices: two or more rows and columns; "
        "combinations: 1 < k < n; steps: the period is no multiple of the step; "
        "convergence: three or more variables; ground: at least one node without a DC path; memoize: a repeated argument")


def U():
    import ahkab.utilities as u
    return u


mags = st.builds(lambda m, e, s: s * m * 10.0 ** e, st.floats(1.0, 10.0), st.integers(-12, 9), st.sampled_from([1, -1]))


@st.composite
def axis_case(draw):
    log = draw(st.booleans())
    lo = draw(mags)
    n = draw(st.one_of(st.integers(2, 40), st.integers(2, 4000)))
    if log:
        lo = abs(lo)
        hi = draw(st.one_of(mags.map(abs), st.integers(-8, 8).map(lambda e: lo * 10.0 ** e)))
    else:
        lo = draw(st.sampled_from([lo, 0.0]))
        hi = draw(st.one_of(mags, st.just(0.0), st.integers(-8, 8).map(lambda k: lo + k), st.just(lo)))
        if hi == lo and draw(st.booleans()):
            n = 1
        elif draw(st.integers(0, 12)) == 0:
            n = draw(st.integers(-1, 1))
    return {"log": log, "lo": lo, "hi": hi, "n": n, "at": draw(st.lists(st.integers(0, 5000), max_size=4))}


def check_axis(case, log):
    u = U()
    lo, hi, n = case["lo"], case["hi"], case["n"]
    cls = u.log_axis_iterator if case["log"] else u.lin_axis_iterator
    log.label("log" if case["log"] else "lin", "up" if hi > lo else ("down" if hi < lo else "level"))
    if not case["log"] and (n < 1 or (n < 2 and lo != hi)):
        log.label("refused")
        try:
            cls(lo, hi, n)
        except ValueError:
            log.trivial = True
            return
        fail("a linear axis from %r to %r with %d points was accepted", lo, hi, n)
    it = cls(lo, hi, n)
    before = [it[i] for i in case["at"]]
    got = []
    for v in it:
        got.append(float(v))
        require(len(got) <= n, "the axis gives more than the %d points requested", n)
    require(len(got) == n, "the axis gives %d points, %d were requested", len(got), n)
    require(got[0] == lo, "the axis starts at %r, not at %r", got[0], lo)
    if case["log"]:
        want = [lo * (hi / lo) ** (i / (n - 1.0)) for i in range(n)]
        tol = [1e-9 * w for w in want]
    else:
        k = n - 1.0
        want = [lo + (hi - lo) * (i / k) if n > 1 else lo for i in range(n)]
        tol = [1e-10 * max(abs(lo), abs(hi))] * n
    for i in range(n):
        require(abs(got[i] - want[i]) <= tol[i], "point %d of %d from %r to %r is %r, expected %r", i, n, lo, hi, got[i], want[i])
    step = [b - a for a, b in zip(got, got[1:])]
    if abs(hi - lo) > 1e-6 * n * max(abs(lo), abs(hi)):
        require(all(s > 0 for s in step) if hi > lo else all(s < 0 for s in step), "the axis is not monotonic")
    after = [it[i] for i in case["at"]]
    require(before == after, "the points looked up by index differ before and after the iteration")
    for i, v in zip(case["at"], after):
        if i >= n:
            require(v is None, "point %d of %d is %r", i, n, v)
        else:
            require(v is not None and abs(v - want[i]) <= tol[i], "point %d of %d looked up is %r, expected %r", i, n, v, want[i])
    log.label("n:%s" % ("2" if n == 2 else "<50" if n < 50 else ">=50"))


cell = st.one_of(st.integers(-9, 9).map(float), st.floats(-1e6, 1e6))


@st.composite
def matrix_case(draw):
    r, c = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    m = [[draw(cell) for _ in range(c)] for _ in range(r)]
    op = draw(st.sampled_from(["expand", "expand", "sub", "remove", "remove", "row"]))
    case = {"m": m, "op": op}
    if op == "expand":
        case.update(row=draw(st.booleans()), col=draw(st.booleans()), default=draw(st.booleans()))
    elif op == "sub":
        sr, sc = draw(st.integers(1, r)), draw(st.integers(1, c))
        case.update(r=draw(st.integers(0, r - sr)), c=draw(st.integers(0, c - sc)),
                    s=[[draw(cell) for _ in range(sc)] for _ in range(sr)])
    else:
        case.update(r=draw(st.one_of(st.none(), st.integers(0, r - 1), st.just(0))),
                    c=draw(st.one_of(st.none(), st.integers(0, c - 1), st.just(0))), default=draw(st.integers(0, 5)) == 0)
    return case


def check_matrix(case, log):
    u = U()
    M = np.array(case["m"])
    keep = M.copy()
    rows = [list(r) for r in case["m"]]
    op = case["op"]
    log.label(op)
    same = True
    if op == "expand":
        kw = {}
        if not (case["default"] and not case["row"]):
            kw["add_a_row"] = case["row"]
        if not (case["default"] and not case["col"]):
            kw["add_a_col"] = case["col"]
        got = u.expand_matrix(M, **kw)
        if case["col"]:
            rows = [r + [0.0] for r in rows]
        if case["row"]:
            rows = rows + [[0.0] * len(rows[0])]
    elif op == "sub":
        S = np.array(case["s"])
        ks = S.copy()
        got = u.set_submatrix(case["r"], case["c"], M, S)
        require(np.array_equal(S, ks), "the source matrix was changed")
        require(got is M, "the destination matrix is not what is returned")
        same = False
        for i, r in enumerate(case["s"]):
            for j, v in enumerate(r):
                rows[case["r"] + i][case["c"] + j] = v
    elif op == "remove":
        r, c = (0, 0) if case["default"] else (case["r"], case["c"])
        got = u.remove_row_and_col(M) if case["default"] else u.remove_row_and_col(M, rrow=r, rcol=c)
        rows = [[v for j, v in enumerate(row) if j != c] for i, row in enumerate(rows) if i != r]
        log.label("row:%s" % ("none" if r is None else "0" if r == 0 else "k"), "col:%s" % ("none" if c is None else "0" if c == 0 else "k"))
    else:
        r = 0 if case["default"] else case["r"]
        got = u.remove_row(M) if case["default"] else u.remove_row(M, rrow=r)
        rows = [row for i, row in enumerate(rows) if i != r]
    if same:
        require(np.array_equal(M, keep), "the matrix given was changed")
    ncols = len(case["m"][0])
    if op == "expand" and case["col"]:
        ncols += 1
    if op == "remove" and (0 if case["default"] else case["c"]) is not None:
        ncols -= 1
    want = np.array(rows).reshape(len(rows), ncols)
    require(got is not None, "no matrix is returned")
    require(got.shape == want.shape, "the shape is %s, expected %s", got.shape, want.shape)
    require(np.array_equal(got, want), "the matrix is\n%s\nexpected\n%s", got, want)
    if M.shape[0] < 2 or M.shape[1] < 2:
        log.trivial = True


@st.composite
def comb_case(draw):
    n = draw(st.integers(0, 7))
    items = draw(st.lists(st.integers(0, 20), min_size=n, max_size=n))
    return {"items": items, "k": draw(st.integers(-1, n + 1)), "nested": draw(nested)}


nested = st.recursive(st.integers(-3, 3), lambda s: st.lists(s, max_size=4), max_leaves=12)


def to_tuple(x):
    return tuple(to_tuple(i) for i in x) if isinstance(x, list) else x


def check_comb(case, log):
    u = U()
    L, k = case["items"], case["k"]
    require(u.tuplinator(case["nested"]) == to_tuple(case["nested"]), "tuplinator: %r", u.tuplinator(case["nested"]))
    if k <= 0 or k > len(L):
        try:
            got = u.combinations(L, k)
        except ValueError:
            log.trivial = True
            log.label("refused")
            return
        fail("%d elements out of %d accepted", k, len(L))
    before = list(L)
    got = []
    for x in u.combinations(L, k):
        got.append(list(x))
        require(len(got) <= 200, "the combinations do not end")
    want = [list(x) for x in itertools.combinations(L, k)]
    require(sorted(got) == sorted(want), "the combinations of %d in %r are %r", k, L, got)
    require(L == before, "the list was changed")
    log.label("k=n" if k == len(L) else "k=1" if k == 1 else "1<k<n")
    log.trivial = not 1 < k < len(L)


@st.composite
def step_case(draw):
    period = abs(draw(mags))
    mode = draw(st.sampled_from(["step", "step", "multiple", "points", "both", "none"]))
    case = {"mode": mode, "period": period}
    if mode in ("step", "both"):
        case["step"] = period / draw(st.floats(1.0, 3000.0))
    if mode == "multiple":
        n = draw(st.integers(1, 3000))
        q = draw(st.sampled_from(["p/n", "decimal"]))
        if q == "decimal":
            d = draw(st.integers(1, 99)) * 10.0 ** draw(st.integers(-9, 3))
            case["step"], case["period"] = d, float("%.12g" % (d * n))
        else:
            case["step"] = period / n
        case["n"] = n
    if mode in ("points", "both"):
        case["points"] = draw(st.integers(2, 4000))
    if mode == "none":
        case["default"] = draw(st.integers(2, 500))
    return case


def check_step(case, log):
    u = U()
    log.label(case["mode"])
    kw = {"period": case["period"]}
    if "step" in case:
        kw["step"] = case["step"]
    if "points" in case:
        kw["points"] = case["points"]
    if "default" in case:
        kw["default_points"] = case["default"]
    points, step = u.check_step_and_points(**kw)
    require(points == int(points) and points >= 2, "%r points", points)
    T = case["period"]
    require(abs((points - 1) * step - T) <= 1e-9 * T, "%d points %r apart do not cover the period %r", points, step, T)
    mode = case["mode"]
    if mode == "points":
        require(points == case["points"], "%d points were requested, %d are returned", case["points"], points)
    elif mode == "none":
        require(points == case["default"], "the default is %d points, %d are returned", case["default"], points)
    elif mode == "multiple":
        require(points == case["n"] + 1, "the period %r holds %d steps of %r, %d points are returned", T, case["n"], case["step"], points)
        log.trivial = case["n"] < 2
    else:
        r = T / case["step"]
        ok = {int(math.floor(r + 1e-6)), int(math.floor(r - 1e-6))}
        require(points - 1 in ok or points - 1 in {k + 1 for k in ok}, "a step of %r in a period of %r gave %d points", case["step"], T, points)


@st.composite
def conv_case(draw):
    n = draw(st.integers(0, 6))
    nv = draw(st.integers(0, n))
    tols = {"ver": draw(st.sampled_from([1e-3, 1e-6])), "vea": draw(st.sampled_from([1e-6, 1e-3])),
            "ier": draw(st.sampled_from([1e-3, 1e-6])), "iea": draw(st.sampled_from([1e-9, 1e-6]))}
    def val(scale):
        return draw(st.floats(-3, 3)) * scale
    x = [draw(st.one_of(st.just(0.0), st.floats(-10, 10), mags)) for _ in range(n)]
    # size of the increment and residue relative to the threshold; mostly one or none too large
    bad = draw(st.sets(st.integers(0, max(2 * n - 1, 0)), max_size=2)) if n else set()
    f = lambda: draw(st.sampled_from([0.0, 0.3, 0.9])) * draw(st.sampled_from([1, -1]))
    g = lambda: draw(st.sampled_from([1.2, 3.0, 1e4])) * draw(st.sampled_from([1, -1]))
    dx = [g() if i in bad else f() for i in range(n)]
    re = [g() if n + i in bad else f() for i in range(n)]
    return {"nv": nv, "x": x, "dx": dx, "re": re, "tols": tols, "form": draw(st.sampled_from(["array", "list"])),
            "debug": draw(st.booleans()), "fn": draw(st.sampled_from(["all", "all", "v", "i", "custom"]))}


def check_conv(case, log):
    u = U()
    from ahkab import options
    t = case["tols"]
    for k, v in t.items():
        setattr(options, k, v)
    n, nv, fn = len(case["x"]), case["nv"], case["fn"]
    x, dx, re = [], [], []
    want = True
    for i in range(n):
        volt = i < nv if fn == "all" else fn != "i"
        er, ea, eres = (t["ver"], t["vea"], t["iea"]) if volt else (t["ier"], t["iea"], t["vea"])
        x.append(case["x"][i])
        d = case["dx"][i] * (ea + er * abs(case["x"][i]))
        dx.append(d)
        re.append(case["re"][i] * eres)
        # |dx| <= ea + er*|x|: the new or the old x (the difference is er**2)
        if abs(case["dx"][i]) > 1.0 or abs(case["re"][i]) > 1.0:
            want = False
    if want is False and not any(abs(a) > 1.0 for a in case["re"]):
        # an increment far above the threshold, also with the new value of x
        for i in range(n):
            if abs(case["dx"][i]) > 1.0:
                volt = i < nv if fn == "all" else fn != "i"
                er, ea = (t["ver"], t["vea"]) if volt else (t["ier"], t["iea"])
                if abs(dx[i]) <= 1.05 * (ea + er * abs(x[i] + dx[i])):
                    raise Skip("between the two readings of the threshold")
    col = lambda v: [[a] for a in v]
    if case["form"] == "array":
        a = [np.array(col(v)).reshape(n, 1) for v in (x, dx, re)]
    else:
        a = [col(v) for v in (x, dx, re)]
        if n == 0:
            raise Skip("empty list")
    kw = {"debug": True} if case["debug"] else {}
    if fn == "all":
        got = u.convergence_check(a[0], a[1], a[2], nv, **kw)
    elif fn == "v":
        got = u.voltage_convergence_check(*a, **kw)
    elif fn == "i":
        got = u.current_convergence_check(*a, **kw)
    else:
        got = u.custom_convergence_check(a[0], a[1], a[2], t["ver"], t["vea"], t["iea"], **kw)
    log.label("fn:" + fn, "converged" if want else "not converged", "debug" if case["debug"] else "plain")
    require(bool(got[0]) == want, "the convergence check says %r, expected %r (x %r, dx %r, residue %r)", got[0], want, x, dx, re)
    log.trivial = n < 3


@st.composite
def ground_case(draw):
    names = ["0"] + draw(st.lists(st.sampled_from(["a", "b", "c", "n1", "out"]), min_size=1, max_size=5, unique=True))
    elems = []
    kinds = st.sampled_from(["R", "C", "C", "I", "L", "V", "D", "M", "E", "C"])
    for i in range(draw(st.integers(1, 7))):
        k = draw(kinds)
        n1, n2 = draw(st.permutations(names))[:2]
        e = {"k": k, "id": "%s%d" % (k, i), "n": [n1, n2]}
        if k in "EM":
            e["s"] = [draw(st.sampled_from(names)), draw(st.sampled_from(names))]
        elems.append(e)
    if draw(st.integers(0, 6)) == 0 and len(elems) > 1:
        elems[-1] = dict(elems[0])
    return {"elems": elems}


def check_ground(case, log):
    a = circ.sut()
    u = U()
    import ahkab.dc_analysis as dc
    c = a.Circuit("ground")
    c.add_model("diode", "dm", {"name": "dm"})
    c.add_model("mosq", "mm", {"name": "mm", "TYPE": "n", "VTO": .4, "KP": 1e-4})
    path, ids, nodes = set(), [], set()
    for e in case["elems"]:
        k, (p, n) = e["k"], e["n"]
        ids.append(e["id"].upper())
        nodes |= {p, n} | set(e.get("s", []))
        if k == "R":
            c.add_resistor(e["id"], p, n, 1e3)
        elif k == "C":
            c.add_capacitor(e["id"], p, n, 1e-9)
        elif k == "L":
            c.add_inductor(e["id"], p, n, 1e-3)
        elif k == "I":
            c.add_isource(e["id"], p, n, 1e-3)
        elif k == "V":
            c.add_vsource(e["id"], p, n, 1.0)
        elif k == "D":
            c.add_diode(e["id"], p, n, "dm")
        elif k == "E":
            c.add_vcvs(e["id"], p, n, e["s"][0], e["s"][1], 2.0)
        elif k == "M":
            c.add_mos(e["id"], p, e["s"][0], n, e["s"][1], 1e-6, 1e-6, "mm")
            # drain and source conduct; the transistor's junctions are not modelled
        if k in "RLVDEM":
            path |= {p, n}
    lone = sorted(nodes - path - {"0"})
    ok, msg = u.check_circuit(c)
    refs = "0" in nodes
    want = len(nodes) >= 2 and refs and len(ids) >= 2 and len(set(ids)) == len(ids)
    require(ok == want, "check_circuit says %r (%s), expected %r", ok, msg, want)
    require(bool(msg) == (not ok), "the reason is %r", msg)
    log.label("check:%s" % ok)
    if not refs:
        log.trivial = True
        return
    mna, N = dc.generate_mna_and_N(c, verbose=0)
    # a voltage source in parallel to nothing keeps its row; elements across one node do not conduct
    got = u.check_ground_paths(mna, c, reduced_mna=False, verbose=0)
    require(bool(got) == (not lone), "the ground path check says %r, nodes without a DC path: %r", got, lone)
    red = u.remove_row_and_col(mna)
    got = u.check_ground_paths(red, c, reduced_mna=True, verbose=0)
    require(bool(got) == (not lone), "the ground path check says %r on the reduced matrix, nodes without a DC path: %r", got, lone)
    log.label("lone:%d" % len(lone))
    log.trivial = not lone


@st.composite
def memo_case(draw):
    return {"len": draw(st.one_of(st.none(), st.integers(1, 6))),
            "calls": draw(st.lists(st.tuples(st.integers(0, 5), st.integers(0, 2)).map(list), min_size=1, max_size=30)),
            "cel": draw(st.floats(-273, 1e3)), "file": draw(st.sampled_from(["file", "dir", "missing"]))}


def check_memo(case, log):
    u = U()
    from ahkab import options
    options.cache_len = case["len"]
    calls = []

    def f(a, b):
        calls.append((a, b))
        return (a, b, a * 10 + b)
    g, h = u.memoize(f), u.memoize(lambda a, b: a - b)
    for a, b in case["calls"]:
        require(g(a, b) == (a, b, a * 10 + b), "the memoized function returned %r for %r", g(a, b), (a, b))
        require(h(a, b) == a - b, "two memoized functions share results")
    if case["len"] is None:
        require(len(calls) == len(set(calls)), "an unlimited cache did not keep a result")
    k = u.Celsius2Kelvin(case["cel"])
    require(abs(k - case["cel"] - 273.15) < 1e-9 and abs(u.Kelvin2Celsius(k) - case["cel"]) < 1e-9, "%r degrees are %r K", case["cel"], k)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "x")
        if case["file"] == "file":
            open(p, "w").close()
        elif case["file"] == "dir":
            os.mkdir(p)
        try:
            ok = u.check_file(p)
            require(ok is True and case["file"] == "file", "check_file accepts a %s", case["file"])
        except IOError:
            require(case["file"] != "file", "check_file refuses a file")
    log.label(case["file"], "limited" if case["len"] else "unlimited")
    log.trivial = len({tuple(c) for c in case["calls"]}) == len(case["calls"])


TESTS = [
    Test("axis", axis_case(), check_axis, 4000, 60000, nontrivial=lambda c, l: c["n"] > 2 and c["lo"] != c["hi"]),
    Test("matrix", matrix_case(), check_matrix, 4000, 60000),
    Test("combinations", comb_case(), check_comb, 1500, 20000),
    Test("steps", step_case(), check_step, 4000, 60000, nontrivial=lambda c, l: c["mode"] in ("step", "multiple", "both")),
    Test("convergence", conv_case(), check_conv, 6000, 100000),
    Test("ground", ground_case(), check_ground, 2400, 40000),
    Test("memoize", memo_case(), check_memo, 1500, 20000),
]
