"""C16: result objects behave as case-insensitive ordered mappings over their data."""
import atexit
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from ..core import Test, Skip, fail, require
from .. import circ, nl

PID = "C16"
RULE = "a case is non-trivial when the result has at least two variables and the history at least three accesses"
ASSUMPTIONS = [
    "iterating a result gives (name, data) pairs, as the code and the tests have it (the module's documentation shows names)",
    "node names differing in letter case only cannot be told apart in a result and are not generated",
]

KINDS = ["op", "op", "dc", "ac", "tran", "pz", "symbolic"]


@st.composite
def access(draw):
    k = draw(st.sampled_from(["get", "get", "item", "item", "in", "unknown", "len", "keys", "values", "items",
                              "iter", "part", "asarray", "axis", "units", "other", "write", "str", "next"]))
    return [k, draw(st.integers(0, 30)), draw(st.integers(0, 3))]


@st.composite
def case(draw):
    kind = draw(st.sampled_from(KINDS))
    if kind == "symbolic":
        d = draw(circ.linear_desc(max_nodes=2, max_extra=1, couplings=False))
    else:
        d = draw(circ.linear_desc(max_nodes=4, max_extra=3, couplings=False,
                                  ac=st.sampled_from([None, 1.0, 2.0]), tree_kinds=None))
    d["kind"] = kind
    d["n"] = draw(st.integers(1, 5))
    d["ops"] = draw(st.lists(access(), min_size=1, max_size=12))
    d["tf"] = draw(st.booleans())
    # the simulator's own temporary files, or files named by the user
    d["auto"] = draw(st.booleans())
    return d


def recase(s, how):
    return [s, s.upper(), s.lower(), s.swapcase()][how]


def analysis(case, tmp, tag):
    """the description of the case's analysis"""
    a = circ.sut()
    k = case["kind"]
    out = None if case["auto"] else tmp.path("res" + tag)
    n = case["n"]
    if k == "op":
        an = a.new_op(outfile=out, verbose=0)
    elif k == "dc":
        names = ["V" + x.upper() for x in circ.nodes_of(case)]
        srcs = [e["id"] for e in case["elems"] if e["k"] in "VI" and e["id"].upper() not in names]
        if not srcs:
            raise Skip("the sweep variable has the name of a node voltage")
        an = a.new_dc(0, 1e-3, n + 1, srcs[0], outfile=out, verbose=0)
    elif k == "ac":
        an = a.new_ac(1e3, 1e4, n + 1, outfile=out, verbose=0)
    elif k == "tran":
        an = a.new_tran(0, n * 1e-6, 1e-6, x0=None, use_step_control=False, outfile=out, verbose=0)
    elif k == "pz":
        an = a.new_pz(outfile=out, verbose=0)
    else:
        src = [e["id"] for e in case["elems"] if e["k"] in "VI"]
        an = a.new_symbolic(source=src[0] if case["tf"] and src else None, outfile=out, verbose=0)
    return an


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


def check(case, log):
    ref = circ.Ref(case)
    kind = case["kind"]
    if not circ.cond_scaled(ref.G) < 1e8:
        raise Skip("ill-conditioned")
    log.label("kind:" + kind)
    c = circ.build(case)
    with nl.Scratch() as tmp:
        tempfile.tempdir = tmp.dir
        try:
            inside(case, log, ref, kind, c, tmp)
        finally:
            tempfile.tempdir = None
            # the files are gone with the directory
            atexit.unregister(os.remove)


def inside(case, log, ref, kind, c, tmp):
        try:
            an = analysis(case, tmp, "a")
            r = circ.sut().run(c, an)[kind]
        except (np.linalg.LinAlgError, RecursionError):
            raise Skip("the analysis failed")
        if kind == "symbolic":
            if r is None:
                raise Skip("no symbolic solution")
            r, tfs = r
            if case["tf"] and tfs is not None:
                r = tfs
        if r is None:
            raise Skip("no result")
        history(case, log, ref, c, tmp, r, kind, an)


def history(case, log, ref, c, tmp, r, kind, an):
    # the model: names and data, read once
    names = list(r.keys())
    require(len(set(x.upper() for x in names)) == len(names), "variable names repeat: %r", names)
    if kind in ("op", "dc", "ac", "tran"):
        axis = {"op": [], "dc": [None], "ac": ["f"], "tran": ["T"]}[kind]
        circ.check_unknown_set(names[len(axis):], ref)
        require(axis in ([], [None]) or names[0] == axis[0], "the first variable is %r", names[0])
        # the order: axis, voltages, currents in order of the elements
        want = ["V" + x.upper() for x in (str(c.nodes_dict[k]) for k in range(1, len(ref.nodes) + 1))]
        want += ["I(%s)" % e.part_id.upper() for e in c if e.part_id[0].upper() in "VEHL"]
        require([x.upper() for x in names[len(axis):]] == want, "the variables are %r, in circuit order they are %r", names, want)
    if kind == "op":
        data = [np.array([v]) for v in np.array(r.asarray()).reshape(-1)]
    elif kind in ("dc", "tran"):
        data = list(np.loadtxt(r.filename, ndmin=2).T)
    elif kind == "ac":
        raw = np.loadtxt(r.filename, ndmin=2).T
        data = [raw[0]] + [raw[2 * i + 1] * np.exp(1j * raw[2 * i + 2]) for i in range(len(names) - 1)]
    elif kind == "pz":
        data = list(r.poles) + list(r.zeros)
        require(len(names) == len(data), "%d singularities, variables %r", len(data), names)
    else:
        data = [r.results[n] for n in names]
    model = dict(zip(names, data))
    require(len(data) == len(names), "%d variables, data for %d", len(names), len(data))
    x0 = np.array(r.asarray()) if kind not in ("symbolic", "pz") else None

    def eq(got, want, what):
        if kind == "symbolic":
            ok = got is want or got == want
        elif kind == "ac":
            ok = np.allclose(np.asarray(got).reshape(-1), want, rtol=1e-12, atol=0) and np.asarray(got).size == want.size
        else:
            ok = same(np.asarray(got).reshape(-1), np.asarray(want).reshape(-1))
        require(ok, "%s gives %r, the data are %r", what, got, want)

    count = 0
    for op, i, how in case["ops"]:
        name = names[i % len(names)] if names else None
        if name is None and op in ("get", "item", "in", "units", "part", "next"):
            continue
        if op == "get":
            eq(r.get(recase(name, how)), model[name], "get(%r)" % recase(name, how))
        elif op == "item":
            eq(r[recase(name, how)], model[name], "[%r]" % recase(name, how))
        elif op == "in":
            require(recase(name, how) in r and r.has_key(recase(name, how)), "%r is not in the result that has %r", recase(name, how), names)
        elif op == "unknown":
            for u in ("Vnosuchnode", "nosuch", "I(V_none)", name + "x" if name else "y", "V"):
                if u.upper() in [x.upper() for x in names]:
                    continue
                require(u not in r and not r.has_key(u), "%r is said to be in the result that has %r", u, names)
                mark = object()
                require(r.get(u, mark) is mark, "get(%r, default) does not give the default", u)
                require(r.get(u) is None, "get(%r) is %r", u, r.get(u))
                try:
                    v = r[u]
                except KeyError:
                    pass
                else:
                    fail("[%r] gives %r, there is no such variable", u, v)
        elif op == "len":
            require(len(r) == len(names), "len() is %r, the variables are %r", len(r), names)
        elif op == "keys":
            require(list(r.keys()) == names, "keys() is %r, it was %r", list(r.keys()), names)
        elif op == "values":
            vs = list(r.values())
            require(len(vs) == len(names), "values() has %d entries for the variables %r", len(vs), names)
            for n, v in zip(names, vs):
                eq(v, model[n], "values() for %s" % n)
        elif op in ("items", "iter", "next"):
            if op == "next":
                it = iter(r)
                its = [it.next() for _ in names]
            else:
                its = list(r.items()) if op == "items" else [x for x in r]
            require([x[0] for x in its] == names, "%s gives the names %r, the variables are %r", op, [x[0] for x in its], names)
            for n, v in its:
                eq(v, model[n], "%s for %s" % (op, n))
        elif op == "part":
            # an iteration given up half-way does not disturb a new one
            for j, x in enumerate(r):
                if j >= i % len(names):
                    break
            its = [x[0] for x in r]
            require(its == names, "a new iteration gives %r", its)
        elif op == "asarray":
            if x0 is not None:
                A = np.asarray(r.asarray())
                require(same(A, x0), "asarray() changed: %r, it was %r", A, x0)
                for j, n in enumerate(names):
                    eq(A[j], np.asarray(model[n]), "row %d of asarray()" % j)
        elif op == "axis":
            if kind in ("dc", "ac", "tran"):
                require(r.get_xlabel() == names[0], "get_xlabel() is %r", r.get_xlabel())
                eq(r.get_x(), model[names[0]], "get_x()")
        elif op == "units":
            if kind in ("op", "dc", "ac", "tran"):
                u = r.units[recase(name, how)]
                want = {"f": "Hz", "T": "s"}.get(name) if name in ("f", "T") else ("V" if name[0] == "V" else "A")
                require(u == want, "the unit of %s is %r", name, u)
        elif op == "other":
            count += 1
            # another result of the same kind, of another circuit state
            c2 = circ.build(dict(case, elems=[dict(e, v=e["v"] * 2) if e["k"] == "R" else e for e in case["elems"]]))
            # (the same description again when it names no file)
            circ.sut().run(c2, an if case["auto"] else analysis(case, tmp, "b%d" % count))
        elif op == "write":
            if kind == "op":
                r.write_to_file(tmp.path("w%d" % count))
            elif kind == "symbolic":
                r.filename = tmp.path("sym%d" % count)
                r.save()
                from ahkab import results
                b = results.symbolic_solution.load(r.filename)
                require(list(b.keys()) == names, "a saved symbolic result has %r", list(b.keys()))
                for n in names:
                    require(b[n] == model[n], "a saved symbolic result has %s = %r", n, b[n])
        elif op == "str":
            require(isinstance(str(r), str), "str() is no string")
            if kind == "op":
                t = r.get_table_array()
                for n in names:
                    require(n in t, "%s is not in the table", n)
    log.trivial = len(names) < 2 or len(case["ops"]) < 3


# ---------------------------------------------------------------- the mapping itself

KEYS = st.sampled_from(["V1", "v1", "Va", "VA", "va", "I(V1)", "i(v1)", "F", "f", "T", "x_1", "X_1"])


@st.composite
def dict_case(draw):
    return [[draw(st.sampled_from(["set", "set", "get", "in", "keys", "len", "iter"])), draw(KEYS), draw(st.integers(0, 99))]
            for _ in range(draw(st.integers(1, 14)))]


def check_dict(case, log):
    from ahkab import results
    d = results.case_insensitive_dict()
    m = {}
    for op, k, v in case:
        if op == "set":
            d.update({k: v})
            m[k.upper()] = v
        elif op == "get":
            require(d.get(k, "none") == m.get(k.upper(), "none"), "after %r get(%r) is %r", case, k, d.get(k, "none"))
            if k.upper() in m:
                require(d[k] == m[k.upper()], "after %r [%r] is %r", case, k, d[k])
            else:
                try:
                    d[k]
                except KeyError:
                    pass
                else:
                    fail("[%r] of a missing key gives a value", k)
        elif op == "in":
            require((k in d) == (k.upper() in m) and d.has_key(k) == (k.upper() in m), "%r in dict: %r", k, k in d)
        elif op == "len":
            require(len(d) == len(m), "len() is %d after %r", len(d), case)
        else:
            ks = list(d.keys()) if op == "keys" else list(d)
            require(sorted(x.upper() for x in ks) == sorted(m), "%s gives %r after %r", op, ks, case)
            require(dict((a.upper(), b) for a, b in d.items()) == m, "items are %r after %r", d.items(), case)
    log.trivial = len(case) < 3


TESTS = [
    Test("mapping", case(), check, 900, 15000, cpu_s=120),
    Test("dictionary", dict_case(), check_dict, 800, 10000),
]
