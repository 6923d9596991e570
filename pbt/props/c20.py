"""C20: analyses are repeatable and independent of what ran before."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from ..core import Test, Skip, fail, require
from .. import circ, nl, canon, core
from ..iso import isolated
from . import c13

PID = "C20"
RULE = ("a case is non-trivial when its history runs at least two analyses that give results after another analysis has run; "
        "the reference results come from processes of their own, where nothing ran before")
ASSUMPTIONS = [
    "results are compared to 1e-9 of the largest value of each variable",
    "an analysis that fails by itself must fail in any history, in the same way",
    "changing the temperature is not an analysis in this sense and is not part of the histories",
]


@st.composite
def an_desc(draw, desc):
    srcs = [e["id"] for e in desc["elems"] if e["k"] in "VI"]
    k = draw(st.sampled_from(["op", "op", "dc", "dc", "ac", "ac", "tran", "tran", "optran", "opac", "pz", "xtran"]))
    a = {"k": k}
    if k == "op":
        a["guess"] = draw(st.sampled_from([None, True, False]))
    elif k == "dc":
        if not srcs:
            return {"k": "op", "guess": None}
        a["src"] = draw(st.sampled_from(srcs))
        a["case"] = draw(st.booleans())
        a["lo"], a["hi"] = draw(st.sampled_from([(0.0, 1.0), (-1.0, 2.0), (1e-3, 2e-3), (5.0, 0.0)]))
        a["n"] = draw(st.integers(2, 5))
        a["guess"] = draw(st.booleans())
    elif k in ("ac", "opac"):
        a["lo"], a["hi"] = draw(st.sampled_from([(1e3, 1e5), (1.0, 1e8)]))
        a["n"] = draw(st.integers(2, 4))
        a["sweep"] = draw(st.sampled_from(["LOG", "LIN"]))
    elif k in ("tran", "optran", "xtran"):
        a["step"] = draw(st.sampled_from([1e-8, 1e-6, 1e-5]))
        a["n"] = draw(st.integers(2, 12))
        a["method"] = draw(st.sampled_from(["TRAP", "IMPLICIT_EULER", "GEAR2", "GEAR4"]))
        a["adapt"] = draw(st.booleans())
        a["sol"] = draw(st.booleans())
    return a


@st.composite
def case(draw):
    descs = [draw(c13.any_desc(max_nodes=4, max_extra=4))]
    if draw(st.booleans()):
        if draw(st.booleans()):
            # the same names with other values
            d = copy.deepcopy(descs[0])
            for e in d["elems"]:
                if draw(st.booleans()):
                    if e["k"] in "RCLEGFH":
                        e["v"] = e["v"] * 1.7
                    elif e["k"] in "VI" and e.get("dc"):
                        e["dc"] = e["dc"] * -1.3
                    elif e["k"] == "M":
                        e["w"] = e["w"] * 2
            for m in d["models"]:
                if m["type"] == "diode" and draw(st.booleans()):
                    m["p"] = dict(m["p"], IS=m["p"].get("IS", 1e-14) * 3)
                if m["type"] in ("mosq", "ekv") and draw(st.booleans()):
                    m["p"] = dict(m["p"], KP=m["p"].get("KP", 1e-4) * 1.5)
            descs.append(d)
        else:
            descs.append(draw(c13.any_desc(max_nodes=3, max_extra=3)))
    ans = []
    for _ in range(draw(st.integers(1, 4))):
        w = draw(st.integers(0, len(descs) - 1))
        ans.append(dict(draw(an_desc(descs[w])), c=w))
    steps = []
    for _ in range(draw(st.integers(2, 6))):
        i = draw(st.integers(0, len(ans) - 1))
        grp = [i]
        mode = draw(st.sampled_from(["one", "one", "list", "queue", "again"]))
        if mode in ("list", "queue"):
            for _ in range(draw(st.integers(0, 2))):
                j = draw(st.integers(0, len(ans) - 1))
                if ans[j]["c"] == ans[i]["c"]:
                    grp.append(j)
        steps.append([mode, grp])
    return {"descs": descs, "ans": ans, "steps": steps}


def analyses(c, a, tmp=None, tag=""):
    """the analysis objects of one description; may run an operating point first"""
    s = circ.sut()
    k = a["k"]
    if k == "op":
        return [s.new_op(guess=a["guess"])]
    if k == "dc":
        src = a["src"].upper() if a["case"] else a["src"]
        return [s.new_dc(a["lo"], a["hi"], a["n"], src, guess=a["guess"])]
    if k == "ac":
        return [s.new_ac(a["lo"], a["hi"], a["n"], x0=None, sweep_type=a["sweep"])]
    if k == "opac":
        return [s.new_op(), s.new_ac(a["lo"], a["hi"], a["n"], x0="op", sweep_type=a["sweep"])]
    if k == "pz":
        return [s.new_op(), s.new_pz()]
    t = lambda x0: s.new_tran(0, a["n"] * a["step"], a["step"], x0=x0, method=getattr(s.transient, a["method"]),
                              use_step_control=a["adapt"])
    if k == "tran":
        return [t(None)]
    if k == "optran":
        return [s.new_op(), t("op")]
    if k == "xtran":
        # a start the user gives, as a matrix or as an operating point
        op = s.run(c, s.new_op())["op"]
        if op is None:
            return [s.new_op()]
        return [t(op if a["sol"] else np.array(op.asarray()))]
    raise ValueError(k)


def data(r):
    if r is None:
        return None
    out = {}
    for k in r.keys():
        out[str(k)] = np.array(r[k]).reshape(-1)
    return out


def freeze(results):
    return {k: data(r) for k, r in results.items()}


def diff(got, want):
    """what differs, or None"""
    if (got is None) != (want is None):
        return "the analysis %s" % ("gave a result" if got is not None else "gave no result")
    if got is None:
        return None
    if sorted(got) != sorted(want):
        return "the variables are %s, expected %s" % (sorted(got), sorted(want))
    for k in want:
        g, w = got[k], want[k]
        if g.shape != w.shape:
            return "%s has %d values, expected %d" % (k, g.size, w.size)
        if not g.size:
            continue
        s = np.max(np.abs(np.where(np.isfinite(w), w, 0)))
        bad = ~((np.abs(g - w) <= 1e-9 * s) | (g == w) | (np.isnan(g) & np.isnan(w)))
        if bad.any():
            i = int(np.argmax(bad))
            return "%s[%d] is %r, expected %r" % (k, i, g[i], w[i])
    return None


def alone(case, i):
    a = case["ans"][i]
    c = circ.build(case["descs"][a["c"]])
    return freeze(circ.sut().run(c, analyses(c, a)))


def describe(c):
    c = copy.deepcopy(c)
    for e in c:
        if hasattr(e, "device") and hasattr(e.device, "is_on"):
            # the state of a switch is not part of the description
            e.device.is_on = False
    return canon.account(c)


def settings():
    from ahkab import options, constants, csvlib
    d = {k: copy.copy(v) for k, v in vars(options).items()
         if not k.startswith("__") and isinstance(v, (int, float, str, bool, list, tuple, dict, type(None)))}
    d["T"] = constants.T
    d["separator"] = csvlib.SEPARATOR
    return d


def plain(an):
    """an analysis object as comparable data"""
    return {k: (v if isinstance(v, (int, float, str, bool, type(None))) else
                np.array(v.asarray() if hasattr(v, "asarray") else v).tolist()) for k, v in an.items()}


def history(case, base):
    s = circ.sut()
    cs = [circ.build(d) for d in case["descs"]]
    before = [(describe(c), str(c), dict(c.nodes_dict), c.title) for c in cs]
    opt = settings()
    kept = []   # (step, type, result object, its values when it was returned)
    objs = {}
    for n, (mode, grp) in enumerate(case["steps"]):
        c = cs[case["ans"][grp[0]]["c"]]
        ok = [i for i in grp if base[i][0] == "ok"]
        bad = [i for i in grp if base[i][0] == "exc"]
        for i in bad[:1]:
            try:
                s.run(c, analyses(c, case["ans"][i]))
            except BaseException as e:
                if isinstance(e, core.CaseTimeout):
                    raise
                require(type(e).__name__ == base[i][1], "step %d (%s): the analysis %s raised %s: %s, by itself %s: %s",
                        n, mode, case["ans"][i], type(e).__name__, e, base[i][1], base[i][2])
            else:
                fail("step %d (%s): the analysis %s gave a result, by itself it raised %s: %s", n, mode, case["ans"][i],
                     base[i][1], base[i][2])
        if ok:
            lst = []
            want = {}
            for i in ok:
                if mode == "again" and i in objs:
                    lst += objs[i]
                else:
                    objs[i] = analyses(c, case["ans"][i])
                    lst += objs[i]
                want.update(base[i][1])
            was = [plain(a) for a in lst]
            if mode == "queue":
                s.queue(*lst)
                res = s.run(c)
            elif mode == "one" and len(lst) == 1:
                res = s.run(c, lst[0])
            else:
                res = s.run(c, lst)
            require([plain(a) for a in lst] == was, "step %d (%s): the analysis objects %s were changed into %s", n, mode, was,
                    [plain(a) for a in lst])
            got = freeze(res)
            require(sorted(got) == sorted(want), "step %d (%s): results for %s, expected %s", n, mode, sorted(got), sorted(want))
            for k in want:
                d = diff(got[k], want[k])
                require(d is None, "step %d (%s) of %s: %s result: %s", n, mode, case["steps"], k, d)
            kept += [(n, k, res[k], got[k]) for k in got if res[k] is not None]
        for c, b in zip(cs, before):
            canon.same(describe(c), b[0], rtol=0, what="after step %d: " % n)
            require(str(c) == b[1], "step %d changed the circuit:\n%s\ninto:\n%s", n, b[1], str(c))
            require(c.nodes_dict == b[2] and c.title == b[3], "step %d changed the nodes or the title of the circuit", n)
        now = settings()
        require(now == opt, "step %d changed the global settings: %s", n, [(k, opt.get(k), now.get(k)) for k in set(opt) | set(now)
                                                                         if opt.get(k) != now.get(k)])
        for m, k, r, v in kept:
            d = diff(data(r), v)
            require(d is None, "the %s result of step %d changed by step %d: %s", k, m, n, d)
    return len(kept)


def check(case, log):
    with nl.Scratch() as tmp:
        base = []
        for i in range(len(case["ans"])):
            r = isolated(lambda: alone(case, i), 1, tmp.dir)
            if r[0] == "timeout":
                raise Skip("an analysis takes long")
            require(r[0] in ("ok", "exc"), "%s", r)
            base.append(r)
            log.label("alone:%s:%s" % (case["ans"][i]["k"], r[0] if r[0] == "exc" else
                                       "none" if any(x is None for x in r[1].values()) else "ok"))
            if r[0] == "exc":
                log.label(r[1] + ": " + r[2][:50])
        r = isolated(lambda: history(case, base), 90, tmp.dir)
        if r[0] == "violation":
            fail("%s", r[1])
        if r[0] == "exc":
            fail("the history raised %s: %s\n%s", r[1], r[2], r[3])
        if r[0] == "timeout":
            fail("the history does not end, its analyses alone do")
        if r[1] < 2:
            log.trivial = True
        log.label("modes:" + "+".join(sorted(set(m for m, g in case["steps"]))))


# --------------------------------------------------------------------------
# netlist files simulated one after the other

@st.composite
def files_case(draw):
    files = []
    for _ in range(draw(st.integers(1, 3))):
        d = draw(c13.any_desc(max_nodes=3, max_extra=3))
        srcs = [e["id"] for e in d["elems"] if e["k"] in "VI"]
        nodes = circ.nodes_of(d)
        ans = []
        if draw(st.booleans()):
            ans.append(".op")
        for _ in range(draw(st.integers(0 if ans else 1, 2))):
            k = draw(st.sampled_from(["ac", "dc", "tran", "tran", "tran"]))
            if k == "ac":
                ans.append(".ac type=log nsteps=3 start=1k stop=1meg")
            elif k == "dc" and srcs:
                ans.append(".dc %s start=%r stop=1 step=.25 type=lin" % (draw(st.sampled_from(srcs)), draw(st.sampled_from([0.0, -1.0]))))
            elif k == "tran":
                uic = draw(st.sampled_from([None, 0, 1, 1, 2, 2, 3]))
                ans.append(".tran tstep=%s tstop=%s" % draw(st.sampled_from([("1u", "6u"), ("10n", "50n")])) +
                           ("" if uic is None else " uic=%d" % uic) + (" ic_label=lab" if uic == 3 else ""))
        if draw(st.integers(0, 2)) == 0:
            ans.insert(draw(st.integers(0, len(ans))), ".ic name=lab v(%s)=%r" % (draw(st.sampled_from(nodes)), draw(st.sampled_from([.5, 1.0]))))
        files.append({"desc": d, "ans": ans})
    return {"files": files, "order": draw(st.lists(st.integers(0, len(files) - 1), min_size=2, max_size=4))}


def simulate(f, path, out):
    with open(path, "w") as fp:
        fp.write("\n".join(["a title"] + nl.lines(f["desc"]) + f["ans"]) + "\n")
    try:
        r = circ.sut().main(path, outfile=out, verbose=0)
    except core.CaseTimeout:
        raise
    except BaseException as e:
        return ("exc", type(e).__name__, str(e)[:300])
    return ("ok", freeze(r))


def check_files(case, log):
    with nl.Scratch() as tmp:
        base = []
        for i, f in enumerate(case["files"]):
            r = isolated(lambda: simulate(f, tmp.path("alone%d.ckt" % i), tmp.path("alone%d" % i)), 1, tmp.dir)
            if r[0] == "timeout":
                raise Skip("a file takes long")
            require(r[0] == "ok", "%s", r)
            base.append(r[1])
            log.label("alone:" + (r[1][0] if r[1][0] == "ok" else r[1][1] + ": " + r[1][2][:50]))

        def hist():
            opt = settings()
            for n, i in enumerate(case["order"]):
                got = simulate(case["files"][i], tmp.path("file%d.ckt" % n), tmp.path("file%d" % n))
                if got[0] == "ok" and base[i][0] == "ok":
                    require(sorted(got[1]) == sorted(base[i][1]), "run %d of %s: results for %s, expected %s", n, case["order"],
                            sorted(got[1]), sorted(base[i][1]))
                    for k in base[i][1]:
                        d = diff(got[1][k], base[i][1][k])
                        require(d is None, "run %d of %s: %s result: %s", n, case["order"], k, d)
                else:
                    require(got[:3] == base[i][:3] or got[0] == base[i][0] == "ok", "run %d of %s: file %d gives %s, by itself %s", n,
                            case["order"], i, got if got[0] == "exc" else "a result", base[i] if base[i][0] == "exc" else "a result")
                now = settings()
                require(now == opt, "run %d changed the global settings: %s", n,
                        [(k, opt.get(k), now.get(k)) for k in set(opt) | set(now) if opt.get(k) != now.get(k)])
        r = isolated(hist, 60, tmp.dir)
        if r[0] == "violation":
            fail("%s", r[1])
        require(r[0] == "ok", "the history: %s", r)
        if len(set(case["order"])) < 2 and len(case["order"]) < 3:
            log.trivial = True


TESTS = [
    Test("history", case(), check, 450, 12000, cpu_s=120),
    Test("files", files_case(), check_files, 350, 8000, cpu_s=120),
]
