"""C23: the command line run of a netlist."""
import io
import math
import os
import re
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from ..core import Test, Skip, fail, require
from .. import circ, nl, core, tfun
from ..iso import isolated
from . import c13

PID = "C23"
RULE = ("a case is non-trivial when the command line produced the results of at least one analysis that were compared, or refused "
        "what it was given")
ASSUMPTIONS = [
    "the values expected are those of the programming interface for the same circuit, in a process of its own; the other "
    "properties examine these",
    "at most one analysis of each type per netlist: the results go to one file per type",
    "the exit status of a run whose analysis does not converge is not examined, only that no result is written",
    "files hold the values to 1e-12",
]


# ------------------------------------------------------------ what is asked

METHODS = ["implicit_euler", "trap", "gear2", "gear3", "gear4", "gear5", "gear6"]


@st.composite
def an(draw, kind, desc):
    srcs = [e["id"] for e in desc["elems"] if e["k"] in "VI"]
    nodes = circ.nodes_of(desc)
    a = {"k": kind}
    if kind == "dc":
        if not srcs:
            return None
        a["src"] = draw(st.sampled_from(srcs))
        a["lo"], a["n"], a["step"] = draw(st.sampled_from([(0.0, 4, .25), (-1.0, 3, .5), (1e-3, 2, 1e-3), (5.0, 5, -1.0)]))
    elif kind == "ac":
        a["lo"], a["hi"] = draw(st.sampled_from([(1e3, 1e5), (1.0, 1e8), (50.0, 60.0)]))
        a["n"] = draw(st.integers(2, 5))
        a["type"] = draw(st.sampled_from(["lin", "log"]))
    elif kind == "tran":
        a["step"], a["stop"] = draw(st.sampled_from([(1e-6, 6e-6), (1e-8, 5e-8), (1e-5, 2e-4)]))
        a["method"] = draw(st.sampled_from([None, None] + METHODS))
        a["uic"] = draw(st.sampled_from([None, 0, 1, 2, 3]))
        a["v"] = draw(st.sampled_from([.5, 1.0, -2.0]))
        a["node"] = draw(st.sampled_from(nodes))
    elif kind == "pss":
        a["T"] = draw(st.sampled_from([1e-5, 1e-4]))
        a["n"] = draw(st.integers(4, 20))
        a["method"] = draw(st.sampled_from([None, "shooting", "brute-force"]))
    elif kind == "symbolic":
        a["ac"] = draw(st.booleans())
        vs = [e["id"] for e in desc["elems"] if e["k"] in "VI"]
        a["tf"] = draw(st.sampled_from(vs)) if vs and draw(st.booleans()) else None
    return a


OPTS = {
    "-t": st.sampled_from(METHODS + ["TRAP", "Gear3"]),
    "--t-fixed-step": st.just(None),
    "--v-absolute-tolerance": st.sampled_from(["1e-3", "1e-9", "0.01"]),
    "--v-relative-tolerance": st.sampled_from([".05", "1e-6", ".01"]),
    "--i-absolute-tolerance": st.sampled_from(["1e-6", "1e-12"]),
    "--i-relative-tolerance": st.sampled_from([".05", "1e-6"]),
    "--h-min": st.sampled_from(["1e-8", "1e-30"]),
    "--dc-max-nr": st.sampled_from(["1", "3", "50", "1e3"]),
    "--t-max-nr": st.sampled_from(["1", "2", "50"]),
    "--t-max-time": st.sampled_from(["0", "3", "40"]),
    "--s-max-nr": st.sampled_from(["0", "1", "5"]),
    "--gmin": st.sampled_from(["1e-3", "0", "1e-6"]),
    "--cmin": st.sampled_from(["1e-9", "0", "1e-12"]),
    "--dc-guess": st.sampled_from(["none", "guess"]),
}
SHORT = {"-t": "--tran-method", "-o": "--outfile", "-v": "--verbose"}


@st.composite
def case(draw):
    few = draw(st.integers(0, 3)) == 0
    desc = draw(c13.any_desc(max_nodes=3 if few else 4, max_extra=2 if few else 4))
    kinds = draw(st.lists(st.sampled_from(["op", "op", "dc", "ac", "tran", "tran", "pz", "pss", "symbolic"]), min_size=1, max_size=4, unique=True))
    if any(e["k"] in "DMS" for e in desc["elems"]) or len(desc["elems"]) > 5:
        kinds = [k for k in kinds if k != "symbolic"] or ["op"]
    ans = [a for a in (draw(an(k, desc)) for k in kinds) if a]
    tran = [a for a in ans if a["k"] == "tran"]
    if tran and tran[0]["uic"] in (1, 2) or any(a["k"] == "pz" for a in ans):
        ans = [a for a in ans if a["k"] == "op"] + [a for a in ans if a["k"] != "op"]
        if ans[0]["k"] != "op":
            ans = [{"k": "op"}] + ans
    if not ans:
        ans = [{"k": "op"}]
    opts = []
    for k in draw(st.lists(st.sampled_from(sorted(OPTS) + ["-t", "--t-fixed-step", "--gmin"]), max_size=3, unique=True)):
        opts.append([k, draw(OPTS[k])])
    post = []
    if tran:
        vars_ = ["V(%s)" % n for n in circ.nodes_of(desc)] + ["I(%s)" % e["id"] for e in desc["elems"] if e["k"] == "V"]
        if len(vars_) > 2:
            vars_.append("V(%s,%s)" % tuple(circ.nodes_of(desc)[:2]) if len(circ.nodes_of(desc)) > 1 else vars_[0])
        for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
            if draw(st.booleans()):
                post.append({"k": "four", "vars": draw(st.lists(st.sampled_from(vars_), min_size=1, max_size=2)), "f": draw(st.sampled_from([1, 2]))})
            else:
                post.append({"k": "fft", "var": draw(st.sampled_from(vars_)), "np": draw(st.sampled_from([16, 32, 64])),
                             "window": draw(st.sampled_from([None, "HANN", "BART", "KAISER"])), "format": draw(st.sampled_from([None, "NORM", "UNORM"]))})
    return {"desc": desc, "ans": ans, "opts": opts, "post": post, "out": draw(st.sampled_from(["file", "file", "stdout"])),
            "via": draw(st.sampled_from(["in"] * 12 + ["proc"])), "stdin": draw(st.booleans()), "v": draw(st.sampled_from([None, None, 0, 3, 5])),
            "print": draw(st.integers(0, 5)) == 0, "long": draw(st.booleans())}


def directives(case):
    out = []
    for a in case["ans"]:
        k = a["k"]
        if k == "op":
            out.append(".op")
        elif k == "dc":
            out.append(".dc %s start=%r stop=%r step=%r" % (a["src"], a["lo"], a["lo"] + (a["n"] - 1) * a["step"], a["step"]))
        elif k == "ac":
            out.append(".ac %s %d %r %r" % (a["type"], a["n"], a["lo"], a["hi"]))
        elif k == "tran":
            if a["uic"] == 3:
                out.append(".ic name=lab v(%s)=%r" % (a["node"], a["v"]))
            out.append(".tran tstep=%r tstop=%r" % (a["step"], a["stop"]) + ("" if a["method"] is None else " method=" + a["method"]) +
                       ("" if a["uic"] is None else " uic=%d" % a["uic"]) + (" ic_label=lab" if a["uic"] == 3 else ""))
        elif k == "pz":
            out.append(".pz")
        elif k == "pss":
            out.append(".pss period=%r points=%d" % (a["T"], a["n"]) + ("" if a["method"] is None else " method=" + a["method"]))
        elif k == "symbolic":
            out.append(".symbolic ac=%d" % a["ac"] + ("" if a["tf"] is None else " tf=" + a["tf"]))
    for p in case["post"]:
        if p["k"] == "four":
            out.append(".four %r %s" % (fund(case, p), " ".join(p["vars"])))
        else:
            out.append(".fft %s np=%d" % (p["var"], p["np"]) + (" window=" + p["window"] if p["window"] else "") +
                       (" format=" + p["format"] if p["format"] else ""))
    return out


def fund(case, p):
    return p["f"] * 2 / [a for a in case["ans"] if a["k"] == "tran"][0]["stop"]


def fkey(v):
    """the names of the variable(s), as the containers have them"""
    m = re.match(r"([VI])\((.*)\)$", v)
    if m.group(1) == "I":
        return v.upper()
    n = m.group(2).split(",")
    return tuple("V" + x.upper() for x in n) if len(n) > 1 else "V" + n[0].upper()


# --------------------------------------------------- the programming interface

def set_options(opts):
    a = circ.sut()
    o = a.options
    method = None
    for k, v in opts:
        if k == "-t":
            method = v.upper()
        elif k == "--t-fixed-step":
            o.transient_no_step_control = True
        elif k == "--v-absolute-tolerance":
            o.vea = float(v)
        elif k == "--v-relative-tolerance":
            o.ver = float(v)
        elif k == "--i-absolute-tolerance":
            o.iea = float(v)
        elif k == "--i-relative-tolerance":
            o.ier = float(v)
        elif k == "--h-min":
            o.hmin = float(v)
        elif k == "--dc-max-nr":
            o.dc_max_nr_iter = int(float(v))
        elif k == "--t-max-nr":
            o.transient_max_nr_iter = int(float(v))
        elif k == "--t-max-time":
            o.transient_max_time_iter = int(float(v))
        elif k == "--s-max-nr":
            o.shooting_max_nr_iter = int(float(v))
        elif k == "--gmin":
            o.gmin = float(v)
        elif k == "--cmin":
            o.cmin = float(v)
        elif k == "--dc-guess":
            o.dc_use_guess = v != "none"
    return method


def api(case, tmp):
    """the results of the programming interface, as {type: (headers, matrix) | None}; the texts of the reports"""
    a = circ.sut()
    core.reset_sut()
    method = set_options(case["opts"])
    c = circ.build(case["desc"], title="a title")
    out, op, x0s = {}, None, {}
    tran = None
    for q in case["ans"]:
        k = q["k"]
        f = tmp.path("api")
        if k == "op":
            n = a.new_op(outfile=f)
        elif k == "dc":
            n = a.new_dc(q["lo"], q["lo"] + (q["n"] - 1) * q["step"], q["n"], q["src"], outfile=f)
        elif k == "ac":
            n = a.new_ac(q["lo"], q["hi"], q["n"], x0=None, sweep_type=q["type"].upper(), outfile=f)
        elif k == "tran":
            x0 = None
            if q["uic"] in (1, 2):
                if op is None:
                    raise Skip("no operating point to start from")
                x0 = op if q["uic"] == 1 else a.icmodified_x0(c, op)
            elif q["uic"] == 3:
                x0 = a.new_x0(c, {"V(%s)" % q["node"]: q["v"]})
            m = method or q["method"]
            n = a.new_tran(0, q["stop"], q["step"], x0=x0, method=m.upper() if m else "TRAP", outfile=f,
                           use_step_control=not a.options.transient_no_step_control)
        elif k == "pz":
            if op is None:
                raise Skip("no operating point")
            n = a.new_pz(x0=op, outfile=f)
        elif k == "pss":
            n = a.new_pss(q["T"], points=q["n"], method=q["method"] or "shooting", outfile=f)
        else:
            n = a.new_symbolic(source=q["tf"], ac_enable=q["ac"], outfile=f)
        r = a.run(c, [n])[k]
        if k == "op":
            op = r
        if k == "tran":
            tran = r
        if r is None:
            out[k] = None
        elif k == "op":
            out[k] = (list(r.keys()), np.array(r.asarray()).reshape((-1, 1)), report(open(f + ".opinfo", encoding="utf8").read()))
        elif k == "symbolic":
            sol, tfs = r if isinstance(r, (tuple, list)) else (r, None)
            out[k] = ({str(x): str(sol[x]) for x in sol.keys()},
                      None if tfs is None else {str(x): {y: str(z) for y, z in tfs[x].items()} for x in tfs.keys()})
        else:
            # (no file for an empty set of poles)
            out[k] = table(open(r.filename).read()) if os.path.exists(r.filename) else None
    post = []
    if tran is not None:
        from ahkab import fourier
        for p in case["post"]:
            if p["k"] == "four":
                for v in p["vars"]:
                    F = fourier.fourier(fkey(v), tran, fund(case, p))
                    post.append(("four", fkey(v), F))
            else:
                kw = {"freq": None, "np": p["np"]}
                if p["window"]:
                    kw["window"] = p["window"]
                F = fourier.spicefft(fkey(p["var"]), tran, **kw)
                post.append(("fft", fkey(p["var"]), F, p["format"] or "NORM"))
    return out, post


def table(text):
    lines = text.strip("\n").split("\n")
    if not lines[0].startswith("#"):
        fail("a result file starts with %r instead of the names of the variables", lines[0][:80])
    rows = [[float(x) for x in l.split("\t")] for l in lines[1:]]
    return lines[0][1:].split("\t"), np.array(rows, dtype=float).T


def report(text):
    """the part of the report on an operating point with the results"""
    i = text.find("RESULTS:")
    return None if i < 0 else re.sub(r"[ \t]+", " ", text[i:]).strip()


# ------------------------------------------------------------ the command line

def in_process(argv, text, cwd):
    """(status, stdout, stderr) of the command line run in this process"""
    import ahkab.__main__ as M
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr, os.getcwd()
    raw = io.BytesIO()
    # as when the output is redirected: not line buffered
    sys.stdout = io.TextIOWrapper(raw, encoding="utf8")
    sys.stderr = io.StringIO()
    sys.stdin = io.StringIO(text)
    sys.argv = ["ahkab"] + argv
    os.chdir(cwd)
    try:
        try:
            M._cli()
            code = 0
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except core.CaseTimeout:
            raise
        except Exception as e:
            import traceback
            code = 1
            sys.stderr.write("".join(traceback.format_exception(type(e), e, e.__traceback__)[-4:]))
        sys.stdout.flush()
        return code, raw.getvalue().decode("utf8"), sys.stderr.getvalue()
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old[:4]
        os.chdir(old[4])


def process(argv, text, cwd):
    env = dict(os.environ, PYTHONPATH=os.environ.get("VERIF_REPO", "/repo"), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
               LANG="en_US.UTF-8", PYTHONIOENCODING="utf8")
    env.pop("PYTHONUNBUFFERED", None)
    p = subprocess.run([sys.executable, "-m", "ahkab"] + argv, input=text.encode("utf8"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env)
    return p.returncode, p.stdout.decode("utf8"), p.stderr.decode("utf8")


def argv_of(case, tmp, netlist):
    av = []
    opts = list(case["opts"])
    if case["v"] is not None:
        opts.append(["-v", str(case["v"])])
    if case["out"] == "file":
        opts.append(["-o", tmp.path("res")])
    for k, v in opts:
        if case["long"]:
            k = SHORT.get(k, k)
        if v is None:
            av.append(k)
        elif k.startswith("--") and case["long"]:
            av.append("%s=%s" % (k, v))
        else:
            av += [k, v]
    if case["print"]:
        av.append("-p")
    return av + ["-" if case["stdin"] else netlist]


def close(a, b):
    return a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b)) or (math.isnan(a) and math.isnan(b))


def same(what, got, want):
    gh, gm = got[:2]
    wh, wm = want[:2]
    require([x.upper() for x in gh] == [x.upper() for x in wh], "%s: variables %s, expected %s", what, gh, wh)
    require(gm.shape == wm.shape, "%s: %s values, expected %s", what, gm.shape, wm.shape)
    for i in range(wm.shape[0]):
        for j in range(wm.shape[1]):
            if wh[i].startswith("arg(") and abs(wm[i - 1, j]) < 1e-18:
                continue
            require(close(gm[i, j], wm[i, j]) or abs(gm[i, j] - wm[i, j]) < 1e-20, "%s: %s is %r at position %d, the programming interface gives %r", what, wh[i], gm[i, j], j, wm[i, j])


EXT = {"op": ".op", "dc": ".dc", "ac": ".ac", "tran": ".tran", "pz": ".pz", "pss": ".pss"}


def tables_in(text):
    """the tables printed, in order"""
    out, cur = [], None
    for l in text.split("\n"):
        if l.startswith("#"):
            cur = [l]
            out.append(cur)
        elif cur is not None:
            try:
                ok = l != "" and [float(x) for x in l.split("\t")] is not None and re.match(r"^[-+0-9.naief\t]+$", l)
            except ValueError:
                ok = False
            if ok:
                cur.append(l)
            else:
                cur = None
    return [table("\n".join(t)) for t in out]


def grid(text, n):
    """rows of n numbers following the dashes of a table"""
    out, on = [], False
    for l in text.split("\n"):
        if l.startswith("---"):
            on = True
        elif on:
            w = l.split()
            if len(w) != n:
                break
            out.append([float(x) for x in w])
    return out


def near(a, b, tol=2e-5, floor=0.0):
    return abs(a - b) <= tol * max(abs(a), abs(b)) + floor


def check_post(case, text, lis, post, log):
    """the Fourier tables: .four on the standard output, .fft there or in the .lis file"""
    pos = {"four": 0, "fft": 0}
    src = {"four": text, "fft": text if case["out"] == "stdout" else lis}
    for p in post:
        f, F, thd = p[2]
        name = p[1] if isinstance(p[1], str) else " - ".join(p[1])
        head = {"four": "Fourier components of transient response %s\n", "fft": "FFT components of transient response %s\n"}[p[0]] % name
        i = src[p[0]].upper().find(head.upper(), pos[p[0]])
        require(i >= 0, "no %r in what the run printed", head)
        pos[p[0]] = i + len(head)
        rest = src[p[0]][pos[p[0]]:]
        j = rest.find("components of transient response")
        rest = rest if j < 0 else rest[:j]
        mag = np.abs(F)
        top = mag.max()
        if not top > 0 or not np.all(np.isfinite(mag)):
            continue
        if p[0] == "four":
            rows = grid(rest, 6)
            require(len(rows) == len(F) - 1, "%s: %d harmonics, expected %d", head, len(rows), len(F) - 1)
            for k, r in enumerate(rows, 1):
                ok = r[0] == k and near(r[1], f[k]) and near(r[2], mag[k]) and near(r[3], mag[k] / top) and near(r[4], math.degrees(np.angle(F[k])), floor=1e-3)
                require(ok, "%s: harmonic %d: printed %s; f=%r magnitude=%r phase=%r", head, k, r, f[k], mag[k], math.degrees(np.angle(F[k])))
            m = re.search(r"DC component =\s+(\S+)", rest)
            require(m is not None and near(float(m.group(1)), F[0].real), "%s: DC %s, expected %r", head, m and m.group(1), F[0].real)
            m = re.search(r"harmonic distortion: (\S+) %", rest)
            require(m is not None and (near(float(m.group(1)), 100 * thd) or not np.isfinite(thd)), "%s: THD %s, expected %r", head, m and m.group(1), 100 * thd)
        else:
            rows = grid(rest, 4)
            require(len(rows) == len(F) - 1, "%s: %d components, expected %d", head, len(rows), len(F) - 1)
            ref = 20 * math.log10(top) if p[3] == "NORM" else 0.0
            for k, r in enumerate(rows, 1):
                want = 20 * math.log10(mag[k]) - ref if mag[k] > 0 else -math.inf
                ok = r[0] == k and near(r[1], f[k]) and (r[2] == want or near(r[2], want, floor=1e-3)) and near(r[3], math.degrees(np.angle(F[k])), floor=1e-3)
                require(ok, "%s: component %d: printed %s; f=%r magnitude=%r dB phase=%r", head, k, r, f[k], want, math.degrees(np.angle(F[k])))
        log.label("post:" + p[0])


def check(case, log):
    with nl.Scratch() as tmp:
        r = isolated(lambda: api(case, tmp), 3, tmp.dir)
        if r[0] == "timeout":
            raise Skip("takes long")
        if r[0] == "skip":
            raise Skip(r[1])
        want = None
        if r[0] == "ok":
            want, post = r[1]
        elif r[0] == "violation":
            fail("%s", r[1])
        text = "\n".join(["a title"] + nl.lines(case["desc"]) + directives(case) + [".end"]) + "\n"
        net = tmp.write("net.ckt", text)
        argv = argv_of(case, tmp, net)
        os.mkdir(tmp.path("cwd"))
        stdin = text if case["stdin"] else ""
        if case["via"] == "proc":
            status, out, err = process(argv, stdin, tmp.path("cwd"))
        else:
            def go():
                core.reset_sut()
                return in_process(argv, stdin, tmp.path("cwd"))
            q = isolated(go, 12, tmp.dir)
            if q[0] == "timeout":
                fail("%s: no result after 12 s, the programming interface takes less than 3\n%s", argv, text)
            require(q[0] == "ok", "%s", q)
            status, out, err = q[1]
        ctx = "ahkab %s\n%s" % (" ".join(argv), text)
        require(os.listdir(tmp.path("cwd")) == [], "%sleaves %s in the working directory", ctx, os.listdir(tmp.path("cwd")))
        if want is None:
            # the programming interface raises: so must the command line
            require(status != 0, "%sends with status 0; the programming interface raises %s: %s", ctx, r[1], r[2])
            log.label("raises:%s %s" % (r[1], r[2][:40]))
            log.trivial = True
            return
        if any(v is None for v in want.values()) and case["post"]:
            log.trivial = True
            log.label("failed, with post-processing")
            return
        if status != 0 and len(case["desc"]["elems"]) < 2:
            log.label("too few elements")
            require("two elements" in err or "at least" in err or "elements" in err, "%sends with status %d: %s", ctx, status, err[-300:])
            log.trivial = True
            return
        require(status == 0, "%sends with status %s: %s", ctx, status, err[-1500:])
        done = 0
        cut = 0
        nt = 0
        tabs = tables_in(out)
        for a in case["ans"]:
            k = a["k"]
            w = want[k]
            log.label("%s %s%s" % (case["out"], k, "" if w is not None else " (no result)"))
            if k == "symbolic":
                if case["out"] == "stdout" or case["v"] is None or case["v"] >= 3:
                    pos = -1
                    for name in sorted(w[0]):
                        i = ("\n" + out).find("\n%s\t = %s\n" % (name, w[0][name]))
                        require(i >= 0, "%sno line for %s = %s in the output:\n%s", ctx, name, w[0][name], out[-2000:])
                        require(i > pos, "%s%s is not printed in order", ctx, name)
                        pos = i
                    for name, d in (w[1] or {}).items():
                        require("\n%s = %s\n" % (name, d["gain"]) in "\n" + out, "%sno line for %s = %s in the output", ctx, name, d["gain"])
                    done += 1
                if case["out"] == "file":
                    require(os.path.exists(tmp.path("res.symbolic")), "%sno .symbolic file", ctx)
                    done += 1
                continue
            if case["out"] == "file":
                f = tmp.path("res" + EXT[k])
                if w is None:
                    if k == "op":
                        require(not os.path.exists(f + "info"), "%sa report on an operating point that was not found", ctx)
                    continue
                require(os.path.exists(f), "%sno file for the results of %s", ctx, k)
                if k == "op":
                    rep = report(open(f + "info", encoding="utf8").read())
                    require(rep == w[2], "%sthe report is\n%s\nexpected\n%s", ctx, rep, w[2])
                same(ctx + k, table(open(f).read()), w)
                done += 1
            else:
                if w is None:
                    continue
                if k == "op":
                    rep = re.sub(r"[ \t]+", " ", out)
                    require(w[2] in rep, "%sthe report is not in the output:\n%s\nexpected\n%s", ctx, rep[:3000], w[2])
                    done += 1
                    continue
                # the next table with these variables
                while nt < len(tabs) and [x.upper() for x in tabs[nt][0]] != [x.upper() for x in w[0]]:
                    nt += 1
                require(nt < len(tabs), "%sno table of the results of %s in the output", ctx, k)
                same(ctx + k, tabs[nt], w)
                nt += 1
                done += 1
        if case["out"] == "file":
            extra = set(x for x in os.listdir(tmp.dir) if x.startswith("res.")) - set("res" + x for x in EXT.values()) - \
                set(["res.opinfo", "res.symbolic", "res.symbolic.tfs", "res.lis", "res.pss.tran"])
            asked = [a["k"] for a in case["ans"]]
            extra |= set(x for x in os.listdir(tmp.dir) if x in ["res" + v for k, v in EXT.items() if k not in asked])
            require(not extra, "%swrites %s", ctx, extra)
        lis = open(tmp.path("res.lis")).read() if os.path.exists(tmp.path("res.lis")) else ""
        check_post(case, out, lis, post, log)
        for k, v in case["opts"]:
            log.label("option " + k)
        if not done:
            log.trivial = True


# ------------------------------------------------------------------ refusals

@st.composite
def bad_case(draw):
    k = draw(st.sampled_from(["line"] * 8 + ["missing", "none", "two", "option", "value", "dir", "few", "ic"]))
    return {"k": k, "line": draw(st.sampled_from(c13.WRONG)), "an": draw(st.sampled_from([".op", ".ac lin 3 1 10", ".tran 1u 4u", ".dc v1 0 1 .5"])),
            "stdin": draw(st.booleans()), "at": draw(st.booleans())}


def check_bad(case, log):
    base = ["v1 1 0 vdc=1", "r1 1 2 1k", "l1 2 3 1u", "l2 3 0 1u", ".model diode dd is=1f", ".model mosq mm type=n", ".model sw sw vt=1",
            ".subckt sub a b\nr1 a b 1\n.ends"]
    k = case["k"]
    log.label(k)
    lines = ["title"] + base + [case["an"]]
    if k == "line":
        lines = lines + [case["line"]]
        if case["at"] and case["line"][0] != "." and not case["line"].startswith(("k9", "x9")):
            lines = ["title", case["line"]] + base + [case["an"]]
    elif k == "few":
        lines = ["title", "v1 1 0 vdc=1", case["an"]]
    elif k == "ic":
        lines += [".tran 1u 4u uic=3 ic_label=nolabel"]
    text = "\n".join(lines) + "\n"
    with nl.Scratch() as tmp:
        net = tmp.write("net.ckt", text)
        os.mkdir(tmp.path("cwd"))
        a = ["-o", tmp.path("res")]
        pos = ["-"] if case["stdin"] and k in ("line", "few", "ic", "value", "option") else [net]
        if k == "missing":
            pos = [tmp.path("nothing.ckt")]
        elif k == "none":
            pos = []
        elif k == "two":
            pos = [net, net]
        elif k == "option":
            a += ["--no-such-option"]
        elif k == "value":
            a += draw_value(case)
        elif k == "dir":
            pos = [tmp.dir]

        def go():
            core.reset_sut()
            return in_process(a + pos, text if pos == ["-"] else "", tmp.path("cwd"))
        q = isolated(go, 20, tmp.dir)
        require(q[0] == "ok", "%s", q)
        status, out, err = q[1]
        ctx = "ahkab %s\n%s" % (" ".join(a + pos), text)
        require(status != 0, "%sends with status 0", ctx)
        if k != "ic":
            left = [x for x in os.listdir(tmp.dir) if x.startswith("res")]
            require(not left, "%sfails but writes %s", ctx, left)
        require(out + err != "", "%sfails without a word", ctx)


def draw_value(case):
    return {".op": ["--gmin", "abc"], ".ac lin 3 1 10": ["--v-relative-tolerance=x"], ".tran 1u 4u": ["--dc-max-nr", "many"], ".dc v1 0 1 .5": ["-v", "loud"]}[case["an"]]


TESTS = [
    Test("runs", case(), check, 500, 12000, cpu_s=60),
    Test("refusals", bad_case(), check_bad, 120, 2000, cpu_s=60),
]
