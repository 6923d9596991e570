"""Mutation campaign: python3 tools/mutate.py OUT.jsonl N SEED [FILE...]

Makes N random single-site changes of the given modules of ahkab in scratch
copies under /tmp/mut and runs the checks that concern the module (at reduced
scale); writes one line per mutant. Survivors are then run against the stable
tests by hand (tools/survivors.sh)."""
import warnings; warnings.simplefilter("ignore")
import ast, json, os, random, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

MAP = {
    "ac.py": "C05 C21 C20", "circuit.py": "C19 C13 C14 C02 C07", "dc_analysis.py": "C02 C04 C01 C21 C22",
    "dc_guess.py": "C02 C01 C20", "diode.py": "C03 C02 C18", "ekv.py": "C03 C02 C18", "mosq.py": "C03 C02 C18",
    "switch.py": "C03 C02 C20 C18", "csvlib.py": "C17 C16", "fourier.py": "C11 C23", "gear.py": "C06", "implicit_euler.py": "C06",
    "trap.py": "C06", "transient.py": "C06 C07 C20", "netlist_parser.py": "C13 C15 C23 C04 C05 C08 C09 C07 C11 C10",
    "printing.py": "C18 C23 C14 C16", "pz.py": "C09 C21", "results.py": "C16 C18 C17 C23 C11", "shooting.py": "C08", "bfpss.py": "C08",
    "pss.py": "C08", "symbolic.py": "C10 C23", "time_functions.py": "C12 C14", "utilities.py": "C22 C02 C20",
    "components/Capacitor.py": "C01 C05 C14 C19 C18", "components/Component.py": "C14 C19 C03 C18", "components/Inductor.py": "C01 C05 C14 C19",
    "components/Resistor.py": "C01 C14 C18", "components/sources/EVSource.py": "C01 C14 C18", "components/sources/FISource.py": "C01 C14 C18",
    "components/sources/GISource.py": "C01 C14 C18", "components/sources/HVSource.py": "C01 C14 C18",
    "components/sources/ISource.py": "C01 C14 C06 C18 C12", "components/sources/VSource.py": "C01 C14 C06 C18 C12",
    "__main__.py": "C23", "ahkab.py": "C20 C07 C23 C05 C04 C08 C09", "constants.py": "C03",
}


def sites(src):
    t = ast.parse(src)
    lines = src.split("\n")
    out = []
    doc = set()
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(getattr(n.body[0], "value", None), ast.Constant):
            doc.add(n.body[0])
    def seg(n):
        return ast.get_source_segment(src, n)
    def rep(n, new, kind):
        out.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, new, kind))
    for n in ast.walk(t):
        if n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not",
                 ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}[type(n.ops[0])]
            rep(n, "%s %s %s" % (seg(n.left), o, seg(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BinOp):
            o = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/"}.get(type(n.op))
            if o and not (isinstance(n.op, ast.Add) and (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str))):
                rep(n, "(%s %s %s)" % (seg(n.left), o, seg(n.right)), "bin")
                rep(n, "(%s)" % seg(n.left), "binleft")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + o.join("(%s)" % seg(v) for v in n.values) + ")", "bool")
            rep(n, "(%s)" % seg(n.values[-1]), "boolright")
        elif isinstance(n, ast.UnaryOp):
            rep(n, "(%s)" % seg(n.operand), "unary")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            rep(n, repr(n.value + 1) if n.value == int(n.value) else repr(n.value * 1.5), "const")
            if n.value == 1:
                rep(n, "0", "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            rep(n, repr(not n.value), "flag")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            txt = seg(n)
            if "print_" not in txt and "tick" not in txt:
                rep(n, "pass", "del")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            rep(n.test, "not (%s)" % seg(n.test), "neg")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            pass
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
            rep(n, "%s(%s, %s)" % (seg(n.func), seg(n.args[1]), seg(n.args[0])), "swap")
    return [s for s in out if "verbose" not in lines[s[0] - 1] and "print_" not in lines[s[0] - 1]
            and "raise" not in lines[s[0] - 1] and "warn" not in lines[s[0] - 1]]


def apply(src, s):
    l = src.split("\n")
    a, ac, b, bc, new, _ = s
    head = l[a - 1].encode()[:ac].decode()
    tail = l[b - 1].encode()[bc:].decode()
    return "\n".join(l[:a - 1] + [head + new + tail] + l[b:])


def one(job):
    k, f, s = job
    w = "/tmp/mut/w%d" % k
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    shutil.copytree("/repo/ahkab", w + "/ahkab")
    p = os.path.join(w, "ahkab", f)
    src = open(p, encoding="utf-8").read()
    new = apply(src, s)
    rec = {"k": k, "file": f, "site": list(s), "old": "\n".join(src.split("\n")[s[0] - 1:s[2]]),
           "new": "\n".join(new.split("\n")[s[0] - 1:s[0]]), "caught": None}
    try:
        compile(new, p, "exec")
    except SyntaxError:
        shutil.rmtree(w)
        return None
    open(p, "w", encoding="utf-8").write(new)
    env = dict(os.environ, VERIF_REPO=w, VERIF_SCALE=os.environ.get("MUT_SCALE", "0.2"), VERIF_SHARDS="2", OPENBLAS_NUM_THREADS="1")
    for pid in MAP[f].split():
        try:
            r = subprocess.run(["./check.sh", pid, "--no-evidence"], cwd="/verif", env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=900)
            rc, txt = r.returncode, r.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            rc, txt = 99, "timeout"
        if rc != 0:
            rec["caught"] = pid
            rec["rc"] = rc
            rec["msg"] = [l for l in txt.split("\n") if l.strip()][-3:]
            break
    shutil.rmtree(w)
    return rec


def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rng = random.Random(seed)
    files = sys.argv[4:] or sorted(MAP)
    per = {}
    for f in files:
        per[f] = sites(open("/repo/ahkab/" + f, encoding="utf-8").read())
    wt = [len(per[f]) ** .6 for f in files]
    jobs = []
    while len(jobs) < n:
        f = rng.choices(files, wt)[0]
        if per[f]:
            s = per[f].pop(rng.randrange(len(per[f])))
            jobs.append((len(jobs), f, s))
    with open(out, "a") as fp, ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "4"))) as ex:
        for rec in ex.map(one, jobs):
            if rec:
                fp.write(json.dumps(rec) + "\n")
                fp.flush()


main()
