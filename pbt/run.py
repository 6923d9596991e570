"""Driver: python -m pbt.run C01 [--tier quick|thorough] [--replay FILE] [--test NAME]"""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYBIN = "/opt/venv/bin"
BUDGET = {"quick": 420, "thorough": 3000}


def child_env(scratch):
    env = dict(os.environ)
    env.update(PATH=PYBIN + ":" + os.environ.get("PATH", "/usr/bin:/bin"),
               PYTHONPATH=os.pathsep.join([os.path.join(ROOT, "vendor"), ROOT, REPO]),
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore",
               MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(scratch, "mpl"),
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
               LANG="en_US.UTF-8", LC_ALL="C.UTF-8", PYTHONIOENCODING="utf-8",
               TMPDIR=scratch, HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, "hyp"))
    return env


def load(pid):
    sys.path.insert(0, os.path.join(ROOT, "vendor"))
    sys.path.insert(0, ROOT)
    return importlib.import_module("pbt.props." + pid.lower())


def read_known(pid):
    """Known findings of this property: [{property,name,test,case,what}]"""
    path = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as fp:
            for line in fp:
                line = line.strip()
                if not line or line.startswith("#") or line.startswith("fixed:"):
                    continue
                d = json.loads(line)
                if d["property"] == pid:
                    out.append(d)
    return out


def read_regress(pid):
    path = os.path.join(ROOT, "regress", pid + ".jsonl")
    if not os.path.exists(path):
        return []
    with open(path) as fp:
        return [json.loads(l) for l in fp if l.strip()]


def in_child(argv, scratch, timeout=None):
    return subprocess.run([os.path.join(PYBIN, "python"), "-m", "pbt.run"] + argv,
                          cwd=scratch, env=child_env(scratch), timeout=timeout)


def write_replay(pid, v):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    from pbt.core import digest
    path = os.path.join(d, "%s-%s-%s.json" % (pid, v["test"], digest(v["case"])))
    with open(path, "w") as fp:
        json.dump({"property": pid, "test": v["test"], "case": v["case"],
                   "message": v["message"]}, fp, indent=1)
    return path


def silence():
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    rn = os.open(os.devnull, os.O_RDONLY)
    os.dup2(rn, 0)


def single_main(args):
    """(child) run listed cases, one result per line in args.out"""
    prop = load(args.pid)
    from pbt import core
    if not args.loud:
        silence()
    core.load_sut()
    tests = {t.name: t for t in prop.TESTS}
    with open(args.cases) as fp:
        cases = json.load(fp)
    out = []
    for c in cases:
        try:
            msg = core.run_case(tests[c["test"]], c["case"])
            out.append({"msg": msg})
        except core.Skip as e:
            out.append({"msg": None, "skip": str(e)})
        except core.HarnessError as e:
            out.append({"error": str(e)})
        with open(args.out, "w") as fp:
            json.dump(out, fp)
    os._exit(0)


def run_cases(pid, cases, scratch, loud=False):
    if not cases:
        return []
    cp = os.path.join(scratch, "cases.json")
    op = os.path.join(scratch, "cases.out")
    with open(cp, "w") as fp:
        json.dump(cases, fp)
    in_child([pid, "--single", "--cases", cp, "--out", op] + (["--loud"] if loud else []), scratch)
    with open(op) as fp:
        return json.load(fp)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--test", action="append")
    ap.add_argument("--shards", type=int, default=int(os.environ.get("VERIF_SHARDS", "8")))
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--single", action="store_true")
    ap.add_argument("--cases")
    ap.add_argument("--out")
    ap.add_argument("--loud", action="store_true")
    args = ap.parse_args()
    if args.tier not in BUDGET:
        args.tier = "quick"

    if args.single:
        return single_main(args)
    if args.worker is not None:
        prop = load(args.pid)
        from pbt import core
        if not args.loud:
            silence()
        try:
            core.worker(prop, args.tier, args.seed, args.worker, args.shards, args.out,
                        BUDGET[args.tier], set(args.test) if args.test else None)
        except BaseException:
            import traceback
            with open(args.out, "w") as fp:
                json.dump({"shard": args.worker, "tests": {}, "violation": None, "done": False,
                           "error": traceback.format_exc()[-3000:]}, fp)
        os._exit(0)

    t0 = time.time()
    prop = load(args.pid)
    pid = prop.PID
    scratch = tempfile.mkdtemp(prefix="vk_%s_" % pid)
    try:
        return drive(args, prop, pid, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def drive(args, prop, pid, scratch, t0):
    if args.replay:
        with open(args.replay) as fp:
            r = json.load(fp)
        res = run_cases(pid, [r], scratch, args.loud)[0]
        if res.get("error"):
            print("ERROR", res["error"])
            return 2
        if res["msg"] is None:
            print("holds for this case", res.get("skip", ""))
            return 0
        print(res["msg"])
        print("VIOLATION property=%s replay=%s" % (pid, args.replay))
        return 1

    violation = None
    error = None
    # 1. known findings and regression cases first
    known = read_known(pid)
    regress = read_regress(pid) if not args.test else []
    listed = run_cases(pid, known + regress, scratch)
    known_lines = []
    for k, r in zip(known, listed):
        if r.get("error"):
            error = r["error"]
        elif r["msg"] is not None:
            known_lines.append("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for k, r in zip(regress, listed[len(known):]):
        if r.get("error"):
            error = r["error"]
        elif r["msg"] is not None and violation is None:
            violation = {"test": k["test"], "case": k["case"], "message": r["msg"]}

    # 2. generated search
    shard_res = []
    if violation is None and error is None:
        procs = []
        for s in range(args.shards):
            out = os.path.join(scratch, "w%d.json" % s)
            wd = os.path.join(scratch, "d%d" % s)
            os.makedirs(wd)
            argv = [os.path.join(PYBIN, "python"), "-m", "pbt.run", pid, "--worker", str(s),
                    "--shards", str(args.shards), "--tier", args.tier, "--seed", str(args.seed),
                    "--out", out]
            for t in args.test or []:
                argv += ["--test", t]
            if args.loud:
                argv.append("--loud")
            env = child_env(wd)
            procs.append((subprocess.Popen(argv, cwd=wd, env=env, start_new_session=True), out))
        deadline = t0 + BUDGET[args.tier] + 300
        failed_at = None
        while True:
            alive = [p for p, _ in procs if p.poll() is None]
            if not alive:
                break
            if failed_at is None:
                for p, out in procs:
                    if os.path.exists(out):
                        try:
                            with open(out) as fp:
                                if json.load(fp).get("violation"):
                                    failed_at = time.time()
                        except ValueError:
                            pass
            late = time.time() > deadline
            if late or (failed_at and time.time() - failed_at > (60 if args.tier == "quick" else 200)):
                for p in alive:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p.wait()
                if late and not failed_at:
                    error = "time limit reached without an answer"
                break
            time.sleep(0.05)
        for p, out in procs:
            if os.path.exists(out):
                with open(out) as fp:
                    shard_res.append(json.load(fp))
            elif failed_at is None and error is None:
                error = "worker ended without a result (exit %s)" % p.returncode
        vs = [r["violation"] for r in shard_res if r.get("violation")]
        if vs:
            violation = min(vs, key=lambda v: len(json.dumps(v["case"])))
        for r in shard_res:
            if r.get("error"):
                error = error or r["error"]
            elif not r.get("done") and failed_at is None:
                error = error or "worker %d did not finish" % r["shard"]

    # 3. evidence
    ev = 0
    nt = set()
    tests = {}
    samples = []
    for t in prop.TESTS:
        d = {"run": 0, "skipped": 0, "excluded_known": 0, "over_budget": 0, "labels": {}, "wall_s": 0}
        hs, ns = set(), set()
        for r in shard_res:
            s = r["tests"].get(t.name)
            if not s:
                continue
            for k in ("run", "skipped", "excluded_known", "over_budget"):
                d[k] += s[k]
            for k, v in s["labels"].items():
                d["labels"][k] = d["labels"].get(k, 0) + v
            d["wall_s"] = max(d["wall_s"], s["wall_s"])
            hs.update(s["hashes"])
            ns.update(s["nontrivial"])
            for c in s["samples"]:
                if sum(1 for x in samples if x["test"] == t.name) < 2:
                    samples.append({"test": t.name, "case": c})
        d["distinct"] = len(hs)
        d["distinct_nontrivial"] = len(ns)
        ev += d["run"]
        nt.update((t.name, h) for h in ns)
        tests[t.name] = d
    ev += len(listed)
    evidence = {
        "property": pid, "tier": args.tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(nt),
            "rule": prop.RULE, "samples": samples, "per_test": tests,
            "known_findings_replayed": len(known), "regression_cases_replayed": len(regress)},
        "assumptions": list(getattr(prop, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0}
    if not args.no_evidence:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as fp:
            json.dump(evidence, fp, indent=1)
    for l in known_lines:
        print(l)
    for name, d in tests.items():
        print("%s %-22s run=%d nontrivial=%d skipped=%d excluded=%d over_budget=%d %.0fs" % (
            pid, name, d["run"], d["distinct_nontrivial"], d["skipped"], d["excluded_known"],
            d["over_budget"], d["wall_s"]))
        if os.environ.get("VERIF_LABELS"):
            print("     ", json.dumps(d["labels"], sort_keys=True))
    if violation:
        path = write_replay(pid, violation)
        print("test %s: %s" % (violation["test"], violation["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if error:
        print("ERROR of the check: %s" % error)
        return 2
    print("%s held on %d cases (%d distinct non-trivial) in %.0f s" % (
        pid, ev, len(nt), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(ROOT, "vendor"))
    sys.path.insert(0, ROOT)
    sys.exit(main())
