"""Property-test harness: case generation (Hypothesis), sharding, shrinking,
replay files, known findings and evidence.

A property module (pbt/props/<id>.py) defines

    PID, TITLE, RULE          strings
    TESTS                     list of Test(...)

Every case is a JSON value, so the shrunk failing case is the replay file and
`check(case, log)` re-runs it without the property-testing library.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The property does not hold for this case."""


class Skip(Exception):
    """The case falls outside the domain (counted, never a pass)."""


class CaseTimeout(BaseException):
    """The case used up its (generous) CPU allowance."""


class Log(object):
    """What one case did: labels (for the distribution) and non-triviality."""

    def __init__(self):
        self.labels = []
        self.trivial = False

    def label(self, *names):
        for n in names:
            self.labels.append(str(n))


class Test(object):
    """One generated check.

    gen:      Hypothesis strategy giving JSON-able cases
    check:    check(case, log); raises Violation
    quick, thorough: number of cases over all shards
    nontrivial: nontrivial(case, labels) -> bool
    known:    known(case) -> None or the name of the known finding it hits
    cpu_s:    CPU allowance of one case
    """

    def __init__(self, name, gen, check, quick, thorough, nontrivial=None,
                 known=None, cpu_s=60, rule="", shards=None):
        self.name = name
        self.gen = gen
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.nontrivial = nontrivial or (lambda case, labels: True)
        self.known = known or (lambda case: None)
        self.cpu_s = cpu_s
        self.rule = rule
        self.shards = shards


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def canon(case):
    return json.dumps(case, sort_keys=True)


def digest(case):
    return hashlib.sha1(canon(case).encode("utf-8")).hexdigest()[:16]


# --------------------------------------------------------------------------
# running one case against the code under test

_pristine = {}


def load_sut():
    """Import the simulator and remember its global settings."""
    if _pristine:
        return
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import ahkab  # noqa
    from ahkab import options, constants, csvlib
    if not os.path.abspath(ahkab.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError("ahkab imported from %s" % ahkab.__file__)
    _pristine["options"] = {k: v for k, v in vars(options).items()
                            if not k.startswith("__")
                            and isinstance(v, (int, float, str, bool, list, tuple, dict, type(None)))}
    _pristine["T"] = constants.T
    _pristine["sep"] = csvlib.SEPARATOR


def reset_sut():
    from ahkab import options, constants, csvlib
    import ahkab.ahkab as front
    import numpy as np
    for k, v in _pristine["options"].items():
        setattr(options, k, list(v) if isinstance(v, list) else v)
    constants.T = _pristine["T"]
    csvlib.SEPARATOR = _pristine["sep"]
    if isinstance(getattr(front, "_queue", None), list):
        del front._queue[:]
    if isinstance(getattr(front, "_x0s", None), dict):
        front._x0s.clear()
        front._x0s[None] = None
    np.random.seed(0)


def _on_prof(signum, frame):
    raise CaseTimeout()


def _from_sut(tb):
    for fr in traceback.extract_tb(tb):
        if os.path.abspath(fr.filename).startswith(os.path.join(os.path.abspath(REPO), "ahkab")):
            return True
    return False


class HarnessError(Exception):
    pass


def run_case(test, case, log=None):
    """Run one case.  Returns None when it holds, else a message.

    Raises Skip for out-of-domain cases, HarnessError for our own faults."""
    log = log if log is not None else Log()
    reset_sut()
    old = signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, test.cpu_s)
    try:
        test.check(case, log)
        return None
    except Violation as e:
        return str(e) or "violation"
    except Skip:
        raise
    except CaseTimeout:
        return "no result after %d s of CPU time" % test.cpu_s
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # SystemExit out of the simulator included
        import hypothesis.errors as he
        if isinstance(e, (he.HypothesisException, MemoryError, GeneratorExit)):
            raise
        tb = e.__traceback__
        text = "".join(traceback.format_exception(type(e), e, tb)[-6:])
        if _from_sut(tb) or not isinstance(e, (AttributeError, ImportError, NameError, SyntaxError)):
            return "unexpected %s: %s\n%s" % (type(e).__name__, e, text)
        raise HarnessError(text)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


# --------------------------------------------------------------------------
# worker: one shard of a property's tests

SHRINK_S = {"quick": 45, "thorough": 150}


def shard_seed(seed, pid, test, shard):
    h = hashlib.sha256(("%d/%s/%s/%d" % (seed, pid, test, shard)).encode()).digest()
    return int.from_bytes(h[:7], "big")


def worker(prop, tier, seed, shard, nshards, out, budget_s, only=None):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    load_sut()
    t0 = time.time()
    stats = {}
    res = {"shard": shard, "tests": stats, "violation": None, "error": None, "done": False}

    def save():
        tmp = out + ".tmp"
        with open(tmp, "w") as fp:
            json.dump(res, fp)
        os.replace(tmp, out)

    for ti, test in enumerate(prop.TESTS):
        if only and test.name not in only:
            continue
        total = test.quick if tier == "quick" else test.thorough
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        total = max(1, int(total * scale))
        n = total // nshards + (1 if shard < total % nshards else 0)
        if n == 0:
            continue
        st = stats[test.name] = {
            "run": 0, "skipped": 0, "excluded_known": 0, "over_budget": 0,
            "labels": {}, "hashes": [], "nontrivial": [], "samples": [], "wall_s": 0.0}
        best = {}
        first_fail = [None]
        seen = set()

        def body(case):
            if time.time() - t0 > budget_s and first_fail[0] is None:
                st["over_budget"] += 1
                return
            if first_fail[0] is not None and time.time() - first_fail[0] > SHRINK_S[tier]:
                # shrinking time is up: report the best case so far
                save()
                os._exit(0)
            k = test.known(case)
            if k is not None:
                st["excluded_known"] += 1
                return
            log = Log()
            try:
                msg = run_case(test, case, log)
            except Skip as e:
                st["skipped"] += 1
                lab = "skip:%s" % e
                st["labels"][lab] = st["labels"].get(lab, 0) + 1
                return
            if first_fail[0] is None:
                st["run"] += 1
                for lab in set(log.labels):
                    st["labels"][lab] = st["labels"].get(lab, 0) + 1
                h = digest(case)
                if h not in seen:
                    seen.add(h)
                    st["hashes"].append(h)
                    if test.nontrivial(case, set(log.labels)) and not log.trivial:
                        st["nontrivial"].append(h)
                        if len(st["samples"]) < 2 and st["run"] > 3:
                            st["samples"].append(case)
            if msg is not None:
                key = (len(canon(case)), canon(case))
                if not best or key < best["key"]:
                    best.update(key=key, case=case, msg=msg)
                    res["violation"] = {"test": test.name, "case": case, "message": msg,
                                        "seed": seed, "shard": shard}
                    save()
                if first_fail[0] is None:
                    first_fail[0] = time.time()
                raise Violation(msg.split("\n")[0][:80] if False else "violated")

        fn = given(test.gen)(body)
        fn = settings(max_examples=n, deadline=None, database=None, derandomize=False,
                      print_blob=False, report_multiple_bugs=False,
                      phases=(Phase.generate, Phase.shrink),
                      suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                             HealthCheck.large_base_example,
                                             HealthCheck.function_scoped_fixture])(fn)
        fn = hypothesis.seed(shard_seed(seed, prop.PID, test.name, shard))(fn)
        tt = time.time()
        try:
            fn()
        except (Violation, hypothesis.errors.FlakyFailure, hypothesis.errors.Flaky) as e:
            if not best:
                res["error"] = "flaky without a recorded case: %s" % e
                save()
                return
        except HarnessError as e:
            res["error"] = "harness error in %s: %s" % (test.name, e)
            save()
            return
        except BaseException as e:
            if not best:
                res["error"] = "%s in %s: %s" % (type(e).__name__, test.name, traceback.format_exc()[-3000:])
                save()
                return
        st["wall_s"] = round(time.time() - tt, 2)
        if best:
            break
    res["done"] = True
    save()
