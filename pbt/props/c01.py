"""C01: the DC operating point of a linear circuit is the solution of its equations."""
import numpy as np
from hypothesis import strategies as st

from ..core import Test, Skip, fail, require
from .. import circ

PID = "C01"
TITLE = "Linear DC operating point solves the circuit equations"
RULE = ""


def dc_value(e):
    """documented DC value of a source: the explicit one, or the t=0 value"""
    return e["dc"]


def run_op(c, **kw):
    a = circ.sut()
    return a.run(c, a.new_op(verbose=0, **kw))["op"]


def check_op(case, log):
    ref = circ.Ref(case)
    A = ref.G
    b = ref.b(dc_value)
    cond = circ.cond_scaled(A)
    if not cond < 1e8:
        raise Skip("ill-conditioned")
    x = circ.ref_solve(A, b)
    for k in circ.kinds(case):
        log.label("has:" + k)
    c = circ.build(case)
    sol = run_op(c)
    require(sol is not None, "no operating point was found for a circuit with a unique solution")
    circ.check_unknown_set(sol.keys(), ref)
    circ.compare(ref, sol, x, A, b)
    log.label("unknowns:%d" % ref.n)


TESTS = [
    Test("op_vs_reference", circ.linear_desc(), check_op, 4000, 60000,
         nontrivial=lambda c, l: len(c["elems"]) >= 3 and any(e["k"] in "VI" and e["dc"] for e in c["elems"])),
]
