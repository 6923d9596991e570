"""C17: result files load back to the data, with selection, range and appending."""
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Test, Skip, fail, require
from .. import nl

PID = "C17"
RULE = "a case is non-trivial when the file has at least two samples of at least two variables, or was appended to"
ASSUMPTIONS = [
    "values are written with 19 significant digits, so that they load back exactly",
    "variable names have neither the separator nor line ends in them and do not begin with the comment sign",
]

NAMES = ["T", "f", "V1", "Vout", "VN_1", "I(V1)", "I(L3)", "|V1|", "arg(V1)", "Re(p0)", "Im(p0)", "v(a b)", "x,y", "V%1", "p10", "long" * 20]
VALS = st.one_of(st.floats(allow_nan=False, allow_infinity=False), st.sampled_from([0.0, -0.0, 1.0, -1e-300, 5e-324, 1e300, 1 / 3.0, 1e22]),
                 st.integers(-1000, 1000).map(float), st.sampled_from([float("inf"), float("-inf"), float("nan")]))


@st.composite
def case(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=6, unique_by=lambda s: s.lower()))
    blocks = []
    for _ in range(draw(st.integers(1, 4))):
        n = draw(st.integers(1, 6))
        blocks.append([[draw(VALS) for _ in range(n)] for _ in names])
    reads = []
    total = sum(len(b[0]) for b in blocks)
    for _ in range(draw(st.integers(1, 5))):
        labels = draw(st.one_of(st.none(), st.just([]), st.lists(st.sampled_from(names), min_size=1, max_size=5)))
        if labels:
            labels = [draw(st.sampled_from([x, x, x.upper(), x.lower(), x.swapcase()])) for x in labels]
        reads.append({"after": draw(st.integers(1, len(blocks))), "labels": labels,
                      "skip": draw(st.sampled_from([0, 0, 1, 2, 3, total - 1, total])),
                      "n": draw(st.sampled_from([None, None, 1, 2, 3, 5, total, total + 3]))})
    return {"names": names, "blocks": blocks, "reads": reads, "old": draw(st.booleans()),
            "missing": draw(st.booleans())}


def same(a, b):
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))


def check(case, log):
    from ahkab import csvlib
    names = case["names"]
    with nl.Scratch() as tmp:
        f = tmp.path("data.csv")
        if case["old"]:
            # an older file of that name is replaced
            csvlib.write_csv(f, np.ones((2, 3)), ["old", "older"])
        data = np.zeros((len(names), 0))
        for k, b in enumerate(case["blocks"]):
            B = np.array(b, dtype=float)
            csvlib.write_csv(f, B, list(names), append=k > 0)
            data = np.concatenate((data, B), axis=1)
            require(csvlib.get_headers(f) == names, "get_headers() gives %r, written were %r", csvlib.get_headers(f), names)
            for r in case["reads"]:
                if r["after"] != k + 1:
                    continue
                read(csvlib, f, names, data, r, log)
        if case["missing"]:
            try:
                csvlib.load_csv(f, load_headers=[names[0], "no such name"], verbose=0)
            except ValueError:
                pass
            else:
                fail("loading a variable that is not on file did not raise")
        # the whole file by pieces
        step = 1 + len(case["reads"]) % 3
        pos, got = 0, np.zeros((len(names), 0))
        for _ in range(data.shape[1] + 2):
            d, h, p, eof = csvlib.load_csv(f, nsamples=step, skip=pos, verbose=0)
            got = np.concatenate((got, d), axis=1)
            require(p == pos + d.shape[1], "after %d samples from %d the position is %d", d.shape[1], pos, p)
            pos = p
            if eof:
                break
        require(eof and same(got, data), "reading %d samples at a time gives %r, written was %r", step, got, data)
    if len(case["blocks"]) > 1:
        log.label("appended")
    log.trivial = not (len(case["blocks"]) > 1 or (len(names) > 1 and data.shape[1] > 1))


def read(csvlib, f, names, data, r, log):
    tot = data.shape[1]
    skip = r["skip"]
    if skip >= tot:
        skip = tot - 1
    kw = {}
    if r["labels"] is not None:
        kw["load_headers"] = list(r["labels"])
    if r["n"] is not None:
        kw["nsamples"] = r["n"]
    d, h, pos, eof = csvlib.load_csv(f, skip=skip, verbose=0, **kw)
    low = [x.lower() for x in names]
    rows = [low.index(x.lower()) for x in r["labels"]] if r["labels"] else list(range(len(names)))
    n = tot - skip if r["n"] is None else min(r["n"], tot - skip)
    want = data[rows][:, skip:skip + n]
    what = "load_csv(%r, skip=%d)" % (kw, skip)
    require(isinstance(d, np.ndarray) and same(d, want), "%s gives %r, written was %r", what, d, want)
    require(list(h) == [names[i] for i in rows], "%s gives the names %r", what, h)
    require(pos == skip + n, "%s ends at sample %r, it is %d", what, pos, skip + n)
    require(bool(eof) == (skip + n == tot), "%s: EOF is %r with %d of %d samples read", what, eof, skip + n, tot)
    log.label("labels" if r["labels"] else "all", "skip" if skip else "from-0", "n" if r["n"] else "to-end")


@st.composite
def header_case(draw):
    return {"names": draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=6, unique_by=lambda s: s.lower())),
            "want": draw(st.lists(st.sampled_from(NAMES), max_size=5)), "write": draw(st.booleans()),
            "data": [draw(VALS) for _ in range(4)]}


def check_headers(case, log):
    from ahkab import csvlib
    names = case["names"]
    low = [x.lower() for x in names]
    his = csvlib.get_headers_index(names, case["want"], verbose=0)
    want = [low.index(x.lower()) for x in case["want"] if x.lower() in low] if case["want"] else list(range(len(names)))
    require(his == want, "get_headers_index(%r, %r) is %r", names, case["want"], his)
    if case["write"]:
        with nl.Scratch() as tmp:
            f = tmp.path("h.csv")
            given = list(names)
            csvlib.write_headers(f, given)
            require(given == names, "write_headers() changed its argument into %r", given)
            require(csvlib.get_headers(f) == names, "headers written %r, read %r", names, csvlib.get_headers(f))
            B = np.array([case["data"]] * len(names))
            csvlib.write_csv(f, B, names, append=True)
            d, h, pos, eof = csvlib.load_csv(f, verbose=0)
            require(same(d, B) and h == names, "after write_headers and an append, loaded is %r, %r", h, d)
    log.trivial = len(names) < 2


TESTS = [
    Test("write_and_load", case(), check, 1600, 30000),
    Test("headers", header_case(), check_headers, 500, 8000),
]
