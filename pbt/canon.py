"""A comparable account of an ahkab circuit: its elements with the nodes they
join and what they do (values, waveforms, device currents at sample biases)."""
import math

import numpy as np

from .core import fail, require

TIMES = [0.0] + [t * 1.0137012931 for t in (1e-9, 3.1e-8, 2.2e-7, 1.7e-6, 1e-5, 2.3e-5, 7.3e-5, 4.1e-4, 1.3e-3, 2.9e-2)]
# bias points of nonlinear devices, in volts per port
BIAS = [(0.0, 0.0, 0.0), (.3, .1, 0.0), (.55, 1.2, -.2), (-.4, .8, .05), (1.5, 2.5, -.5), (-1.1, -2.0, .3), (.65, -.9, -.1)]


def _num(x):
    return None if x is None else float(x)


def describe(elem, node):
    """the account of one element; `node` maps internal nodes to labels"""
    d = {"class": type(elem).__name__, "id": elem.part_id}
    cls = d["class"]
    if cls == "InductorCoupling":
        d["L"] = [elem.L1, elem.L2]
        d["K"], d["M"] = _num(elem.K), _num(elem.M)
        return d
    d["n"] = [node(elem.n1), node(elem.n2)]
    for a in ("sn1", "sn2", "ng", "nb"):
        if hasattr(elem, a):
            d[a] = node(getattr(elem, a))
    if hasattr(elem, "source_id"):
        d["source"] = elem.source_id
    if cls in ("Resistor", "Capacitor", "Inductor"):
        d["value"] = _num(elem.value)
        if cls != "Resistor":
            d["ic"] = _num(elem.ic)
        if cls == "Inductor":
            d["coupled"] = sorted(k.part_id for k in elem.coupling_devices)
    elif cls in ("EVSource", "GISource", "FISource", "HVSource"):
        d["value"] = _num(elem.alpha)
    elif cls in ("VSource", "ISource"):
        d["dc"] = _num(elem.dc_value)
        mag = elem.abs_ac or 0
        d["ac"] = complex(mag * np.exp(1j * elem.arg_ac)) if mag else 0.0
        f = elem.V if cls == "VSource" else elem.I
        d["timedependent"] = bool(elem.is_timedependent)
        if elem.is_timedependent:
            d["wave"] = [float(f(t)) for t in TIMES]
    else:
        d["model"] = (elem.model if hasattr(elem, "model") else getattr(elem, "ekv_model", None) or elem.mosq_model).name
        if hasattr(elem, "ic") and cls != "switch_device":
            d["ic"] = _num(elem.ic)
        if cls == "diode":
            d["off"] = bool(elem.off)
        vals = []
        for b in BIAS:
            nports = len(elem.get_drive_ports(0))
            v = tuple(np.float64(x) for x in b[:nports])
            try:
                if hasattr(elem, "i"):
                    vals.append(float(np.asarray(elem.i(0, v)).reshape(-1)[0]))
                else:
                    vals += [float(x) for x in np.asarray(elem.istamp(v, 0)[1]).reshape(-1)]
            except (OverflowError, ValueError):
                vals.append(None)
        d["i"] = vals
    return d


def account(c, rename=None):
    rename = rename or (lambda x: x)
    return [describe(e, lambda n: rename(c.nodes_dict[n])) for e in c]


def close(a, b, rtol):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, rtol) for x, y in zip(a, b))
    if isinstance(a, (str, bool, type(None))) or isinstance(b, (str, bool, type(None))):
        return a == b
    if a == b:
        return True
    if isinstance(a, complex) or isinstance(b, complex):
        return abs(a - b) <= 10 * rtol * abs(a)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= rtol * max(abs(a), abs(b))


def same(got, want, rtol=1e-12, soft=("i", "wave"), what="", skip=()):
    """got and want: accounts; soft: fields evaluated through functions of the values"""
    require([d["id"] for d in got] == [d["id"] for d in want], "%sthe elements are %s, expected %s", what,
            [d["id"] for d in got], [d["id"] for d in want])
    for g, w in zip(got, want):
        require(set(g) - set(skip) == set(w) - set(skip), "%s%s: has %s, expected %s", what, g["id"], sorted(g), sorted(w))
        for k in w:
            if k in skip:
                continue
            if k == "wave":
                # the phase of a waveform at late times magnifies the rounding of a value
                s = max([abs(x) for x in w[k]] + [1e-300])
                ok = all(abs(a - b) <= 1e-7 * s for a, b in zip(g[k], w[k])) and len(g[k]) == len(w[k])
            elif k == "i":
                ok = len(g[k]) == len(w[k]) and all(
                    (a is None) == (b is None) and (a is None or abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-25)
                    for a, b in zip(g[k], w[k]))
            else:
                ok = close(g[k], w[k], rtol)
            if not ok:
                fail("%s%s: %s is %r, expected %r", what, g["id"], k, g[k], w[k])
