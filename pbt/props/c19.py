"""C19: a circuit keeps its bookkeeping consistent through any edit history."""
import copy

import numpy as np
from hypothesis import strategies as st

from ..core import Test, Skip, fail, require
from .. import circ, canon
from . import c02

PID = "C19"
RULE = ("a case is non-trivial when its history removes at least one element and has at least three other edits; "
        "the histories whose removals leave a gap in the internal numbering are labelled")
ASSUMPTIONS = [
    "elements other elements refer to by name (controlling sources, coupled inductors) are not removed while they are referred to",
    "internal node numbers may be reassigned when get_nodes_number() or an analysis is called after a removal",
    "two elements of the same name are reported by has_duplicate_elem() and by the circuit check, not refused by the add_ methods",
]
NOISE = ["R", "C", "L", "V", "I", "E", "G", "F", "H", "K", "D", "M", "S"]


@st.composite
def history(draw):
    desc = draw(circ.linear_desc(max_nodes=5, max_extra=5))
    if draw(st.booleans()):
        desc = draw(c02.add_devices(desc, ["D", "M", "S"], 1, 2))
        # couplings follow their inductors, whatever the order drawn
        el = desc["elems"]
        desc = dict(desc, elems=[e for e in el if e["k"] != "K"] + [e for e in el if e["k"] == "K"])
    models = list(desc.get("models", []))
    real = list(desc["elems"])
    used = set(e["id"].upper() for e in real)
    names = ["0"] + circ.nodes_of(desc)
    extra = [n for n in ("x1", "x2", "INT0", "POINT", "aINTb", "9") if n not in names]
    ops = [("model", m) for m in models]
    mnames = {m["type"]: m["name"] for m in models}
    for t, nm, p in (("diode", "dx", {"IS": 1e-14}), ("sw", "sx", {"VT": .5}), ("mosq", "mx", {"TYPE": "n", "KP": 1e-4})):
        if t not in mnames:
            mnames[t] = nm
            ops.append(("model", {"type": t, "name": nm, "p": p}))
    nmod = len(ops)
    ops += [("add", e) for e in real]
    nodes = st.sampled_from(names + extra)
    # elements that come and go
    for _ in range(draw(st.integers(0, 6))):
        k = draw(st.sampled_from(NOISE))
        p = draw(st.integers(nmod, len(ops)))
        before = [o[1] for o in ops[:p] if o[0] == "add"]
        gone = [o[1].upper() for o in ops[:p] if o[0] == "del"]
        alive = [e for e in before if e["id"].upper() not in gone]
        e = {"k": k, "id": None}
        if k in "FH":
            vs = [x["id"] for x in alive if x["k"] == "V" and x in real]
            if not vs:
                continue
            e["src"] = draw(st.sampled_from(vs))
        if k == "K":
            ls = [x["id"] for x in alive if x["k"] == "L" and x in real]
            if len(ls) < 2:
                continue
            e["l"] = draw(st.permutations(ls))[:2]
        else:
            e["n"] = [draw(nodes) for _ in range(4 if k in "EGMS" else 2)]
        e["id"] = circ.ident(draw, k, used)
        if k == "D":
            e["m"] = mnames["diode"]
        elif k == "M":
            e["m"], e["w"], e["l"] = mnames["mosq"], 1e-6, 1e-6
        elif k == "S":
            e["m"] = mnames["sw"]
        elif k in "VI":
            e["dc"] = 1.0
        else:
            e["v"] = .05 if k == "K" else draw(st.sampled_from([1.0, 2.0, 50.0]))
        q = draw(st.integers(p, len(ops)))
        ops[q:q] = [("del", e["id"])]
        ops[p:p] = [("add", e)]
    # elements of the final circuit taken out and put back
    refd = set()
    for o in ops:
        if o[0] == "add":
            refd.update(x.upper() for x in [o[1].get("src", "")] + (list(o[1]["l"]) if o[1]["k"] == "K" else []) if isinstance(x, str))
    free = [e for e in real if e["id"].upper() not in refd]
    for e in draw(st.lists(st.sampled_from(free), max_size=3, unique_by=lambda x: x["id"])) if free else []:
        i = [j for j, o in enumerate(ops) if o[0] == "add" and o[1] is e][0]
        p = draw(st.integers(i + 1, len(ops)))
        ops[p:p] = [("del", e["id"])]
        q = draw(st.integers(p + 1, len(ops)))
        ops[q:q] = [("add", dict(e))]
    # edits that are refused, look-ups, nodes on their own
    for _ in range(draw(st.integers(0, 6))):
        k = draw(st.sampled_from(["r0", "c0", "nomodel", "noind", "nonode", "dupnode", "delunknown", "delgone", "node", "addnode",
                                  "intnode", "assemble", "assemble", "count", "rmmodel", "badmodel", "dup"]))
        p = draw(st.integers(nmod, len(ops)))
        ops[p:p] = [(k, draw(st.integers(0, 7)), draw(nodes), draw(nodes))]
    return {"ops": [list(o) for o in ops], "case": draw(st.sampled_from(["same", "upper", "lower"])),
            "how": draw(st.sampled_from(["name", "object"]))}


class Model(object):
    """what the circuit should hold"""

    def __init__(self):
        self.elems = []
        self.nodes = set()
        self.models = {}

    def elem_nodes(self, e):
        return set(e.get("n", []))

    def add(self, e):
        self.elems.append(e)
        self.nodes |= self.elem_nodes(e)

    def remove(self, i):
        e = self.elems.pop(i)
        needed = {"0"}
        for x in self.elems:
            needed |= self.elem_nodes(x)
        self.nodes -= self.elem_nodes(e) - needed

    def desc(self):
        return {"elems": self.elems, "models": list(self.models.values())}


def assembled(c):
    """the equations by names: {row: {column: value}} for G and C, {row: value} for b"""
    a = circ.sut()
    G, N = a.dc_analysis.generate_mna_and_N(c, verbose=0)
    D = a.transient.generate_D(c, (G.shape[0] - 1, G.shape[0] - 1))
    nn = c.get_nodes_number()
    lab = [("v", c.nodes_dict[i]) for i in range(nn)]
    lab += [("i", e.part_id.upper()) for e in c if a.circuit.is_elem_voltage_defined(e)]
    require(len(lab) == G.shape[0], "%d unknowns for a matrix of size %d", len(lab), G.shape[0])
    out = {}
    for i, x in enumerate(lab):
        for j, y in enumerate(lab):
            if G[i, j] or D[i, j]:
                out[x, y] = (G[i, j], D[i, j])
        if N[i, 0]:
            out[x] = (N[i, 0],)
    return out, lab


def check_equations(c, m, what):
    direct = circ.build(m.desc())
    for n in sorted(m.nodes):
        direct.add_node(n)
    got, glab = assembled(c)
    want, wlab = assembled(direct)
    require(set(glab) == set(wlab), "%sthe unknowns are %s, expected %s", what, glab, wlab)
    for k in set(got) | set(want):
        g, w = got.get(k, (0, 0)), want.get(k, (0, 0))
        # cancelled entries keep what the order of the sums leaves
        for x, y in zip(g, w):
            if not abs(x - y) <= 1e-9 * max(abs(x), abs(y)) + 1e-13 * 50:
                fail("%sthe equation term %s is %r, expected %r", what, k, g, w)
    return direct


def invariants(c, m, what, log):
    a = circ.sut()
    ids = [e.part_id for e in c]
    require(ids == [e["id"] for e in m.elems], "%sthe elements are %s, expected %s", what, ids, [e["id"] for e in m.elems])
    ints = {k: v for k, v in c.nodes_dict.items() if isinstance(k, int)}
    exts = {k: v for k, v in c.nodes_dict.items() if not isinstance(k, int)}
    require(set(exts) == m.nodes, "%sthe nodes are %s, expected %s", what, sorted(exts), sorted(m.nodes))
    require(len(ints) == len(exts) and all(ints.get(v) == k for k, v in exts.items()),
            "%snames and numbers of the nodes do not correspond: %s, %s", what, ints, exts)
    require(("0" in exts) == (0 in ints) and exts.get("0", 0) == 0, "%sthe ground node is number %s", what, exts.get("0"))
    require(all(k >= 0 for k in ints), "%snegative node numbers: %s", what, ints)
    if ints and max(ints) >= len(ints) + (0 not in ints):
        log.label("gap in the numbering")
    for e, d in zip(c, m.elems):
        if d["k"] == "K":
            continue
        attrs = {"E": ("n1", "n2", "sn1", "sn2"), "G": ("n1", "n2", "sn1", "sn2"), "S": ("n1", "n2", "sn1", "sn2"),
                 "M": ("n1", "ng", "n2", "nb")}.get(d["k"], ("n1", "n2"))
        got = [c.int_node_to_ext(getattr(e, x)) for x in attrs]
        require(got == d["n"], "%s%s joins the nodes %s, expected %s", what, d["id"], got, d["n"])
        if e.is_nonlinear:
            pn = set(c.int_node_to_ext(x) for p in e.get_drive_ports(0) for x in p)
            require(pn <= set(d["n"]), "%s%s is driven by the nodes %s, it joins %s", what, d["id"], sorted(pn), d["n"])
        if d["k"] == "L":
            ks = sorted(x.part_id for x in e.coupling_devices)
            wk = sorted(x["id"] for x in m.elems if x["k"] == "K" and d["id"] in x["l"])
            require(ks == wk, "%s%s is coupled through %s, expected %s", what, d["id"], ks, wk)
    vde = [d["id"] for d in m.elems if d["k"] in "VEHL"]
    for i, d in enumerate(vde):
        for nm in (d, d.lower(), d.upper()):
            r = c.find_vde_index(nm, verbose=0)
            require(r == i, "%sthe current of %s has index %d, expected %d", what, d, r, i)
        e = c.find_vde(len(m.nodes) - 1 + i)
        require(e.part_id == d, "%sthe current number %d is of %s, expected %s", what, i, e.part_id, d)
    for d in m.elems:
        if d["k"] not in "VEHL":
            try:
                r = c.find_vde_index(d["id"], verbose=0)
            except ValueError:
                continue
            fail("%s%s has the branch current index %r", what, d["id"], r)
    for d in m.elems:
        e = c.get_elem_by_name(d["id"].swapcase())
        require(e.part_id == d["id"], "%slooking up %s gives %s", what, d["id"].swapcase(), e.part_id)
    require(c.is_nonlinear() == any(d["k"] in "DMS" for d in m.elems), "%sis_nonlinear() is %s", what, c.is_nonlinear())
    require(not c.has_duplicate_elem(), "%shas_duplicate_elem() without duplicates", what)
    require(set(c.models) == set(m.models), "%sthe models are %s, expected %s", what, sorted(c.models), sorted(m.models))


def refused(f, exc, what):
    try:
        f()
    except exc:
        return
    fail("%s was not refused", what)


def check_history(case, log):
    a = circ.sut()
    E = a.circuit
    c = a.Circuit("history")
    m = Model()
    gone = []
    removed = edits = 0
    for step, op in enumerate(case["ops"]):
        k = op[0]
        what = "after %d edits, the last one %s: " % (step + 1, op)
        if k == "add":
            e = op[1]
            circ.add_elem(c, e)
            m.add(e)
            edits += 1
        elif k == "model":
            c.add_model(op[1]["type"], op[1]["name"], dict(op[1]["p"]))
            m.models[op[1]["name"]] = op[1]
        elif k == "del":
            i = [j for j, e in enumerate(m.elems) if e["id"] == op[1]][0]
            if case["how"] == "object":
                c.remove_elem(c[i])
            else:
                c.remove_elem({"same": op[1], "upper": op[1].upper(), "lower": op[1].lower()}[case["case"]])
            gone.append(op[1])
            m.remove(i)
            removed += 1
        elif k == "r0":
            refused(lambda: c.add_resistor("Rz", op[2], op[3], 0), E.CircuitError, "a resistor of 0 ohm")
        elif k == "c0":
            refused(lambda: c.add_capacitor("Cz", op[2], op[3], 0.0), E.CircuitError, "a capacitor of 0 F")
        elif k == "nomodel":
            j = op[1] % 3
            f = [lambda: c.add_diode("Dz", op[2], op[3], "nosuch"),
                 lambda: c.add_mos("Mz", op[2], op[3], "q1", "q2", 1e-6, 1e-6, "nosuch"),
                 lambda: c.add_switch("Sz", op[2], op[3], "q1", "q2", False, "nosuch")][j]
            refused(f, E.ModelError, "a device of an unknown model")
        elif k == "noind":
            ls = [e["id"] for e in m.elems if e["k"] == "L"] or ["L77"]
            refused(lambda: c.add_inductor_coupling("Kz", ls[op[1] % len(ls)], "Lnone", .1), ValueError, "a coupling to an unknown inductor")
        elif k == "nonode":
            bad = [None, 3, 2.5, ["a"]][op[1] % 4]
            refused(lambda: c.add_node(bad), TypeError, "the node %r" % (bad,))
            refused(lambda: c.create_node(bad), TypeError, "the node %r" % (bad,))
        elif k == "dupnode":
            for nm in sorted(m.nodes):
                refused(lambda: c.create_node(nm), ValueError, "creating the existing node " + nm)
        elif k == "delunknown":
            refused(lambda: c.remove_elem("Rnone"), ValueError, "removing an unknown element")
            refused(lambda: c.get_elem_by_name("Rnone"), ValueError, "looking up an unknown element")
            refused(lambda: c.find_vde_index("Vnone", verbose=0), ValueError, "the current of an unknown element")
        elif k == "delgone":
            alive = [e["id"].upper() for e in m.elems]
            for nm in gone:
                if nm.upper() not in alive:
                    refused(lambda: c.remove_elem(nm), ValueError, "removing the element %s a second time" % nm)
        elif k == "node":
            if op[2] not in m.nodes:
                r = c.create_node(op[2])
                require(r == op[2], "%screate_node returned %r", what, r)
                m.nodes.add(op[2])
        elif k == "addnode":
            r = c.add_node(op[2])
            m.nodes.add(op[2])
            require(r == c.nodes_dict[op[2]] == c.add_node(op[2]), "%sadd_node returned %r", what, r)
        elif k == "intnode":
            r = c.new_internal_node()
            require(r not in m.nodes, "%sthe new internal node %s exists", what, r)
            m.nodes.add(r)
            require(c.is_int_node_internal_only(c.ext_node_to_int(r)), "%s%s is not internal only", what, r)
            for n in m.nodes:
                if not n.startswith("INT"):
                    require(not c.is_int_node_internal_only(c.ext_node_to_int(n)), "%s%s is internal only", what, n)
        elif k == "count":
            r = c.get_nodes_number()
            require(r == len(m.nodes), "%sget_nodes_number() is %r, expected %d", what, r, len(m.nodes))
        elif k == "rmmodel":
            c.remove_model("nosuch")
            used = set(e.get("m") for o in case["ops"][step:] if o[0] == "add" for e in [o[1]])
            for nm in list(m.models):
                if nm not in used and not any(e.get("m") == nm for e in m.elems):
                    c.remove_model(nm)
                    del m.models[nm]
                    if not any(o[0] == "add" and o[1].get("m") == nm for o in case["ops"][step:]):
                        refused(lambda: c.add_diode("Dz", "q1", "q2", nm), E.ModelError, "a device of the removed model " + nm)
                    break
        elif k == "badmodel":
            refused(lambda: c.add_model("bsim", "zz", {}), E.CircuitError, "a model of unknown type")
        elif k == "dup":
            if m.elems and not any(e["k"] == "K" for e in m.elems):
                e = m.elems[op[1] % len(m.elems)]
                n = set(m.nodes)
                c.add_resistor(e["id"], op[2], op[3], 1.0)
                require(c.has_duplicate_elem(), "%stwo elements %s, has_duplicate_elem() is False", what, e["id"])
                # by object: the one that was added, not the other one of that name
                c.remove_elem(c[-1])
                need = {"0"}
                for x in m.elems:
                    need |= set(x.get("n", []))
                m.nodes |= {"0"} & {op[2], op[3]}
                m.nodes -= {op[2], op[3]} - need
        elif k == "assemble":
            have = [e["id"] for e in m.elems]
            if "0" in m.nodes and all(e["src"] in have for e in m.elems if "src" in e):
                check_equations(c, m, what)
        invariants(c, m, what, log)
    direct = check_equations(c, m, "at the end: ")
    want = canon.account(direct)
    canon.same(canon.account(c), want, what="at the end: ")
    require(a.utilities.check_circuit(c)[0] == (len(m.elems) >= 2 and len(m.nodes) >= 2), "the circuit check says %s", a.utilities.check_circuit(c))
    desc = m.desc()
    if not any(e["k"] in "DMS" for e in m.elems) and set(circ.nodes_of(desc)) | {"0"} == m.nodes:
        ref = circ.Ref(desc)
        b = ref.b(lambda e: e["dc"])
        if circ.cond_scaled(ref.G) < 1e8:
            x = circ.ref_solve(ref.G, b)
            sol = a.run(c, a.new_op(verbose=0))["op"]
            require(sol is not None, "no operating point was found for a circuit with a unique solution")
            circ.check_unknown_set(sol.keys(), ref)
            circ.compare(ref, sol, x, ref.G, b)
            log.label("solved")
    log.label("removals:%d" % min(removed, 5))
    if not (removed and edits >= 4):
        log.trivial = True


TESTS = [
    Test("history", history(), check_history, 2400, 40000),
]
