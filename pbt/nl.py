"""Netlist text for circuit descriptions, following doc/help/Netlist-Syntax."""
import os
import shutil
import tempfile

from . import circ


def low(desc):
    """the description with the names a netlist gives (letter case is dropped)"""
    d = dict(desc)
    d["elems"] = []
    for e in desc["elems"]:
        e = dict(e)
        e["id"] = e["id"].lower()
        if "n" in e:
            e["n"] = [x.lower() for x in e["n"]]
        if "src" in e:
            e["src"] = e["src"].lower()
        if e["k"] == "K":
            e["l"] = [x.lower() for x in e["l"]]
        if "m" in e and e["k"] in "DMS":
            e["m"] = e["m"].lower()
        d["elems"].append(e)
    d["models"] = [dict(m, name=m["name"].lower()) for m in desc.get("models", [])]
    return d


def num(x):
    return repr(float(x))


FUN = {"sin": ["vo", "va", "freq", "td", "theta", "phi"], "exp": ["v1", "v2", "td1", "tau1", "td2", "tau2"],
       "pulse": ["v1", "v2", "td", "tr", "tf", "pw", "per"], "sffm": ["vo", "va", "fc", "mdi", "fs", "td"],
       "am": ["sa", "oc", "fm", "fc", "td"]}


def fun_text(f, current=False, positional=False, num=num):
    names = FUN[f["t"]]
    out = ["type=" + f["t"]]
    if positional and all(f.get(k) is not None for k in names[:len([1 for k in names if f.get(k) is not None])]):
        return out + [num(f[k]) for k in names if f.get(k) is not None]
    for k in names:
        if f.get(k) is None:
            continue
        lab = "phase" if k == "phi" else k
        if current and lab in ("vo", "va", "v1", "v2"):
            lab = "i" + lab[1:]
        out.append("%s=%s" % (lab, num(f[k])))
    return out


def elem_tokens(e, num=num, positional=False):
    k = e["k"]
    t = [e["id"]] + list(e.get("n", []))
    if k == "R":
        t.append(num(e["v"]))
    elif k in "CL":
        t.append(num(e["v"]))
        if e.get("ic") is not None:
            t.append("ic=" + num(e["ic"]))
    elif k == "K":
        t += list(e["l"]) + [("" if positional else "k=") + num(e["v"])]
    elif k in "VI":
        a = k.lower()
        if e.get("dc") is not None:
            t += ["type=%sdc" % a, "%sdc=%s" % (a, num(e["dc"]))]
        if e.get("ac") is not None:
            t += ["type=%sac" % a, "%sac=%s" % (a, num(e["ac"]))]
        if e.get("fn"):
            t += fun_text(e["fn"], k == "I", positional, num)
    elif k in "EG":
        t.append(num(e["v"]))
    elif k in "FH":
        t += [e["src"], num(e["v"])]
    elif k == "D":
        t.append(e["m"])
        if e.get("area") is not None:
            t.append("area=" + num(e["area"]))
        if e.get("T") is not None:
            t.append("t=" + num(e["T"]))
        if e.get("ic") is not None:
            t.append("ic=" + num(e["ic"]))
        if e.get("off") is not None:
            t.append("off=%d" % e["off"])
    elif k == "M":
        t += [e["m"], "w=" + num(e["w"]), "l=" + num(e["l"])]
        if e.get("mult") is not None:
            t.append("m=" + num(e["mult"]))
    elif k == "S":
        t.append(e["m"])
    else:
        raise ValueError(k)
    return t


def model_tokens(m, num=num):
    t = [".model", m["type"], m["name"]]
    for k, v in m["p"].items():
        t.append("%s=%s" % (k, v if isinstance(v, str) else num(v)))
    return t


def lines(desc):
    return [" ".join(model_tokens(m)) for m in desc.get("models", [])] + \
           [" ".join(elem_tokens(e)) for e in desc["elems"]]


class Scratch(object):
    """a scratch directory that is removed"""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="pbt-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, text):
        p = self.path(name)
        with open(p, "w") as fp:
            fp.write(text)
        return p
