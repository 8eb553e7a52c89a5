"""Priors: C07, C08, C09."""
import math
import numpy as np
import BayesicFitting as bf
from vlib import num, vec, h as H
import random

KINDS = ["Uniform", "CircularUniform", "Jeffreys", "Exponential", "Laplace", "Gauss", "Cauchy"]
CENTERED = ["Laplace", "Gauss", "Cauchy"]
XS = [-3.0, -1.2, -0.3, 0.0, 0.2, 0.75, 1.0, 1.3, 2.1, 2.9, 3.7, 6.0]
US = [0.0, 0.01, 0.2, 0.45, 0.5, 0.71, 0.97, 1.0]


def fl(v):
    return None if v == "none" else float(v)


def make(e):
    k, lo, hi = e["kind"], fl(e["lo"]), fl(e["hi"])
    lim = None if lo is None and hi is None else [lo, hi]
    kw = {}
    if k in CENTERED:
        kw = dict(center=float(e["c"]), scale=float(e["s"]))
    if k == "Exponential":
        return bf.ExponentialPrior(scale=float(e["s"]), hilimit=hi)
    if k == "CircularUniform":
        return bf.CircularUniformPrior(limits=lim)
    if e["circ"] == "yes":
        kw["circular"] = True
    elif e["circ"] != "no":
        kw["circular"] = float(e["circ"])
    return getattr(bf, k + "Prior")(limits=lim, **kw)


def exc(fn):
    try:
        fn()
        return ""
    except Exception as x:
        return type(x).__name__


def view(i, p, rng):
    def get(name):
        try:
            return num(getattr(p, name))
        except AttributeError:
            return "none"
    lo, hi = float(p.lowLimit), float(p.highLimit)
    bound = bool(p.isBound())
    v = {"h": i, "lo": num(lo), "hi": num(hi), "lim": vec(p.getLimits()), "rng": num(p.getRange()),
         "has": [bool(p.hasLowLimit()), bool(p.hasHighLimit()), bool(p.hasLimits())], "circ": bool(p.isCircular()),
         "period": num(hi - lo if p.circular is True else p.circular), "bound": bound, "c": get("center"), "s": get("scale"),
         "int": num(p.getIntegral()) if bound else "none", "rexc": exc(lambda: p.result(0.5)), "at": [], "un": []}
    if v["c"] == "none" and v["s"] != "none":
        v["c"] = "0"
    dom = 0.0 if isinstance(p, (bf.JeffreysPrior, bf.ExponentialPrior)) else -math.inf
    xs = XS + [rng.uniform(-2.5, 4) for _ in range(3)]
    xs += [t for t in (lo, hi) if math.isfinite(t)]
    xs = [x for x in xs if x >= dom and not (isinstance(p, bf.JeffreysPrior) and x == 0)]
    us = US + [rng.random() for _ in range(3)]
    rs = np.asarray(p.result(np.array(xs))) if bound else None
    ins = np.array([x for x in xs if not p.isOutOfLimits(x)])
    uvs = dict(zip(ins.tolist(), np.asarray(p.domain2Unit(ins)).tolist())) if bound and len(ins) > 1 else {}
    for k, x in enumerate(xs):
        a = {"x": num(x), "out": bool(p.isOutOfLimits(x)), "stay": num(p.stayInLimits(x)), "check": exc(lambda: p.checkLimit(x)),
             "r": "0", "rv": "0", "lr": "0", "pl": "0", "u": "0", "uv": "0", "xx": "0"}
        if bound:
            a["r"] = num(p.result(x))
            a["rv"] = num(rs[k])
            a["lr"] = num(p.logResult(x))
            if not a["out"]:
                a["pl"] = num(p.partialLog(x))
                u = p.domain2Unit(x)
                a["u"] = num(u)
                a["uv"] = num(uvs.get(x, u))
                a["xx"] = num(p.unit2Domain(u))
        v["at"].append(a)
    if bound:
        ds = np.asarray(p.unit2Domain(np.array(us)))
        for k, u in enumerate(us):
            v["un"].append({"u": num(u), "d": num(p.unit2Domain(u)), "dv": num(ds[k])})
    return v


def run(sc):
    rng = random.Random(sc["seed"])
    heap, evs = {}, []
    for e in sc["acts"]:
        e = dict(e)
        op, i = e["op"], e["h"]
        if op != "new" and e.get("a", i) not in heap:
            break
        try:
            e["exc"] = ""
            if op == "new":
                heap[i] = make(e)
            elif op == "limits":
                lo, hi = fl(e["lo"]), fl(e["hi"])
                if e.get("how") == "attr":
                    heap[i].setAttributes(limits=[lo, hi])
                else:
                    heap[i].setLimits(None if lo is None and hi is None else np.array([lo, hi]) if e.get("how") == "np" else [lo, hi])
            elif op == "unset":
                heap[i].unsetLimits()
            elif op == "scale":
                if e.get("how") == "attr":
                    heap[i].setAttributes(scale=float(e["s"]))
                else:
                    heap[i].scale = float(e["s"])
            elif op == "center":
                heap[i].center = float(e["c"])
            elif op == "copy":
                heap[i] = heap[e["a"]].copy()
        except ValueError:
            e["exc"] = "ValueError"
        except Exception as x:
            e["exc"] = type(x).__name__ + ": " + str(x)[:100]
        last = e is sc["acts"][-1]
        e["views"] = [view(k, p, rng) for k, p in sorted(heap.items())]
        evs.append(e)
        if e["exc"] not in ("", "ValueError"):
            break
    return evs


def lims(rng, kind, one=True):
    lo = rng.choice([0.1, 0.5, 0.01, 1.0]) if kind in ("Jeffreys", "Exponential") else round(rng.uniform(-3, 1), 2)
    hi = round(lo + rng.choice([0.5, 1.3, 2.0, 5.0]), 2)
    if kind == "Exponential" and rng.random() < .4:
        lo = 0.0
    r = rng.random()
    if one and r < .12:
        return num(lo), "none"
    if one and r < .24:
        return "none", num(hi)
    if one and r < .3:
        return num(hi), num(lo)
    if r < .35 and kind not in ("Jeffreys",):
        return num(0.0), num(hi + 2)
    return num(lo), num(hi)


def random_history(seed):
    rng = random.Random(H("priors", seed))
    acts, kinds, circ = [], {}, {}
    n = rng.randint(3, 9)
    while len(acts) < n:
        i = len(kinds) + 1
        op = rng.choice(["new", "limits", "limits", "limits", "unset", "none", "scale", "center", "copy"])
        if not kinds or (op == "new" and len(kinds) < 3):
            k = rng.choice(KINDS)
            c = num(rng.choice([0.0, 0.75, -1.2])) if k in CENTERED else "0"
            s = num(rng.choice([0.5, 1.0, 2.5])) if k in CENTERED + ["Exponential"] else "1"
            lo, hi = ("none", "none") if rng.random() < .4 else lims(rng, k)
            ci = "no"
            if k == "Exponential":
                lo, hi = "0", rng.choice(["inf", "2.5"])
            elif k in CENTERED + ["Uniform"]:
                r = rng.random()
                if r < .2:
                    ci, lo, hi = num(rng.choice([1.0, 3.5, 4.0])), "none", "none"
                elif r < .5:
                    a = round(rng.uniform(-2, 1), 2)
                    ci, lo, hi = "yes", num(a), num(a + rng.choice([1.0, 2.5, 4.0]))
            elif k == "CircularUniform":
                a = round(rng.uniform(-2, 1), 2)
                lo, hi = ("none", "none") if rng.random() < .3 else (num(a), num(a + 2.5))
                ci = "yes"
            acts.append({"op": "new", "h": i, "kind": k, "c": c, "s": s, "lo": lo, "hi": hi, "circ": ci})
            kinds[i], circ[i] = k, ci != "no"
            continue
        a = rng.choice(list(kinds))
        k = kinds[a]
        if op == "limits":
            lo, hi = lims(rng, k)
            acts.append({"op": "limits", "h": a, "lo": lo, "hi": hi, "how": rng.choice(["list", "np", "attr"]) if "none" not in (lo, hi) else "list"})
        elif op == "none":
            acts.append({"op": "limits", "h": a, "lo": "none", "hi": "none"})
        elif op == "unset":
            acts.append({"op": "unset", "h": a})
        elif op == "scale" and k in CENTERED + ["Exponential"]:
            acts.append({"op": "scale", "h": a, "s": num(rng.choice([0.4, 1.0, 3.0, 0.0, -1.0])), "how": rng.choice(["", "attr"])})
        elif op == "center" and k in CENTERED and not circ[a]:
            acts.append({"op": "center", "h": a, "c": num(rng.choice([-1.0, 0.3]))})
        elif op == "copy" and len(kinds) < 4:
            acts.append({"op": "copy", "h": i, "a": a})
            kinds[i], circ[i] = k, circ[a]
    return {"seed": seed, "acts": acts}


def check(ctx):
    gen = ctx.mc("MC_Priors", "MC_Priors%d.cfg" % ctx.pick(3, 4))
    ctx.rng.shuffle(gen)
    scens = [{"seed": H(ctx.seed, k), "acts": a} for k, a in enumerate(gen[:ctx.pick(900, 12000)])]
    scens += [random_history("%d-%d" % (ctx.seed, k)) for k in range(ctx.pick(300, 3000))]
    ctx.validate("Tr_Priors", ctx.drive(run, scens))
    ctx.assumptions += ["limits leave more than 1e-3 of the distribution", "the density is read between the limits; at an edge of a circular domain the two edges are the same point"]


CHECKS = {"C07": check, "C08": check, "C09": check}
