"""Models that grow and shrink, and the engines for them: C26 - C29."""
import random
import numpy as np
import BayesicFitting as bf
from BayesicFitting.source.WalkerList import WalkerList
from vlib import num, vec, h as H
from areas import models as M
from areas.models import base, link, F, cpar, tpar
from areas.stats import r3, crash


def lims(pri):
    return [F(q["lo"]) for q in pri], [F(q["hi"]) for q in pri]


def build(m):
    """The real model of an entry of Dynamic.tla."""
    head = None
    for i, l in enumerate(m["ch"], 1):
        t = l["t"]
        if i == m["d"]:
            q = dyn(t, l["pri"], m)
        else:
            q = M.make(t)
            if l["pri"]:
                q.setLimits(*lims(l["pri"]))
        head = q if head is None else M.apply(head, l["op"], q)
    if m["p"]:
        head.parameters = [F(v) for v in m["p"]]
    return head


def dyn(t, pri, m):
    mn, mx = m["mn"], None if m["mx"] < 0 else m["mx"]
    if t["k"] == "rep":
        inner = M.chain(t["t"]["ch"]) if t["t"]["k"] == "br" else M.make(t["t"])
        if pri:
            inner.setLimits(*lims(pri))
        return bf.RepeatingModel(t["n"], inner, minComp=mn, maxComp=mx, same=t["same"] or None, dynamic=m["dyn"])
    c = t["c"]
    if t["z"] == "Polynomial":
        q = bf.PolynomialDynamicModel(c["deg"], minDegree=mn - 1, maxDegree=None if mx is None else mx - 1)
    elif t["z"] == "Harmonic":
        q = bf.HarmonicDynamicModel(c["deg"], minOrder=mn, maxOrder=mx, period=F(c["period"]))
    else:
        q = bf.SplinesDynamicModel(knots=[F(k) for k in c["knots"]], order=c["deg"], border=c["border"], minKnots=mn, maxKnots=mx,
                                   minDistance=F(m["frac"]))
    if pri:
        q.setLimits(*lims(pri))
    return q


class Rng:
    """Random numbers: those given, then those of a seed.  They are kept."""
    def __init__(self, seed, us=()):
        self.rs = np.random.RandomState(seed)
        self.us = list(us)
        self.kept = []

    def rand(self, *a):
        if a:
            return self.rs.rand(*a)
        v = self.us.pop(0) if self.us else round(self.rs.rand(), 6)
        self.kept.append(v)
        return v

    def __getattr__(self, name):
        return getattr(self.rs, name)


def kids(head):
    r = []
    while head is not None:
        r.append(head)
        head = head._next
    return r


def prior(m, k):
    try:
        p = m.getPrior(k)
        return {"kd": type(p).__name__.replace("Prior", ""), "lo": num(p.lowLimit), "hi": num(p.highLimit)}
    except IndexError:
        return {"kd": "none", "lo": "-inf", "hi": "inf"}


def view(h, m, d):
    w = {"h": h, "exc": "", "p": [], "np": -1, "nph": -1, "npb": [], "comp": -1, "names": [], "kn": [], "pri": [], "dyn": False}
    try:
        w["p"] = vec(m.parameters)
        w["np"] = int(m.npars)
        w["nph"] = int(m.npchain)
        ls = kids(m)
        w["npb"] = [int(q.npbase) for q in ls]
        w["comp"] = int(ls[d - 1].ncomp)
        w["names"] = [str(m.getParameterName(k)) for k in range(w["np"])]
        if isinstance(ls[d - 1], bf.SplinesDynamicModel):
            w["kn"] = vec(ls[d - 1].knots)
        w["pri"] = [prior(m, k) for k in range(w["np"])]
        w["dyn"] = bool(m.isDynamic())
    except Exception as x:
        w["exc"] = type(x).__name__ + ": " + str(x)[:80]
    return w


def sc_dyn(sc):
    rng = random.Random(sc["seed"])
    ev, live, d = [], {}, 0

    def do(e, fn):
        e["exc"], r = "", None
        try:
            r = fn()
        except Exception as x:
            e["exc"] = type(x).__name__ + ": " + str(x)[:80]
        ev.append(e)
        return r

    def views():
        return [view(h, m, d) for h, m in live.items()]

    def look(a):
        m = live[a]
        lo, hi = (m.knots if False else [0.0, 1.0])
        for q in kids(m):
            if isinstance(q, bf.SplinesDynamicModel):
                lo, hi = q.knots[0], q.knots[-1]
        xs = [lo + (hi - lo) * r3(rng.uniform(.02, .98)) if False else float(r3(lo + (hi - lo) * rng.uniform(.02, .98))) for _ in range(sc.get("nx", 2))]
        for op in ("result", "partial"):
            e = {"op": op, "a": a, "x": [[num(x)] for x in xs], "v": [], "exc": ""}
            try:
                r = getattr(m, op)(np.array(xs), m.parameters)
                e["v"] = M.norm_result(r, len(xs), 1) if op == "result" else M.norm_partial(r, len(xs), m.npars, 1)
            except Exception as x:
                e["exc"] = type(x).__name__ + ": " + str(x)[:80]
            ev.append(e)

    def side(a, at, dnp):
        """The fit index at a change, and the components in another order."""
        m = live[a]
        lk = kids(m)[d - 1]
        off = sum(q.npbase for q in kids(m)[:d - 1])
        n = off + at + sum(q.npbase for q in kids(m)[d:])
        fi = [k for k in range(n) if rng.random() < .7] + [k for k in (-2, -1) if rng.random() < .5]
        e = {"op": "fidx", "a": a, "fi": fi, "at": off + at, "dnp": dnp, "v": []}
        r = do(e, lambda: lk.alterFitindex(np.array(fi, dtype=int), at, dnp, off))
        if r is not None:
            e["v"] = [int(k) for k in r]
        p = np.arange(m.npars) + 1.0
        e = {"op": "shuffle", "a": a, "p": vec(p), "v": []}
        r = do(e, lambda: lk.shuffle(p.copy(), off, lk.npbase, np.random.RandomState(rng.randint(0, 999))))
        if r is not None:
            e["v"] = vec(r)

    try:
        for a in sc["acts"]:
            op = a["op"]
            if op == "new":
                d = a["m"]["d"]
                m = dict(a["m"])
                live[1] = build(m)
                m.pop("frac", None)
                ev.append({"op": "new", "h": 1, "m": m, "views": views()})
                continue
            if op == "copy":
                h = len(live) + 1
                e = {"op": op, "a": a["a"], "h": h}
                live[h] = live[a["a"]].copy()
            elif op == "setp":
                n = live[a["a"]].npars
                p = ([F(v) for v in a["p"]] if "p" in a else [float(r3(rng.uniform(.2, 1.9))) for _ in range(n)])
                pr = [prior(live[a["a"]], k) for k in range(n)]
                if "p" not in a and all(q["kd"] != "none" for q in pr):
                    p = [float(r3(rng.uniform(F(q["lo"]), F(q["hi"])))) for q in pr]
                e = {"op": op, "a": a["a"], "p": vec(p)}
                live[a["a"]].parameters = p
            else:
                m = live[a["a"]]
                lk = kids(m)[d - 1]
                off = sum(q.npbase for q in kids(m)[:d - 1])
                np0 = lk.npbase
                r = Rng(rng.randint(0, 10 ** 6), [F(u) for u in a.get("u", [])])
                with_rng = bool(a.get("u")) or a.get("rng") or "kn" in a
                kw = {} if op == "vary" else {"offset": off}
                if with_rng:
                    kw["rng"] = r
                e = {"op": op, "a": a["a"], "u": [], "ok": False}
                ok = do(e, lambda: getattr(lk, op)(**kw))
                e["ok"] = bool(ok)
                if op == "grow" and with_rng:
                    e["u"] = vec(r.kept)
                e["views"] = views()
                if e["exc"]:
                    break
                if e["ok"] and op != "vary" and rng.random() < sc.get("side", .5):
                    side(a["a"], np0, lk.npbase - np0)
                if rng.random() < sc.get("look", .4):
                    look(rng.choice(list(live)))
                continue
            e["views"] = views()
            ev.append(e)
    except Exception as x:
        crash(ev, x)
    return ev


def U(lo, hi):
    return {"kd": "Uniform", "lo": r3(lo), "hi": r3(hi)}


def pri_of(l, k):
    """As LinkPrior of Dynamic.tla."""
    t, pri = l["t"], l["pri"]
    if t["k"] == "rep":
        m = tpar(t["t"])
        free = [i for i in range(m) if i not in t["same"]]
        k = k if k < m else free[(k - m) % len(free)]
    elif t["k"] == "base" and t["z"] == "Harmonic":
        k %= 2
    return pri[min(k, len(pri) - 1)]


def gen_dyn(seed):
    rng = random.Random(seed)

    def pris(n):
        return [U(a, a + rng.uniform(.5, 3)) for a in [rng.uniform(.1, 2) for _ in range(n)]]

    withp = rng.random() < .6
    kind = rng.choice(["poly", "harm", "rep", "rep", "spl", "spl"])
    frac = "0.01"
    if kind == "poly":
        t = base("Polynomial", deg=rng.randint(0, 2))
        n = t["c"]["deg"] + 1
        pri = pris(rng.randint(1, n))
    elif kind == "harm":
        t = base("Harmonic", deg=rng.randint(1, 2), period=r3(rng.uniform(.7, 3)))
        n = t["c"]["deg"]
        pri = pris(2)
    elif kind == "rep":
        inner = rng.choice([base("Gauss"), base("Exp", decay=False), base("Sine"), base("Power", exponent="2"),
                            {"k": "br", "ch": [link("0", base("Gauss")), link("+", base("Polynomial", deg=rng.randint(0, 1)))]}])
        m = tpar(inner)
        n = rng.randint(0, 3)
        t = {"k": "rep", "n": n, "t": inner, "same": sorted(rng.sample(range(m), rng.randint(0, m - 1)))}
        pri = pris(m)
    else:
        withp = True if rng.random() < .7 else withp
        border = rng.choice([0, 0, 0, 1])
        deg = rng.choice([0, 1, 2, 3, 3])
        n = rng.randint(2, 5) if border == 0 else rng.randint(deg + 3, deg + 6)
        lo = rng.uniform(-1, 1)
        kn = [lo]
        for _ in range(n - 1):
            kn.append(kn[-1] + rng.uniform(.3, 1))
        t = base("BSpl", knots=[r3(k) for k in kn], deg=deg, border=border)
        pri = pris(1)         # one for all: a parameter may change its place
        frac = rng.choice(["0.01", "0.01", "0.3", "0.9"])
    other = [rng.choice([base("Polynomial", deg=rng.randint(0, 1)), base("Power", exponent="1"), base("Exp", decay=True)]) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
    d = rng.randint(1, len(other) + 1)
    ts = other[:d - 1] + [t] + other[d - 1:]
    ch = []
    for i, q in enumerate(ts):
        l = link("0" if i == 0 else rng.choice("+-*"), q)
        l["pri"] = (pri if i == d - 1 else pris(tpar(q))) if withp else []
        ch.append(l)
    mn = rng.randint(0 if kind == "rep" else 1, n) if n else 0
    if kind == "spl":
        mn = rng.randint(2, n) if t["c"]["border"] == 0 else max(n - 1, t["c"]["deg"] + 3)
    mx = -1 if rng.random() < .3 else n + rng.randint(0, 3)
    dynamic = kind != "rep" or rng.random() < .9
    if mx == mn and kind == "rep":
        dynamic = False
    p = [r3(rng.uniform(.2, 1.9)) for _ in range(cpar(ch))]
    md = num((F(t["c"]["knots"][-1]) - F(t["c"]["knots"][0])) / n * F(frac)) if kind == "spl" else "0"
    if withp:
        ws = [pri_of(l, k) for l in ch for k in range(tpar(l["t"]))]
        p = [r3(min(max(rng.uniform(F(w["lo"]), F(w["hi"])), F(w["lo"]) + .001), F(w["hi"]) - .001)) for w in ws]
    acts = [{"op": "new", "m": {"ch": ch, "p": p, "d": d, "mn": mn, "mx": mx, "dyn": dynamic, "md": md, "frac": frac}}]
    hs = 1
    for _ in range(rng.randint(3, 10)):
        a = rng.randint(1, hs)
        op = rng.choice(["grow", "grow", "grow", "shrink", "shrink", "copy", "setp"] + (["vary"] if kind == "spl" else []))
        if op == "copy":
            if hs < 3:
                hs += 1
                acts.append({"op": op, "a": a})
        elif op == "setp":
            acts.append({"op": op, "a": a})
        else:
            acts.append({"op": op, "a": a, "rng": kind == "spl" or op != "grow" or withp and rng.random() < .8})
    return {"acts": acts}


def c2627(ctx, name):
    hs = ctx.mc("MC_Dynamic", "MC_Dynamic2.cfg" if ctx.tier == "thorough" else "MC_Dynamic1.cfg")
    hs = ctx.rng.sample(hs, min(len(hs), ctx.pick(900, 30000)))
    side = {"C26": .2, "C27": .7}[name]
    ctx.validate("Tr_Dynamic", ctx.drive(sc_dyn, [{"seed": H(ctx.seed, name + "h", k), "acts": a, "side": side, "look": side} for k, a in enumerate(hs)]))
    ctx.validate("Tr_Dynamic", ctx.drive(sc_dyn, [dict(gen_dyn(H(ctx.seed, name + "g", k)), seed=H(ctx.seed, name, k), side=side, look=side)
                                                  for k in range(ctx.pick(700, 15000))]))


# ------------------------------------------------------------------ decision trees
def tree_of(t):
    if t.left is None:
        return {"k": "leaf"}
    return {"k": "br", "dim": int(t.dimension), "split": "" if t.split is None else num(t.split),
            "mask": 0 if t.mask is None else int(t.mask), "l": tree_of(t.left), "r": tree_of(t.rite)}


def parents(t):
    if t.left is None:
        return True
    return t.left.parent is t and t.rite.parent is t and parents(t.left) and parents(t.rite)


def tree_in(m):
    return [q for q in kids(m) if isinstance(q, bf.DecisionTreeModel)][0]


def tview(h, m, off):
    w = {"h": h, "exc": "", "tr": {"k": "leaf"}, "p": [], "np": -1, "npb": -1, "comp": -1, "cnt": [], "par": False, "check": False,
         "names": [], "pri": [], "dyn": []}
    try:
        t = tree_in(m)
        w["tr"] = tree_of(t)
        w["p"] = vec(m.parameters)
        w["np"] = int(m.npars)
        w["npb"] = int(t.npbase)
        w["comp"] = int(t.ncomp)
        w["cnt"] = [int(t.countLeaf()), int(t.countBranch())]
        w["par"] = t.parent is None and parents(t)
        w["check"] = bool(t.check())
        w["names"] = [str(m.getParameterName(k)) for k in range(off, w["np"])]
        w["pri"] = [prior(m, k) for k in range(off, w["np"])]
        w["dyn"] = [bool(m.isDynamic()), bool(m.isModifiable())]
    except Exception as x:
        w["exc"] = type(x).__name__ + ": " + str(x)[:80]
    return w


def tdata(rng, nd, it, n):
    """Data of the types, with unknowns: as numbers, and as they are given to the model."""
    typ = [it[min(k, len(it) - 1)] for k in range(nd)]
    nan = rng.random() < .5
    cols = []
    for t in typ:
        if t == 0:
            c = [float(r3(rng.uniform(-2, 2))) for _ in range(n)]
            if nan:
                c = [float("nan") if rng.random() < .2 else v for v in c]
            if rng.random() < .1:
                c = [c[0]] * n
        else:
            c = [rng.randrange(0, 2 if t == 1 else 2 ** t) for _ in range(n)]
        cols.append(c)
    X = [[num(c[i]) for c in cols] for i in range(n)]
    if nd == 1 and rng.random() < .8:
        return X, np.array(cols[0])
    if all(t > 0 for t in typ) or all(t == 0 for t in typ):
        return X, np.array(cols).T.copy()
    from astropy.table import Table
    return X, Table([np.array(c) for c in cols], names=["c%d" % k for k in range(nd)])


def sc_tree(sc):
    rng = random.Random(sc["seed"])
    ev, live, m0 = [], {}, None

    def views():
        return [tview(h, m, m0["off"]) for h, m in live.items()]

    def look(a, all=False):
        m = live[a]
        n = rng.choice([1, 3, 6, 9])
        X, x = tdata(rng, m0["nd"], m0["it"], n)
        if m0["off"]:
            x = x.ravel()
        for op in ("result", "partial", "sort"):
            if not all and rng.random() < .4:
                continue
            e = {"op": op, "a": a, "x": X, "v": [], "exc": ""}
            try:
                if op == "sort":
                    e["v"] = [int(k) for k in tree_in(m).sortXdata(x)]
                else:
                    r = np.asarray(getattr(m, op)(x, m.parameters))
                    if op == "result":
                        if r.shape != (n,):
                            raise ValueError("shape %s" % (r.shape,))
                        e["v"] = vec(r)
                    else:
                        if r.shape != (n, m.npars):
                            raise ValueError("shape %s" % (r.shape,))
                        e["v"] = [vec(q) for q in r]
            except Exception as x_:
                e["exc"] = type(x_).__name__ + ": " + str(x_)[:80]
            ev.append(e)

    def code(a):
        e = {"op": "code", "a": a, "exc": "", "code": "", "dims": [], "splits": [], "tr": {"k": "leaf"}, "np": -1}
        try:
            c, d, s = tree_in(live[a]).encode()
            e["code"] = str(c)
            e["dims"] = [int(k) for k in d]
            e["splits"] = [{"s": "", "m": q} if isinstance(q, int) else {"s": num(q), "m": 0} for q in s]
            t = bf.DecisionTreeModel(ndim=m0["nd"], code=c, kdim=d, split=s, itypes=list(m0["it"]))
            e["tr"] = tree_of(t)
            e["np"] = int(t.npars)
        except Exception as x:
            e["exc"] = type(x).__name__ + ": " + str(x)[:80]
        ev.append(e)

    try:
        for a in sc["acts"]:
            op = a["op"]
            if op == "new":
                m = m0 = a["m"]
                kw = {}
                if m["tr"]["k"] == "full":
                    kw = dict(depth=m["tr"]["depth"], kdim=list(m["tr"]["dims"]), split=[F(s) for s in m["tr"]["ss"]])
                t = bf.DecisionTreeModel(ndim=m["nd"], itypes=list(m["it"]), dynamic=m["dyn"], **kw)
                if m["mn"] >= 0:
                    t.setGrowPrior(min=m["mn"], max=None if m["mx"] < 0 else m["mx"])
                live[1] = t
                if m["off"]:
                    live[1] = bf.PolynomialModel(0, limits=[0, 1]) + t
                live[1].parameters = [F(v) for v in m["p"]]
                ev.append({"op": op, "h": 1, "m": m, "views": views()})
                continue
            if op == "copy":
                h = len(live) + 1
                live[h] = live[a["a"]].copy()
                e = {"op": op, "a": a["a"], "h": h}
            elif op == "setp":
                p = [float(r3(rng.random())) for _ in range(live[a["a"]].npars)]
                live[a["a"]].parameters = p
                e = {"op": op, "a": a["a"], "p": vec(p)}
            else:
                t = tree_in(live[a["a"]])
                e = dict(a, exc="", ok=False)
                kw = {} if op.endswith("vary") else {"offset": m0["off"]}
                if op[0] == "r" and op != "rite":
                    kw["rng"] = np.random.RandomState(rng.randint(0, 10 ** 6))
                    fn = getattr(t, op[1:])
                else:
                    fn = getattr(t, op)
                    n = t.countLeaf() if op != "vary" else t.countBranch()
                    e["at"] = kw["location"] = a["at"] if "s" in a or op == "shrink" and "at" in a else 0
                    if e["at"] >= n:
                        continue
                    if op != "shrink":
                        kw.update(split=F(a["s"]), kdim=a["dim"])
                try:
                    e["ok"] = bool(fn(**kw))
                except Exception as x:
                    e["exc"] = type(x).__name__ + ": " + str(x)[:80]
                e["views"] = views()
                ev.append(e)
                if e["exc"]:
                    break
                if rng.random() < .5:
                    look(rng.choice(list(live)))
                if rng.random() < .2:
                    code(rng.choice(list(live)))
                continue
            e["views"] = views()
            ev.append(e)
        for h in live:
            look(h, True)
            code(h)
    except Exception as x:
        crash(ev, x)
    return ev


def gen_tree(seed):
    rng = random.Random(seed)
    off = 1 if rng.random() < .3 else 0
    nd = 1 if off else rng.randint(1, 4)
    it = [0] if rng.random() < .3 else [rng.choice([0, 1, 2, 4]) for _ in range(rng.randint(1, nd + 1))]
    depth = rng.choice([0, 0, 1, 2, 3])
    n = 2 ** depth - 1
    tr = {"k": "leaf"}
    if depth:
        tr = {"k": "full", "depth": depth, "dims": [rng.randrange(nd) for _ in range(n)], "ss": [r3(rng.uniform(.05, .95)) for _ in range(n)]}
    mn = -1 if rng.random() < .6 else rng.randint(0, n)
    mx = -1 if mn < 0 or rng.random() < .4 else n + rng.randint(0, 4)
    m = {"tr": tr, "p": [r3(rng.random()) for _ in range(off + n + 1)], "off": off, "nd": nd, "it": it, "dyn": rng.random() < .9, "mn": mn, "mx": mx}
    acts, hs = [{"op": "new", "m": m}], 1
    for _ in range(rng.randint(2, 12)):
        a = rng.randint(1, hs)
        op = rng.choice(["rgrow", "rgrow", "rgrow", "rshrink", "rshrink", "rvary", "rvary", "grow", "shrink", "vary", "copy", "setp"])
        if op == "copy":
            if hs < 3:
                hs += 1
                acts.append({"op": op, "a": a})
        elif op in ("grow", "vary"):
            acts.append({"op": op, "a": a, "at": rng.randrange(3), "dim": rng.randrange(nd), "s": r3(rng.uniform(.05, .95))})
        elif op == "shrink":
            acts.append({"op": op, "a": a, "at": rng.randrange(4)})
        else:
            acts.append({"op": op, "a": a})
    return {"acts": acts}


def c28(ctx):
    hs = ctx.mc("MC_Tree", "MC_Tree.cfg")
    if ctx.tier == "thorough":
        hs += ctx.mc("MC_Tree", "MC_Tree5.cfg")
    hs = ctx.rng.sample(hs, min(len(hs), ctx.pick(700, 30000)))
    ctx.validate("Tr_Tree", ctx.drive(sc_tree, [{"seed": H(ctx.seed, "C28h", k), "acts": a} for k, a in enumerate(hs)]))
    ctx.validate("Tr_Tree", ctx.drive(sc_tree, [dict(gen_tree(H(ctx.seed, "C28g", k)), seed=H(ctx.seed, "C28", k)) for k in range(ctx.pick(700, 15000))]))


# ------------------------------------------------------------------ nested sampling with dynamic models
def struct(m, kind):
    q = {"n": 0, "kn": [], "tr": {"k": "leaf"}}
    d = [x for x in kids(m) if isinstance(x, bf.Dynamic)][0]
    q["n"] = int(d.ncomp)
    if kind == "spl":
        q["kn"] = vec(d.knots)
    if kind == "tree":
        q["tr"] = tree_of(d)
    return q


class Follow:
    """Follows a sampler through its engines."""
    def __init__(self, ns, cfg):
        self.ns, self.cfg, self.ev, self.last, self.started = ns, cfg, [], None, False
        start = bf.StartEngine(WalkerList(), ns.distribution, seed=cfg["seed"] % 2 ** 31)
        ns.initialEngine = start
        inner = start.execute

        def first(kw, low, *a, **k):
            r = inner(kw, low, *a, **k)
            self.nstart += 1
            if self.nstart == cfg["n"]:
                self.last = self.snap()
                self.sh0 = self.shared()
            return r
        self.nstart = 0
        start.execute = first
        for eng in ns.engines:
            self.wrap(eng)

    def snap(self):
        import json
        k = self.cfg["kind"]
        return [(num(w.logL), tuple(vec(w.allpars)), tuple(int(i) for i in w.fitIndex), json.dumps(struct(w.problem.model, k)),
                 int(w.problem.model.npars)) for w in self.ns.walkers]

    @staticmethod
    def dic(s, **kw):
        import json
        return dict({"L": s[0], "p": list(s[1]), "fi": list(s[2]), "t": json.loads(s[3]), "np": s[4]}, **kw)

    def shared(self):
        ms = [id(w.problem.model) for w in self.ns.walkers]
        ls = [id(q) for w in self.ns.walkers for q in kids(w.problem.model)]
        return len(ms) - len(set(ms)) + len(ls) - len(set(ls))

    def start(self):
        if not self.started:
            self.started = True
            self.ev.append(dict(self.cfg, op="start", W=[self.dic(s) for s in self.last], shared=self.sh0))

    def wrap(self, eng):
        inner = eng.execute

        def execute(kw, low, append=False, iteration=0, **k):
            self.start()
            pre = self.snap()
            e = {"op": "exec", "eng": str(eng), "kw": int(kw) + 1, "low": num(low), "it": int(iteration),
                 "pre": [self.dic(s) for s in pre] if pre != self.last else [], "same": pre == self.last}
            ret = inner(kw, low, append=append, iteration=iteration, **k)
            post = self.snap()
            e["chg"] = [self.dic(a, k=i + 1) for i, a in enumerate(post) if i >= len(pre) or pre[i] != a]
            e["n"], e["ret"], e["shared"] = len(post), int(ret), self.shared()
            self.last = post
            self.ev.append(e)
            return ret
        eng.execute = execute

    def end(self, ret):
        ns = self.ns
        self.start()
        self.ev.append({"op": "end", "ret": num(ret), "z": num(ns.logZ), "info": num(ns.info),
                        "smp": [{"L": num(x.logL), "lw": num(x.logW), "p": vec(x.allpars), "fi": [int(i) for i in x.fitIndex],
                                 "t": struct(x.model, self.cfg["kind"]), "np": int(x.model.npars)} for x in ns.samples]})


def sc_ns(sc):
    from areas.nested import gen_dist, real_dist
    rng = random.Random(sc["seed"])
    np.random.seed(sc["seed"] % 2 ** 31)
    cfg = {"off": 0, "nd": 1, "itp": [0], "plo": "0", "phi": "1", "kn0": "0", "kn1": "0", "md": "0", "keep": []}
    n = rng.randint(3, 6)
    lo, hi = .1, 1.9
    if rng.random() < .2:
        cfg["kind"] = "tree"
        off = 1 if rng.random() < .3 else 0
        nd = 1 if off else rng.randint(1, 3)
        it = [0] if rng.random() < .5 else [rng.choice([1, 2]) for _ in range(nd)]
        depth = rng.choice([0, 1, 2])
        b = 2 ** depth - 1
        mn, mx = rng.choice([0, b]), b + rng.randint(1, 3)
        m = bf.DecisionTreeModel(ndim=nd, itypes=it, depth=depth, kdim=[rng.randrange(nd) for _ in range(b)], split=[float(r3(rng.uniform(.1, .9))) for _ in range(b)])
        m.setGrowPrior(min=mn, max=mx)
        m.setLimits([0.0], [1.0])
        if off:
            cfg.update(plo=r3(rng.uniform(0, .5)), phi=r3(rng.uniform(1, 2)))
            pm = bf.PolynomialModel(0)
            pm.setLimits([F(cfg["plo"])], [F(cfg["phi"])])
            m = pm + m
        X, x = tdata(rng, nd, it, n)
        if off:
            x = x.ravel()
        ch, npar = [], off + b + 1
        cfg.update(off=off, nd=nd, itp=it, mn=mn, mx=mx, dl=2 if off else 1)
        firsts = [0] if off else []
        size = [1]
    else:
        while True:
            q = gen_dyn(rng.randrange(10 ** 9))["acts"][0]["m"]
            if q["dyn"] and all(l["pri"] for l in q["ch"]):
                break
        m = build(q)
        t = q["ch"][q["d"] - 1]["t"]
        cfg["kind"] = "rep" if t["k"] == "rep" else {"Polynomial": "poly", "Harmonic": "harm", "BSpl": "spl"}[t["z"]]
        ch = q["ch"]
        cfg.update(dl=q["d"], mn=q["mn"], mx=q["mx"], md=q["md"])
        if cfg["kind"] == "spl":
            kn = t["c"]["knots"]
            cfg.update(kn0=kn[0], kn1=kn[-1])
            lo, hi = F(kn[0]), F(kn[-1])
        x = sorted(float(r3(lo + (hi - lo) * rng.uniform(.02, .98))) for _ in range(n))
        X = [[num(v)] for v in x]
        x = np.array(x)
        npar = m.npars
        firsts = [i for i in range(len(ch)) if i != q["d"] - 1]
    y = [float(r3(rng.uniform(0, 2))) for _ in range(n)]
    pb = {"kind": "classic", "ch": ch, "x": X, "y": [num(v) for v in y], "cyc": "none",
          "w": [r3(rng.uniform(.5, 2)) for _ in range(n)] if rng.random() < .3 else [],
          "acc": [r3(rng.uniform(.3, 1)) for _ in range(n)] if rng.random() < .2 else []}
    ed, hyp = gen_dist(rng, pb, None, mixed=False)
    keep = {}
    if firsts and rng.random() < .25:
        i = rng.choice(firsts)
        w = 1 if cfg["kind"] == "tree" else tpar(ch[i]["t"])
        k = rng.randrange(w) if w else -1
        if k >= 0:
            f = 0 if cfg["kind"] == "tree" else sum(tpar(l["t"]) for l in ch[:i])
            v = rng.uniform(.5, 1)
            keep[f + k] = float(r3(v))
            cfg["keep"] = [{"l": i + 1, "k": k, "v": r3(v)}]
    prob = bf.ClassicProblem(model=m, xdata=x, ydata=np.array(y), weights=np.array([F(v) for v in pb["w"]]) if pb["w"] else None,
                             accuracy=np.array([F(v) for v in pb["acc"]]) if pb["acc"] else None)
    ens, disc = rng.randint(4, 9), rng.choice([1, 1, 2])
    eng = None
    if rng.random() < .5:
        eng = ["birth", "death"] + (["struct"] if cfg["kind"] in ("spl", "tree") else []) + rng.sample(["galilean", "chord", "gibbs", "step"], rng.randint(0, 2))
    ns = bf.NestedSampler(problem=prob, distribution=real_dist(ed, hyp), ensemble=ens, discard=disc, engines=eng, keep=keep or None,
                          seed=rng.randrange(10 ** 6), verbose=0)
    ns.minimumIterations = rng.randint(5, sc.get("its", 30))
    ns.maxIterations = ns.minimumIterations + 5
    cfg.update(pb=pb, ed=ed, hyp=hyp, nh=len(hyp), n=ens, disc=disc, seed=sc["seed"])
    rec = Follow(ns, cfg)
    try:
        rec.end(ns.sample())
    except Exception as x:
        crash(rec.ev, x)
    return rec.ev


def c29(ctx):
    ctx.validate("Tr_NestedDyn", ctx.drive(sc_ns, [{"seed": H(ctx.seed, "C29", k), "its": ctx.pick(20, 60)} for k in range(ctx.pick(100, 3000))]))


CHECKS = {"C26": lambda ctx: c2627(ctx, "C26"), "C27": lambda ctx: c2627(ctx, "C27"), "C28": c28, "C29": c29}
