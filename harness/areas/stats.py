"""Lists of samples and of walkers, phantoms: C22, C25."""
import random
import numpy as np
import BayesicFitting as bf
from BayesicFitting.source.SampleList import SampleList
from BayesicFitting.source.Sample import Sample
from BayesicFitting.source.WalkerList import WalkerList
from BayesicFitting.source.Walker import Walker
from BayesicFitting.source.PhantomCollection import PhantomCollection
from vlib import num, vec, h as H
from areas.models import F
from areas.fit import r3


def nums(v):
    return [num(F(x)) for x in v]


def rows(a):
    return [vec(r) for r in np.asarray(a)]


def clean(q):
    return dict(q, p=nums(q["p"]), h=nums(q["h"]), u=nums(q["u"]), L=num(F(q["L"])), lw=num(F(q["lw"])))


def arr(v):
    return np.array([F(x) for x in v], dtype=float)


# ------------------------------------------------------------------ samples
class World:
    def __init__(self):
        self.ev = []

    def model(self, n):
        if self.dyn:
            return bf.PolynomialDynamicModel(n - 1)
        m = bf.PolynomialModel(n - 1)
        for k, c in enumerate(self.circ):
            if not c:
                pr = bf.UniformPrior(limits=[-100., 100.])
            elif k % 2:
                pr = bf.UniformPrior(circular=True, limits=[F(c[0]), F(c[1])])
            else:
                pr = bf.CircularUniformPrior(limits=[F(c[0]), F(c[1])])
            if any(self.circ):
                m.setPrior(k, pr)
        return m

    def fill(self, s, q):
        if q["h"]:
            s.hyper = arr(q["h"])
        if q["u"]:
            s.nuisance = arr(q["u"])
        s.logL, s.logW = F(q["L"]), F(q["lw"])
        return s

    def sample(self, x):
        n = len(x["p"])
        s = Sample(x["id"], x["parent"], x["start"], self.model(n), parameters=arr(x["p"]), fitIndex=np.arange(n))
        return self.fill(s, x)

    def show(self, s):
        return {"id": int(s.id), "parent": int(s.parent), "start": int(s.start), "p": vec(s.parameters), "h": vec(s.hyper) if hasattr(s, "hyper") else [],
                "u": vec(s.nuisance) if hasattr(s, "nuisance") else [], "L": num(s.logL), "lw": num(s.logW)}

    def look(self, rng):
        sl = self.sl
        e = {"s": [self.show(s) for s in sl], "norm": bool(sl.normalized)}
        if len(sl) == 0:
            return e
        m = max(len(s.parameters) for s in sl)
        e["kp"] = rng.randint(1, m)
        pw = sl.getParAndWgtEvolution()
        low = sl.getLowLogL()
        hyp = hasattr(sl[0], "hyper")
        e.update(gen=[int(v) for v in sl.getGeneration()], parent=[int(v) for v in sl.getParentEvolution()], start=[int(v) for v in sl.getStartEvolution()],
                 np=[int(v) for v in sl.getNumberOfParametersEvolution()], maxnp=int(sl.getMaximumNumberOfParameters()),
                 L=vec(sl.getLogLikelihoodEvolution()), lw=vec(sl.getLogWeightEvolution()), w=vec(sl.getWeightEvolution()),
                 pe=rows(sl.getParameterEvolution()), kpe=vec(sl.getParameterEvolution(e["kp"] - 1)), pw={"p": rows(pw[0]), "w": vec(pw[1])},
                 he=rows(sl.getScaleEvolution()) if hyp else [], low=[num(low[0]), num(low[1])],
                 mlp=vec(sl.maxLikelihoodParameters), mls=num(sl.maxLikelihoodScale) if hyp else "0")
        return e

    def stat(self, rng):
        sl = self.sl
        e = {"op": "stat"}
        same = len({len(s.parameters) for s in sl}) == 1
        x = [float(r3(rng.uniform(-2, 2))) for _ in range(3)]
        y = [float(r3(rng.uniform(-2, 2))) for _ in range(3)]
        order = ["par", "std", "hyp", "nui", "avg", "err"]
        rng.shuffle(order)
        hyp, nui = hasattr(sl[0], "hyper"), hasattr(sl[0], "nuisance")
        e.update(par=[], std=[], std2=[], hyp=[], shyp=[], scale="0", sscale="0", nui=[], snui=[], x=vec(x), y=vec(y))
        for o in order:
            if o == "par" and same and not self.dyn:
                e["par"] = vec(sl.parameters)
            elif o == "std" and same and not self.dyn:
                e["std"], e["std2"] = vec(sl.stdevs), vec(sl.standardDeviations)
            elif o == "hyp" and hyp:
                two = [("scale", lambda: num(sl.scale)), ("sscale", lambda: num(sl.stdevScale)), ("hyp", lambda: vec(sl.hypars)), ("shyp", lambda: vec(sl.stdevHypars))]
                rng.shuffle(two)
                for k, f in two:
                    e[k] = f()
            elif o == "nui" and nui:
                two = [("nui", lambda: vec(sl.nuisance)), ("snui", lambda: vec(sl.stdevNuis))]
                rng.shuffle(two)
                for k, f in two:
                    e[k] = f()
            elif o == "avg":
                e["avg"] = vec(sl.average(np.array(x)))
                e["avg2"] = vec(sl.monteCarloError(np.array(x)))
            elif o == "err":
                e["err"] = vec(sl.monteCarloError(np.array(y)))
        self.ev.append(e)

    def med(self):
        sl = self.sl
        k, j = int(sl.medianIndex), int(sl.modusIndex)
        e = {"op": "med", "med": k, "mod": j, "medp": [], "modp": [], "meds": "0", "mods": "0"}
        hyp = hasattr(sl[0], "hyper")
        if 0 <= k < len(sl):
            e["medp"] = vec(sl.medianParameters)
            if hyp:
                e["meds"] = num(sl.medianScale)
        if 0 <= j < len(sl):
            e["modp"] = vec(sl.modusParameters)
            if hyp:
                e["mods"] = num(sl.modusScale)
        self.ev.append(e)

    def do(self, a, rng):
        op = a["op"]
        e = dict(a)
        if op == "new":
            e["q"] = q = clean(a["q"])
            self.dyn, self.circ = a["dyn"], [[num(F(v)) for v in c] for c in a["circ"]]
            e["circ"] = self.circ
            n = len(q["p"])
            self.sl = SampleList(self.model(n), a["n"], parameters=arr(q["p"]), fitIndex=np.arange(n))
            for s in self.sl:
                self.fill(s, q)
        elif op == "more":
            e["q"] = q = clean(a["q"])
            self.sl.iteration = a["it"]
            n, k = len(q["p"]), len(self.sl)
            self.sl.addSamples(self.model(n), a["n"], arr(q["p"]), fitIndex=np.arange(n))
            for s in self.sl[k:]:
                self.fill(s, q)
        elif op == "add":
            e["x"] = clean(a["x"])
            self.sl.add(self.sample(e["x"]))
        elif op == "put":
            e["x"] = clean(a["x"])
            if a.get("by", 0):
                self.sl[a["k"] - 1] = self.sample(e["x"])
            else:
                self.sl.sample(a["k"] - 1, self.sample(e["x"]))
        elif op == "weed":
            self.sl.weed(a["max"])
        elif op == "weednone":
            self.sl.weed()
        elif op == "norm":
            self.sl.normalize()
        elif op == "copy":
            self.sl.copy(a["a"] - 1, a["b"] - 1)
            # a copy is a thing of its own
            s = self.sl[a["a"] - 1]
            t = self.sl[a["b"] - 1].copy()
            t.parameters += 100.0
            t.logW = -77.0
            if hasattr(t, "hyper"):
                t.hyper += 5.0
            assert s is not t
        elif op == "weight":
            e["lw"] = num(F(a["lw"]))
            self.sl[a["k"] - 1].logW = F(a["lw"])
            self.sl.normalized = False
        e["look"] = self.look(rng)
        self.ev.append(e)


def crash(ev, x):
    import traceback
    ev.append({"op": "crash", "exc": type(x).__name__ + ": " + str(x)[:150] + traceback.format_exc()[-300:]})
    return ev


def sc_samples(sc):
    rng = random.Random(sc["seed"])
    w = World()
    acts = sc["acts"]
    asked = False
    try:
        for k, a in enumerate(acts):
            w.do(a, rng)
            if a["op"] == "norm":
                w.stat(rng)
                if not asked and rng.random() < .4 or asked and rng.random() < .3:
                    w.med()
                    asked = True
        if len(w.sl):
            # at the end all weights add up to 1
            w.do({"op": "norm"}, rng)
            w.stat(rng)
            w.med()
            w.med()
    except Exception as x:
        crash(w.ev, x)
    return w.ev


def gen_samples(seed):
    rng = random.Random(seed)
    dyn = rng.random() < .3
    n = rng.randint(1, 3)
    nh, nu = rng.choice([0, 1, 1, 2]), rng.choice([0, 0, 2])
    circ = []
    if not dyn and rng.random() < .35:
        circ = [[r3(lo), r3(lo + rng.choice([1, 2, 5]))] if rng.random() < .6 else [] for lo in (rng.uniform(-2, 2) for _ in range(n))]
    wide = rng.random() < .2

    def q(i=None):
        m = rng.randint(1, 3) if dyn else n
        p = []
        for k in range(m):
            if k < len(circ) and circ[k]:
                p.append(r3(rng.uniform(F(circ[k][0]), F(circ[k][1]))))
            else:
                p.append(r3(rng.gauss(500 if wide else 0, 1)))
        d = {"p": p, "h": [r3(rng.uniform(.5, 2)) for _ in range(nh)], "u": [r3(rng.gauss(0, 1)) for _ in range(nu)], "L": r3(rng.uniform(-6, 0)),
             "lw": r3(rng.choice([rng.uniform(-5, 0), rng.uniform(-900, -700)] if wide else [rng.uniform(-5, 0)]))}
        if i is not None:
            d.update(id=i, parent=rng.randint(-1, 9), start=rng.randint(0, 9))
        return d
    acts = [{"op": "new", "n": rng.randint(0 if rng.random() < .3 else 1, 4), "q": q(), "dyn": dyn, "circ": circ}]
    size = acts[0]["n"]
    for _ in range(rng.randint(2, 14)):
        op = rng.choice(["add"] * 6 + ["weed", "norm", "copy", "weight", "put", "more", "weednone"])
        if op in ("copy", "weight", "put", "norm") and size == 0:
            continue
        if op == "add":
            acts.append({"op": op, "x": q(rng.randint(0, 20))})
            size += 1
        elif op == "weed":
            m = rng.randint(1, 6)
            acts.append({"op": op, "max": m})
            size = min(size, m)
        elif op == "copy":
            acts.append({"op": op, "a": rng.randint(1, size), "b": rng.randint(1, size)})
        elif op == "weight":
            acts.append({"op": op, "k": rng.randint(1, size), "lw": r3(rng.uniform(-4, 0))})
        elif op == "put":
            acts.append({"op": op, "k": rng.randint(1, size), "x": q(rng.randint(0, 20)), "by": rng.randint(0, 1)})
        elif op == "more":
            m = rng.randint(1, 2)
            acts.append({"op": op, "n": m, "it": rng.randint(0, 9), "q": q()})
            size += m
        else:
            acts.append({"op": op})
    return acts


# ------------------------------------------------------------------ walkers and phantoms
def problem(n, nh, dyn):
    x = np.array([0.0, 1.0, 2.0])
    m = bf.PolynomialDynamicModel(n - 1) if dyn else bf.PolynomialModel(n - 1)
    return bf.ClassicProblem(m, xdata=x, ydata=x * 0)


def walker(x, dyn):
    n = len(x["p"])
    w = Walker(x["id"], problem(n, 0, dyn), arr(x["p"]), np.arange(n), parent=x["parent"], start=x["start"])
    w.logL = F(x["L"])
    return w


def cw(x):
    return dict(x, p=nums(x["p"]), L=num(F(x["L"])))


def showw(w):
    return {"id": int(w.id), "L": num(w.logL), "p": vec(w.allpars), "parent": int(w.parent), "start": int(w.start)}


def look_list(wl, rng):
    e = {"s": [showw(w) for w in wl], "first": []}
    for low in rng.sample([-10., 0., 1., 1.5, 2., 9.], 3):
        k = wl.firstIndex(low)
        e["first"].append({"low": num(low), "k": -1 if k is None else int(k)})
    if len(wl):
        low = wl.getLowLogL()
        e.update(ap=rows(wl.allPars()), L=vec(wl.getLogL()), low=[num(low[0]), num(low[1])])
        e["pe"] = [vec(w.parameters) for w in wl]
        if len({len(w.allpars) for w in wl}) == 1:
            e["pe"] = rows(wl.getParameterEvolution())
    return e


def look_coll(ph, c, rng):
    if c["dyn"]:
        l = [{"k": int(k), "s": [showw(w) for w in v], "len": int(ph.length(k))} for k, v in ph.phantoms.items()]
    else:
        l = [{"k": 0, "s": [showw(w) for w in ph.phantoms], "len": int(ph.length())}]
    return {"n": int(ph.ncalls), "l": l, "total": int(ph.length())}


def sc_phantoms(sc):
    rng = random.Random(sc["seed"])
    dyn = sc["dyn"]
    ev = []
    wl = WalkerList()
    ph = None
    try:
        for a in sc["acts"]:
            e, op = dict(a), a["op"]
            if op in ("store", "bulk", "ask") and ph is None:
                ph, c = PhantomCollection(dynamic=dyn), {"dyn": dyn}
                ev.append({"op": "coll", "dyn": dyn})
            if op in ("store", "bulk"):
                for x in [a["x"]] if op == "store" else a["xs"]:
                    w = walker(x, dyn)
                    ph.storeItems(w)
                    ev.append({"op": "store", "x": cw(x), "look": look_coll(ph, c, rng)})
                continue
            if op == "ask":
                e["low"] = num(F(a["low"]))
                r = ph.getParamMinmax(F(a["low"]), np=a["np"])
                e.update(has=r[0] is not None, min=[] if r[0] is None else vec(r[0]), max=[] if r[1] is None else vec(r[1]), look=look_coll(ph, c, rng))
                ev.append(e)
                continue
            if "x" in a:
                e["x"] = cw(a["x"])
            if op == "insert":
                wl = wl.insertWalker(walker(a["x"], dyn))
            elif op == "crop":
                e["low"] = num(F(a["low"]))
                wl = wl.cropOnLow(F(a["low"]))
            elif op == "put":
                e["op"] = "wput"
                wl.setWalker(walker(a["x"], dyn), a["k"] - 1)
            elif op == "addn":
                x = walker(a["x"], dyn)
                wl.addWalkers(x, a["n"])
                # the walkers are not the one they were made of
                x.allpars += 50.0
                x.logL = 33.0
            elif op == "copy":
                e["op"], e["from"] = "wcopy", []
                if a.get("xs"):
                    e["from"] = [cw(x) for x in a["xs"]]
                    other = WalkerList(walkerlist=[walker(x, dyn) for x in a["xs"]])
                    wl.copy(a["a"] - 1, a["b"] - 1, wlist=other, start=a["start"])
                    other[a["a"] - 1].allpars += 9.0
                else:
                    wl.copy(a["a"] - 1, a["b"] - 1, start=a["start"])
            e["look"] = look_list(wl, rng)
            ev.append(e)
    except Exception as x:
        crash(ev, x)
    return ev


def sc_walker(sc):
    """A walker becomes a sample; the sample is copied."""
    rng = random.Random(sc["seed"])
    ev = []
    try:
        for _ in range(6):
            np_, nh = rng.randint(1, 3), rng.randint(0, 2)
            xy = rng.random() < .4
            x = np.array([float(r3(rng.uniform(-2, 2))) for _ in range(rng.randint(2, 4))])
            nn = len(x) if xy else 0
            pb = (bf.ErrorsInXandYProblem if xy else bf.ClassicProblem)(bf.PolynomialModel(np_ - 1), xdata=x, ydata=x * 0)
            p = [r3(rng.gauss(0, 2)) for _ in range(np_ + nn + nh)]
            e = {"op": "tosample", "np": np_, "nn": nn, "p": nums(p), "id": rng.randint(0, 20), "parent": rng.randint(-1, 20), "start": rng.randint(0, 99),
                 "L": num(F(r3(rng.uniform(-9, 0)))), "lw": num(F(r3(rng.uniform(-9, 0))))}
            w = Walker(e["id"], pb, arr(p), np.arange(len(p)), parent=e["parent"], start=e["start"])
            w.logL = F(e["L"])
            e["wp"], e["wh"] = vec(w.parameters), [] if w.hypars is None else vec(w.hypars)
            s = w.toSample(F(e["lw"]))
            view = World().show
            e["s"] = dict(view(s), all=vec(s.allpars))
            c = s.copy()
            # what is done to the original does not change the copy
            s.parameters += 3.0
            s.logW, s.logL = 0.5, -99.0
            if nh:
                s.hyper += 1.0
            if nn:
                s.nuisance += 1.0
            e["c"] = dict(view(c), all=vec(c.allpars))
            ev.append(e)
    except Exception as x:
        crash(ev, x)
    return ev


def gen_phantoms(seed):
    rng = random.Random(seed)
    dyn = rng.random() < .5
    n = rng.randint(1, 3)

    def x():
        m = rng.randint(1, 3) if dyn else n
        return {"id": rng.randint(0, 9), "L": r3(rng.choice([rng.uniform(-3, 6), rng.choice([0, 1, 2])])), "p": [r3(rng.gauss(0, 2)) for _ in range(m)],
                "parent": rng.randint(-1, 9), "start": rng.randint(0, 9)}
    acts = []
    if rng.random() < .6:
        low = -5.0
        for _ in range(rng.randint(5, 30)):
            if rng.random() < .75:
                acts.append({"op": "store", "x": x()})
            else:
                low += rng.choice([0, 0, rng.uniform(0, 2)])
                acts.append({"op": "ask", "np": rng.randint(1, 3) if dyn else n, "low": r3(low) if low > -5 or rng.random() < .7 or acts else "-inf"})
        return {"dyn": dyn, "acts": acts}
    size = 0
    for _ in range(rng.randint(3, 14)):
        op = rng.choice(["put", "addn", "copy", "copyx"])
        if op == "put":
            k = rng.randint(1, size + 1)
            acts.append({"op": op, "k": k, "x": x()})
            size = max(size, k)
        elif op == "addn":
            m = rng.randint(0, 3)
            acts.append({"op": op, "n": m, "x": x()})
            size += m
        elif size:
            a = {"op": "copy", "a": rng.randint(1, size), "b": rng.randint(1, size), "start": rng.randint(0, 9)}
            if op == "copyx":
                a["xs"] = [x() for _ in range(rng.randint(1, 3))]
                a["a"] = rng.randint(1, len(a["xs"]))
            acts.append(a)
    return {"dyn": dyn, "acts": acts}


def c22(ctx):
    hs = ctx.mc("MC_Samples", "MC_Samples5.cfg" if ctx.tier == "thorough" else "MC_Samples.cfg")
    if ctx.tier == "quick":
        hs = ctx.rng.sample(hs, 500)
    ctx.validate("Tr_Samples", ctx.drive(sc_samples, [{"seed": H(ctx.seed, "C22h", k), "acts": a} for k, a in enumerate(hs)]))
    ctx.validate("Tr_Samples", ctx.drive(sc_samples, [{"seed": H(ctx.seed, "C22", k), "acts": gen_samples(H(ctx.seed, "C22g", k))}
                                                      for k in range(ctx.pick(400, 8000))]))


def c25(ctx):
    for cfg, dyn in (("MC_Phantoms.cfg", False), ("MC_PhantomsDyn.cfg", True)):
        hs = ctx.mc("MC_Phantoms", cfg)
        hs = ctx.rng.sample(hs, min(len(hs), ctx.pick(300, 20000)))
        ctx.validate("Tr_Samples", ctx.drive(sc_phantoms, [{"seed": H(ctx.seed, "C25h", dyn, k), "acts": a, "dyn": dyn} for k, a in enumerate(hs)]))
    ctx.validate("Tr_Samples", ctx.drive(sc_phantoms, [dict(gen_phantoms(H(ctx.seed, "C25g", k)), seed=H(ctx.seed, "C25", k))
                                                       for k in range(ctx.pick(400, 8000))]))
    ctx.validate("Tr_Samples", ctx.drive(sc_walker, [{"seed": H(ctx.seed, "C25w", k)} for k in range(ctx.pick(100, 1000))]))


CHECKS = {"C22": c22, "C25": c25}
