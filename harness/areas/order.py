"""Ordering problems: C30."""
import random
import numpy as np
import BayesicFitting as bf
from BayesicFitting.source.DistanceCostFunction import DistanceCostFunction
from BayesicFitting.source.WalkerList import WalkerList
from BayesicFitting.source.PhantomCollection import PhantomCollection
from vlib import num, vec, h as H
from areas.models import F
from areas.fit import r3

ENGS = {"move": bf.MoveEngine, "reverse": bf.ReverseEngine, "switch": bf.SwitchEngine, "loop": bf.LoopEngine, "near": bf.NearEngine,
        "shuffle": bf.ShuffleEngine}


def gen(rng):
    n = rng.randint(4, 7)
    dis = rng.choice(["manhattan", "euclid", "euclid", "spherical", "table", "max"])
    nd = 2 if dis == "spherical" else rng.choice([2, 2, 2, 3])
    while True:
        if dis == "spherical":
            x = [[rng.randint(-1790, 1790) / 10, rng.randint(-890, 890) / 10] for _ in range(n)]
        elif rng.random() < .4:
            x = [[float(rng.randint(0, 4)) for _ in range(nd)] for _ in range(n)]
        else:
            x = [[float(r3(rng.uniform(0, 5))) for _ in range(nd)] for _ in range(n)]
        if len({tuple(a) for a in x}) == n or rng.random() < .1:
            break
    tab = []
    if dis == "table":
        tab = [[r3(rng.uniform(.5, 4)) for _ in range(n)] for _ in range(n)]
        if rng.random() < .7:
            tab = [[tab[min(i, j)][max(i, j)] for i in range(n)] for j in range(n)]
    return {"n": n, "x": [[num(v) for v in a] for a in x], "dis": dis, "tab": tab, "ow": rng.random() < .3,
            "w": [r3(rng.uniform(.5, 2)) for _ in range(n)] if rng.random() < .3 else [],
            "scale": r3(rng.uniform(.3, 3)) if rng.random() < .6 else "none"}


def chebyshev(xdata, pars):
    xd = xdata[pars]
    return np.max(np.abs(xd - np.roll(xd, -1, axis=0)), axis=1)


def real(c, rng):
    x = np.array([[F(v) for v in a] for a in c["x"]])
    if rng.random() < .2 and np.all(x == np.round(x)):
        x = x.astype(int)
    name = {"manhattan": "manh", "euclid": "euclid", "spherical": rng.choice(["spher", "spherical"]), "table": "table", "max": chebyshev}[c["dis"]]
    tab = [[F(v) for v in r] for r in c["tab"]] if c["tab"] else None
    if tab and rng.random() < .7:
        tab = np.array(tab)
    return bf.SalesmanProblem(x, weights=[F(v) for v in c["w"]] if c["w"] else None, distance=name,
                              scale=F(c["scale"]) if c["scale"] != "none" else None, table=tab, oneway=c["ow"])


def tour(p):
    return [int(v) for v in p]


def problem(c, pb):
    return dict(c, op="problem", rscale=num(pb.scale), rmin=num(pb.minimumDistance()), npars=int(pb.npars), start=tour(pb.parameters))


def perm(rng, n):
    p = list(range(n))
    rng.shuffle(p)
    return p


def sc_cost(sc):
    rng = random.Random(sc["seed"])
    c = gen(rng)
    pb = real(c, rng)
    ev = [{"op": "reset"}, problem(c, pb)]
    ed = DistanceCostFunction()
    for k in range(4):
        p = perm(rng, c["n"])
        q = pb if rng.random() < .5 else pb.copy()
        a = np.array(p)
        ev.append({"op": "cost", "p": p, "r": vec(q.result(a)), "L": num(ed.logLikelihood(q, a)), "L2": num(ed.copy().logLikelihood_alt(pb, a))})
    return ev


class Watch:
    """Records what engines do to the ensemble of a holder of walkers."""
    def __init__(self, holder, ev):
        self.h, self.ev, self.last = holder, ev, None

    def snap(self):
        return [(num(w.logL), tuple(tour(w.allpars))) for w in self.h.walkers]

    @staticmethod
    def dic(s, **kw):
        return dict({"L": s[0], "p": list(s[1])}, **kw)

    def start(self, m, d):
        self.last = self.snap()
        self.ev.append({"op": "start", "m": m, "d": d, "W": [self.dic(s) for s in self.last]})

    def wrap(self, eng, before=None):
        inner = eng.execute

        def execute(kw, low, *a, iteration=0, **k):
            if before:
                before()
            pre = self.snap()
            e = {"op": "exec", "eng": str(eng), "kw": int(kw) + 1, "low": num(low), "it": int(iteration),
                 "pre": [self.dic(s) for s in pre] if pre != self.last else [], "same": pre == self.last}
            ret = inner(kw, low, *a, iteration=iteration, **k)
            post = self.snap()
            e["chg"] = [self.dic(s, k=i + 1) for i, s in enumerate(post) if i >= len(pre) or pre[i] != s]
            e["n"], e["ret"] = len(post), int(ret)
            self.last = post
            self.ev.append(e)
            return ret
        eng.execute = execute


class Holder:
    pass


def sc_engines(sc):
    """Engines on walkers, below limits on the likelihood of all sorts."""
    rng = random.Random(sc["seed"])
    c = gen(rng)
    pb = real(c, rng)
    ev = [{"op": "reset"}, problem(c, pb)]
    ed = DistanceCostFunction()
    m = rng.randint(2, 4)
    h = Holder()
    h.walkers = WalkerList(pb, m, np.arange(c["n"]), np.arange(c["n"]))
    ph = PhantomCollection(dynamic=False)
    st = bf.StartOrderEngine(h.walkers, ed, phantoms=ph, seed=rng.randrange(10 ** 6))
    for k in range(m):
        st.execute(k, -np.inf)
    wt = Watch(h, ev)
    wt.start(m, 1)
    engs = [ENGS[k](h.walkers, ed, phantoms=ph, seed=rng.randrange(10 ** 6)) for k in ENGS]
    for e in engs:
        wt.wrap(e)
    for k in range(sc["its"]):
        kw = rng.randrange(m)
        L = float(h.walkers[kw].logL)
        low = rng.choice([-1e300, L, L, L + .2 * abs(L), L - .3 * abs(L)])
        rng.choice(engs).execute(kw, low, append=False, iteration=0)
    return ev


def sc_solve(sc):
    rng = random.Random(sc["seed"])
    c = gen(rng)
    pb = real(c, rng)
    ev = [{"op": "reset"}, problem(c, pb)]
    m, d = rng.randint(4, 8), rng.choice([1, 1, 1, 2, 3])
    engs = rng.choice([None, ["move", "reverse"], ["move", "loop", "near"], ["shuffle", "switch"], rng.sample(sorted(ENGS), 3)])
    if engs and c["dis"] in ("spherical", "table"):
        engs = [e for e in engs if e != "loop"] or ["move"]
    seed = rng.randrange(10 ** 6)
    its = rng.randint(3, sc["its"])

    def run(watch):
        np.random.seed(rng.randrange(10 ** 6))
        ns = bf.NestedSolver(pb.copy() if rng.random() < .3 else pb, ensemble=m, discard=d, engines=engs, seed=seed, verbose=0,
                             distribution=rng.choice([None, "distance", DistanceCostFunction()]))
        ns.minimumIterations, ns.maxIterations = 1, its
        if watch:
            wt = Watch(ns, ev)

            def before():
                if wt.last is None:
                    wt.start(m, d)
            for e in ns.engines:
                wt.wrap(e, before)
        best = ns.solve()
        return ns, best, [(float(s.logL), tour(s.allpars)) for s in ns.samples]
    ns, best, a = run(True)
    _, _, b = run(False)
    ev.append({"op": "end", "z": num(ns.logZ), "best": {"L": num(best.logL), "p": tour(best.allpars)}, "again": a == b,
               "smp": [{"L": num(s.logL), "lw": num(s.logW), "p": tour(s.allpars)} for s in ns.samples]})
    return ev


def c30(ctx):
    ctx.mc("MC_Order", "MC_Order.cfg")
    ev = ctx.drive(sc_cost, [{"seed": H(ctx.seed, "C30c", k)} for k in range(ctx.pick(200, 4000))])
    ev += ctx.drive(sc_engines, [{"seed": H(ctx.seed, "C30e", k), "its": 12} for k in range(ctx.pick(150, 3000))])
    ev += ctx.drive(sc_solve, [{"seed": H(ctx.seed, "C30s", k), "its": ctx.pick(12, 40)} for k in range(ctx.pick(80, 1500))])
    ctx.validate("Tr_Order", ev)


CHECKS = {"C30": c30}
