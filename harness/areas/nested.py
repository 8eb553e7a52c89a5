"""Nested sampling: C20 - C24."""
import math
import random
import numpy as np
import BayesicFitting as bf
from BayesicFitting.source.WalkerList import WalkerList
from vlib import num, vec, mat, h as H
from areas.models import F, cpar
from areas.fit import r3
from areas.errdist import gen_problem, real, CLS, model as mkmodel, arr
from areas.priors import make

ENGINES = ["galilean", "chord", "gibbs", "step", "random"]


# ------------------------------------------------------------------ scenarios
def gen_prior(rng, v, positive):
    q = {"kind": "Uniform", "c": "0", "s": "1", "lo": "none", "hi": "none", "circ": "no"}
    if positive:
        k = rng.choice(["Uniform", "Uniform", "Jeffreys", "Exponential"])
        if k == "Exponential":
            q.update(kind=k, s=r3(v * rng.uniform(.7, 2)))
            if rng.random() < .5:
                q["hi"] = r3(v * rng.uniform(3, 5))
        else:
            q.update(kind=k, lo=r3(v * rng.uniform(.3, .7)), hi=r3(v * rng.uniform(1.5, 3)))
        return q
    k = rng.choice(["Uniform", "Uniform", "Gauss", "Laplace", "Cauchy", "CircularUniform"])
    if k in ("Gauss", "Laplace", "Cauchy"):
        q.update(kind=k, c=r3(v + rng.uniform(-.5, .5)), s=r3(rng.uniform(.3, 1)))
        if k == "Cauchy" or rng.random() < .4:
            q.update(lo=r3(v - rng.uniform(1, 2)), hi=r3(v + rng.uniform(1, 2)))
    else:
        q.update(kind=k, lo=r3(v - rng.uniform(.4, 2)), hi=r3(v + rng.uniform(.4, 2)))
    return q


def gen_dist(rng, pb, what, mixed=True):
    """Kind of error distribution with its hyperparameters [v, lo, hi] (limits "none": not to be fitted)."""
    if pb["kind"] == "class" or what == "coin":
        return {"kind": "Bernoulli", "sub": []}, []
    if what == "poisson" and rng.random() < .8:
        return {"kind": "Poisson", "sub": []}, []
    if pb["kind"] == "xy":
        kinds = ["Gauss2d"]
    else:
        kinds = ["Gauss", "Gauss", "Gauss", "Laplace", "Cauchy", "Exponential"]
        if mixed and not pb["w"] and not pb["acc"] and rng.random() < .12:
            (a, ha), (b, hb) = one_dist(rng, rng.choice(kinds[2:]), False), one_dist(rng, rng.choice(kinds[2:]), False)
            return {"kind": "Mixed", "sub": [a, b]}, ha + hb + [{"v": r3(rng.uniform(.2, .8)), "lo": "0", "hi": "1"}]
    k = rng.choice(kinds)
    return one_dist(rng, k, bool(pb["acc"]) and k not in ("Gauss", "Gauss2d"))


def one_dist(rng, k, fixscale):
    hyp = []
    for j in range(2 if k == "Exponential" else 1):
        free = rng.random() < .5 and not fixscale and (j == 0 or hyp[0]["lo"] != "none")
        v = r3(rng.uniform(.4, 1.5) if j == 0 else rng.uniform(1, 3))
        hyp.append({"v": v, "lo": r3(rng.uniform(.1, .4) if j == 0 else rng.uniform(.6, 1)) if free else "none",
                    "hi": r3(rng.uniform(2, 5)) if free else "none"})
    return {"kind": k, "sub": []}, hyp


def real_dist(d, hyp):
    k = d["kind"]
    if k == "Mixed":
        n = 2 if d["sub"][0]["kind"] == "Exponential" else 1
        return bf.MixedErrorDistribution(real_dist(d["sub"][0], hyp[:n]), real_dist(d["sub"][1], hyp[n:-1]), fraction=F(hyp[-1]["v"]),
                                         limits=[0.0, 1.0])
    kw = {}
    if hyp:
        kw["scale"] = F(hyp[0]["v"])
        if k == "Exponential":
            kw["power"] = F(hyp[1]["v"])
        free = [h for h in hyp if h["lo"] != "none"]
        if len(free) == 1:
            kw["limits"] = [F(free[0]["lo"]), F(free[0]["hi"])]
        elif len(free) == 2:
            kw["limits"] = [[F(h["lo"]) for h in free], [F(h["hi"]) for h in free]]
    return CLS[k](**kw)


def gen(rng, kinds=None, maxpar=4):
    while True:
        k = rng.choice(kinds or ["classic"] * 5 + ["multi", "class", "xy", "xy", "poisson", "poisson", "coin"])
        pb, p = gen_problem(rng, k)
        if pb["cyc"] != "none" or len(p) > maxpar or not p:
            continue
        z = {t["t"].get("z") for t in pb["ch"]}
        if k == "poisson" and not z <= {"Gauss", "Lorentz", "Exp"}:
            continue
        if k == "classic" and not z <= {"Polynomial", "Chebyshev", "Harmonic", "Splines", "Power", "SineAmp", "PolySurface", "Gauss", "Lorentz", "Exp",
                                        "Arctan", "Logistic", "Sine", "SinePhase"}:
            continue
        break
    nl = bool(z & {"Gauss", "Lorentz", "Exp", "Arctan", "Logistic", "Sine", "SinePhase"})
    what = k if k in ("poisson", "coin") else None
    pri = [gen_prior(rng, v, v > 0 and (k == "poisson" or nl and v > .2)) for v in p]
    if k == "poisson":
        pri = [q if q["kind"] not in ("Exponential", "Jeffreys") else dict(q, kind="Uniform", s="1", lo=r3(v * .4), hi=r3(v * 2.5))
               for q, v in zip(pri, p)]
    d, hyp = gen_dist(rng, pb, what)
    return pb, p, pri, d, hyp


# ------------------------------------------------------------------ recording
def snap(walkers):
    return [(num(w.logL), tuple(vec(w.allpars))) for w in walkers]


def W(s):
    return [{"L": a, "p": list(b)} for a, b in s]


class Recorder:
    """Follows a sampler through its engines."""
    def __init__(self, ns, cfg, start=None):
        self.ns, self.cfg, self.ev, self.last, self.nsmp = ns, cfg, [], None, 0
        self.started = False
        if start is None:
            start = bf.StartEngine(WalkerList(), ns.distribution, seed=cfg["seed"] % 2 ** 31)
        ns.initialEngine = start
        inner = start.execute

        def first(kw, low, *a, **k):
            r = inner(kw, low, *a, **k)
            self.last = snap(ns.walkers)
            self.fi = [int(v) for v in ns.walkers[kw].fitIndex]
            return r
        start.execute = first
        for eng in ns.engines:
            self.wrap(eng)

    def wrap(self, eng):
        inner = eng.execute

        def execute(kw, low, append=False, iteration=0, **k):
            self.start()
            ns = self.ns
            pre = snap(ns.walkers)
            e = {"op": "exec", "eng": str(eng), "kw": int(kw) + 1, "low": num(low), "it": int(iteration), "app": bool(append),
                 "pre": W(pre) if pre != self.last else [], "same": pre == self.last, "smp": self.samples() if self.cfg["step"] else []}
            ret = inner(kw, low, append=append, iteration=iteration, **k)
            post = snap(ns.walkers)
            e["chg"] = [{"k": i + 1, "L": a[0], "p": list(a[1])} for i, a in enumerate(post) if i >= len(pre) or pre[i] != a]
            e["n"], e["ret"] = len(post), int(ret)
            e["fi"] = [[int(v) for v in ns.walkers[c["k"] - 1].fitIndex] for c in e["chg"]]
            self.last = post
            self.ev.append(e)
            return ret
        eng.execute = execute

    def samples(self):
        s = self.ns.samples
        new = [{"L": num(x.logL), "lw": num(x.logW), "p": vec(x.allpars)} for x in s[self.nsmp:]]
        self.nsmp = len(s)
        return new

    def start(self):
        if not self.started:
            self.started = True
            self.ev.append(dict(self.cfg, op="start", fi=self.fi, W=W(self.last)))

    def end(self, ret):
        ns = self.ns
        self.start()
        s = ns.samples
        e = {"op": "end", "ret": num(ret), "z": num(ns.logZ), "ev": num(ns.evidence), "info": num(ns.info), "inf2": num(ns.information),
             "zp": num(ns.logZprecision), "prec": num(ns.precision), "sz": num(s.logZ), "sinfo": num(s.info), "sev": num(s.evidence),
             "it": int(ns.iteration), "norm": bool(s.normalized), "pre": W(self.last),
             "smp": [{"L": num(x.logL), "lw": num(x.logW), "p": vec(x.allpars), "id": int(x.id)} for x in s],
             "par": vec(ns.problem.model.parameters), "std": vec(ns.problem.model.stdevs),
             "npar": vec(ns.parameters), "nstd": vec(ns.stdevs), "hyp": vec(ns.hypars) if self.cfg["nh"] else [],
             "shyp": vec(ns.stdevHypars) if self.cfg["nh"] else []}
        self.ev.append(e)


def build(rng, pb, p, pri, d, hyp, eng, n=None, disc=1, keep=None, maxsize=None, step=0, late=False, **kw):
    ed = real_dist(d, hyp)
    prob = real(pb, rng)
    for k, q in enumerate(pri):
        prob.model.setPrior(k, make(q))
    seed = rng.randrange(10 ** 6)
    if late:
        keep0, keep1 = None, keep
        if keep and rng.random() < .5:          # another one, which is replaced by the one of the run
            keep0 = {rng.randrange(len(p)): float(r3(rng.uniform(.6, 1.5)))}
    else:
        keep0, keep1 = keep, None
    if step:
        ns = bf.PhantomSampler(problem=prob, distribution=ed, ensemble=n, keep=keep0, engines=eng, maxsize=maxsize, seed=seed, verbose=0, step=step)
    else:
        ns = bf.NestedSampler(problem=prob, distribution=ed, ensemble=n, discard=disc, keep=keep0, engines=eng, maxsize=maxsize, seed=seed, verbose=0)
    for k, v in kw.items():
        setattr(ns, k, v)
    return ns, keep1


def config(pb, pri, d, hyp, ns, n, disc, keep, maxsize, step, seed):
    np_ = cpar(pb["ch"])
    nuis = [{"kind": "Gauss", "c": x[0], "s": "1", "lo": "none", "hi": "none", "circ": "no"} for x in pb["x"]] if pb["kind"] == "xy" else []
    return {"pb": pb, "d": d, "pri": pri + nuis, "nm": np_, "nh": len(hyp), "hyp": hyp, "n": n, "disc": disc, "step": step,
            "keep": [{"k": k, "v": num(v)} for k, v in (keep or {}).items()], "max": maxsize or 0, "seed": seed,
            "c": {"min": int(ns.minimumIterations), "max": -1 if ns.maxIterations is None else int(ns.maxIterations), "tol": num(ns.tolerance),
                  "end": num(ns.end), "n": n, "d": disc}}


def gen_keep(rng, p, pri, d, hyp, npars):
    keep = {}
    for k in range(len(p)):
        if rng.random() < .35 and len(keep) < len(p) - 1 or len(p) == 1 and hyp and hyp[0]["lo"] != "none" and rng.random() < .2:
            keep[k] = float(r3(p[k]))
    for j, hy in enumerate(hyp):
        if hy["lo"] != "none" and rng.random() < .35 and len(keep) < npars:
            keep[npars + j if rng.random() < .5 else j - len(hyp)] = float(r3(rng.uniform(.6, 1.5)))
    ks = list(keep)
    rng.shuffle(ks)
    return {k: keep[k] for k in ks}


def sc_run(sc):
    """A run of the sampler on a random problem."""
    rng = random.Random(sc["seed"])
    np.random.seed(sc["seed"] % 2 ** 31)
    pb, p, pri, d, hyp = gen(rng, sc.get("kinds"), sc.get("maxpar", 4))
    npars = len(p) + (len(pb["x"]) if pb["kind"] == "xy" else 0)
    step = rng.choice([4, 5, 10]) if sc.get("phantom") else 0
    n = rng.choice([12, 20, 24, 30]) if step else rng.randint(4, 11)
    disc = max(1, n * step // 100) if step else rng.choice([1, 1, 1, 2, 3])
    keep = gen_keep(rng, p, pri, d, hyp, npars) if rng.random() < sc.get("pkeep", .4) else {}
    eng = None
    if rng.random() < .8:
        eng = rng.sample(ENGINES, rng.randint(1, 3))
    maxsize = rng.choice([None, None, rng.randint(5, 25)]) if not step else None
    kw = {"minimumIterations": rng.randint(3, sc.get("its", 25))}
    if rng.random() < .8:
        kw["maxIterations"] = rng.randint(5, sc.get("its", 25) + 10)
    if rng.random() < .3:
        kw["end"] = rng.choice([.5, 1.0, 3.0])
    if rng.random() < .3:
        kw["tolerance"] = rng.choice([-1.0, -3.0, -6.0])
    if rng.random() < .2:
        kw["rate"] = rng.choice([.5, 2.0])
    ns, keep1 = build(rng, pb, p, pri, d, hyp, eng, n, disc, keep or None, maxsize, step, rng.random() < .3, **kw)
    cfg = config(pb, pri, d, hyp, ns, n, disc, keep, maxsize, step, sc["seed"])
    rec = Recorder(ns, cfg)
    return follow(ns, rec, keep1)


def follow(ns, rec, keep=None):
    try:
        rec.end(ns.sample(keep=keep))
    except Exception as x:
        import traceback
        rec.ev.append({"op": "crash", "exc": type(x).__name__ + ": " + str(x)[:150] + traceback.format_exc()[-300:]})
    return rec.ev


# ------------------------------------------------------------------ histories of the specification
class Script(bf.Engine):
    """Puts the walkers where the history of the specification has them."""
    def __init__(self, walkers, errdis, ps):
        super().__init__(walkers, errdis)
        self.ps, self.k = [q for it in ps for q in it], 0

    def __str__(self):
        return "Script"

    def execute(self, kw, low, append=False, iteration=0):
        q, self.k = self.ps[self.k], self.k + 1
        w = self.walkers[kw]
        ap = np.array([float(q)] + list(w.allpars[1:]))
        self.setWalker(kw, w.problem, ap, self.errdis.logLikelihood(w.problem, ap), fitIndex=w.fitIndex)
        return 5


def sc_hist(sc):
    hist = sc["acts"]
    rng = random.Random(sc["seed"])
    n, disc, its = len(hist[0]), len(hist[1]), len(hist) - 1
    pb = {"kind": "classic", "ch": [{"op": "0", "t": {"k": "base", "z": "Polynomial", "deg": 0}}], "x": [["0"]], "y": ["0"], "w": [], "acc": [], "cyc": "none"}
    from areas.models import base, link
    pb["ch"] = [link("0", base("Polynomial", deg=0))]
    pri = [{"kind": "Uniform", "c": "0", "s": "1", "lo": "-4", "hi": "4", "circ": "no"}]
    d, hyp = {"kind": "Gauss", "sub": []}, [{"v": "1", "lo": "none", "hi": "none"}]
    maxsize = rng.choice([None, None, 3, 4, 6])
    ns, _ = build(rng, pb, [0.0], pri, d, hyp, None, n, disc, None, maxsize, minimumIterations=its, maxIterations=its - 1)
    ns.engines = [Script(WalkerList(), ns.distribution, hist[1:])]
    ns.engines[0].phantoms = ns.phantoms
    start = Script(WalkerList(), ns.distribution, hist[:1])
    inner = start.execute
    start.execute = lambda kw, low: inner(kw, low)
    cfg = config(pb, pri, d, hyp, ns, n, disc, {}, maxsize, 0, sc["seed"])
    rec = Recorder(ns, cfg, start)
    init = ns.initSample

    def initSample(*a, **k):
        r = init(*a, **k)
        ns.engines[0].walkers = ns.walkers
        return r
    ns.initSample = initSample
    return follow(ns, rec)


def c20(ctx):
    hs = ctx.mc("MC_Nested", "MC_Nested1.cfg") + ctx.mc("MC_Nested", "MC_Nested2.cfg")
    if ctx.tier == "thorough":
        hs += ctx.mc("MC_Nested", "MC_Nested3.cfg")
    ctx.validate("Tr_Nested", ctx.drive(sc_hist, [{"seed": H(ctx.seed, "C20h", k), "acts": a} for k, a in enumerate(hs)]))
    ctx.validate("Tr_Nested", ctx.drive(sc_run, [{"seed": H(ctx.seed, "C20", k), "its": 30, "phantom": k % 12 == 0} for k in range(ctx.pick(70, 1200))]))


def c21(ctx):
    ctx.mc("MC_Nested", "MC_Nested1.cfg")
    ctx.validate("Tr_Nested", ctx.drive(sc_run, [{"seed": H(ctx.seed, "C21", k), "its": 25, "phantom": k % 7 == 0} for k in range(ctx.pick(90, 1500))]))


def c23(ctx):
    ctx.mc("MC_Nested", "MC_Nested1.cfg")
    ctx.validate("Tr_Nested", ctx.drive(sc_run, [{"seed": H(ctx.seed, "C23", k), "its": 5, "pkeep": .9, "phantom": k % 10 == 0} for k in range(ctx.pick(170, 3000))]))


CHECKS = {"C20": c20, "C21": c21, "C23": c23}
