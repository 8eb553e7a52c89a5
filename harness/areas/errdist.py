"""Error distributions and problems: C16 - C19."""
import math
import random
import numpy as np
import BayesicFitting as bf
from BayesicFitting.source.Tools import setAttribute as setatt
from vlib import num, vec, mat, h as H
from areas.models import base, link, chain, cpar, parkinds, value, F, simple, tin, tout
from areas.fit import linear_chain, nl_chain, xs, r3

SIMPLE = ["Gauss", "Laplace", "Cauchy", "Exponential", "Uniform"]


# ------------------------------------------------------------------ problems
def gen_problem(rng, kind=None):
    """A problem, its parameters, and the kinds of error distribution that go with it."""
    kind = kind or rng.choice(["classic"] * 6 + ["multi", "multi", "class", "xy", "xy", "poisson", "poisson", "coin"])
    n = rng.randint(3, 7)
    nin, nout, cyc, what = 1, 1, "none", kind
    if kind == "classic":
        u = rng.random()
        if u < .4:
            ch, nin = linear_chain(rng)
            p = [rng.uniform(-1.5, 1.5) for _ in range(cpar(ch))]
        elif u < .7:
            ch, p = nl_chain(rng)
        else:
            ch = [link("0", simple(rng, rng.choice([(1, 1), (1, 1), (2, 1)])))]
            nin = tin(ch[0]["t"])
            p = [value(rng, k) for k in parkinds(ch[0]["t"])]
        if rng.random() < .2:
            cyc = r3(rng.choice([0.8, 2.0, 6.283]))
    elif kind == "poisson":
        what = "classic"
        ch, p = nl_chain(rng)
        p = [abs(v) + .2 for v in p]
    elif kind == "coin":
        what = "classic"
        if rng.random() < .5:
            ch, p = [link("0", base("Logistic"))], [rng.uniform(.3, .95), rng.uniform(-1, 1), rng.uniform(.5, 2)]
        else:
            nin = rng.randint(1, 3)
            ch = [link("0", base("SoftMax", nin=nin, nout=1, offset=rng.random() < .5, normed=True))]
            p = [rng.uniform(-1.5, 1.5) for _ in range(cpar(ch))]
    elif kind == "class":
        nin, nout = rng.randint(1, 3), rng.randint(2, 3)
        ch = [link("0", base("SoftMax", nin=nin, nout=nout, offset=rng.random() < .5, normed=True))]
        p = [rng.uniform(-1.5, 1.5) for _ in range(cpar(ch))]
    elif kind == "multi":
        nin, nout = rng.randint(1, 2), rng.randint(2, 3)
        ch = [link("0", base("SoftMax", nin=nin, nout=nout, offset=rng.random() < .5, normed=rng.random() < .5))]
        p = [rng.uniform(-1.5, 1.5) for _ in range(cpar(ch))]
        if rng.random() < .3:
            cyc = r3(rng.choice([0.8, 2.0]))
    else:
        ch, p = nl_chain(rng)
        n = min(n, 5)
    p = [float(r3(v)) for v in p]
    x = xs(rng, n, nin)
    if kind in ("poisson", "coin") or rng.random() < .5:
        x = [[r3(abs(F(v)) + .05) for v in row] for row in x]
    pb = {"kind": what, "ch": ch, "x": x, "w": [], "acc": [], "cyc": cyc}
    m = model(pb)
    xd = np.array([[F(v) for v in row] for row in x])
    yf = np.asarray(m.result(xd if nin > 1 else xd[:, 0], np.array(p)), dtype=float).reshape(n, -1)
    if kind == "class":
        y = [rng.randrange(nout) for _ in range(n)]
    elif kind == "coin":
        y = [rng.randrange(2) for _ in range(n)]
    elif kind == "poisson":
        y = [max(0, int(round(v + rng.uniform(-2, 3)))) for v in yf[:, 0]]
    else:
        y = [float(r3(v + rng.uniform(-1.2, 1.2))) for v in yf.ravel()]
    pb["y"] = [num(v) for v in y]
    u = rng.random()
    if kind == "xy":
        pb["w"] = weights(rng, n)
        pb["acc"] = accuracy(rng, pb)
    elif kind in ("classic", "multi"):
        pb["w"] = weights(rng, len(y) if rng.random() < .5 else n)
        pb["acc"] = accuracy(rng, pb)
    return pb, p


def weights(rng, n):
    return [] if rng.random() < .5 else [r3(rng.choice([.2, .5, 1, 1.5, 2, 3])) for _ in range(n)]


def accuracy(rng, pb):
    n = len(pb["x"])
    if rng.random() < .5:
        return []
    if pb["kind"] == "xy":
        rows = []
        for _ in range(1 if rng.random() < .5 else n):
            a, b, r = rng.uniform(.2, 1), rng.uniform(.2, 1), rng.choice([0, 0, .5, -.3])
            rows.append([num(a * a), num(b * b), num(a * b * r)])
        return rows
    k = rng.choice([1, n, len(pb["y"])])
    return [r3(rng.uniform(.3, 1.5)) for _ in range(k)]


def model(pb):
    m = chain(pb["ch"])
    if pb["cyc"] != "none":
        setatt(m, "cyclic", {1: F(pb["cyc"])} if pb["kind"] == "multi" else F(pb["cyc"]))
    return m


def arr(v, shape=None):
    a = np.array([F(w) for w in v])
    return a if shape is None else a.reshape(shape)


def acc_args(pb, rng):
    """The accuracies as arguments of ErrorsInXandYProblem."""
    if not pb["acc"]:
        return {}
    rows = np.array([[F(v) for v in r] for r in pb["acc"]])
    if rng.random() < .5:
        cov = np.array([[[r[0], r[2]], [r[2], r[1]]] for r in rows])
        return {"covar": cov[0] if len(cov) == 1 else cov}
    a = np.sqrt(rows[:, :2])
    r = rows[:, 2] / (a[:, 0] * a[:, 1])
    if np.any(r != 0):
        a = np.column_stack([a, r])
    elif rng.random() < .5 and len(a) == 1 and a[0, 0] == a[0, 1]:
        return {"accuracy": float(a[0, 0])}
    return {"accuracy": a[0] if len(a) == 1 else a}


def real(pb, rng):
    m = model(pb)
    n = len(pb["x"])
    x = np.array([[F(v) for v in r] for r in pb["x"]])
    if x.shape[1] == 1:
        x = x[:, 0]
    w = None if not pb["w"] else arr(pb["w"])
    y = arr(pb["y"])
    if pb["kind"] == "xy":
        return bf.ErrorsInXandYProblem(model=m, xdata=x, ydata=y, weights=w, prior=bf.GaussPrior(scale=1.0), **acc_args(pb, rng))
    a = pb["acc"]
    a = None if not a else F(a[0]) if len(a) == 1 and (n > 1 or rng.random() < .5) else arr(a)
    if pb["kind"] == "multi":
        if w is not None and len(w) > n:
            w = w.reshape(n, -1)
        if isinstance(a, np.ndarray) and len(a) > n:
            a = a.reshape(n, -1)
        return bf.MultipleOutputProblem(model=m, xdata=x, ydata=y.reshape(n, -1), weights=w, accuracy=a)
    if pb["kind"] == "class" or rng.random() < .3 and all(float(v) == int(float(v)) for v in y):
        y = y.astype(int)
    return bf.ClassicProblem(model=m, xdata=x, ydata=y, weights=w, accuracy=a)


def spread(v, n, ny):
    """Weights or accuracies, as they are kept in a problem with several outputs."""
    a = arr(v)
    return np.repeat(a, ny // n) if len(a) == n and ny > n else a


# ------------------------------------------------------------------ the world
CLS = {"Gauss": bf.GaussErrorDistribution, "Laplace": bf.LaplaceErrorDistribution, "Cauchy": bf.CauchyErrorDistribution,
       "Exponential": bf.ExponentialErrorDistribution, "Uniform": bf.UniformErrorDistribution,
       "Poisson": bf.PoissonErrorDistribution, "Bernoulli": bf.BernoulliErrorDistribution, "Gauss2d": bf.Gauss2dErrorDistribution}


class World:
    def __init__(self, rng):
        self.rng, self.ev = rng, []
        self.P, self.E, self.pars, self.spec, self.kind, self.sub, self.con = {}, {}, {}, {}, {}, {}, {}
        self.dead = False

    def do(self, e, fn, views=True):
        if self.dead:
            return
        e = dict(e, exc="", views=[])
        try:
            r = fn()
            if isinstance(r, dict):
                e.update(r)
            if views:
                e["views"] = [self.view(i) for i in sorted(self.E)]
        except Exception as x:
            e["exc"] = type(x).__name__ + ": " + str(x)[:150]
            self.dead = True
        self.ev.append(e)

    # -- distributions
    def nh(self, i):
        return len(self.E[i].hyperpar)

    def view(self, i):
        ed = self.E[i]
        v = {"h": i, "n": int(ed.nphypar), "v": vec(ed.hypar), "free": [], "lo": [], "hi": [], "names": [ed.hyparname(k) for k in range(self.nh(i))],
             "map": [], "bound": "none"}
        full = True
        for k, hp in enumerate(ed.hyperpar):
            lim = None
            if hp.prior is None:
                full = False
            elif hp.isBound():
                lim = hp.getLimits()
            v["free"].append(bool(not hp.isFixed and hp.prior is not None and hp.isBound()))
            v["lo"].append("none" if lim is None else num(lim[0]))
            v["hi"].append("none" if lim is None else num(lim[1]))
            if lim is not None:
                for u, ks in ((.2, k), (.7, k - self.nh(i))):
                    d = ed.unit2Domain(u, ks)
                    v["map"].append({"j": k + 1, "u": num(u), "d": num(d), "uu": num(ed.domain2Unit(d, ks))})
        if full:
            v["bound"] = "yes" if ed.isBound() else "no"
        return v

    def new(self, i, kind, v, lo, hi):
        def fn():
            lim = None
            if lo and lo[0] != "none":
                lim = [[F(a) for a in lo], [F(a) for a in hi]] if len([a for a in lo if a != "none"]) > 1 else [F(lo[0]), F(hi[0])]
            kw = {}
            if v:
                kw["scale"] = F(v[0])
            if kind == "Exponential":
                kw["power"] = F(v[1])
            if v:
                kw["limits"] = lim
            self.E[i] = CLS[kind](**kw)
        self.kind[i], self.sub[i], self.con[i] = kind, None, False
        self.do({"op": "new", "h": i, "kind": kind, "v": v, "lo": lo, "hi": hi}, fn)

    def mix(self, i, a, b, v, lo, hi):
        def fn():
            self.E[i] = bf.MixedErrorDistribution(self.E[a], self.E[b], fraction=F(v), limits=None if lo == "none" else [F(lo), F(hi)])
        self.kind[i], self.sub[i], self.con[i] = "Mixed", (self.full(a), self.full(b)), False
        self.do({"op": "mix", "h": i, "a": a, "b": b, "v": v, "lo": lo, "hi": hi}, fn)

    def full(self, i):
        return (self.kind[i], self.sub[i])

    def leaves(self, i):
        def of(f):
            return [f[0]] if f[1] is None else of(f[1][0]) + of(f[1][1])
        return of(self.full(i))

    def limits(self, i, lo, hi):
        def fn():
            if len(lo) == 1:
                self.E[i].setLimits([F(lo[0]), F(hi[0])])
            else:
                self.E[i].setLimits([[F(a) for a in lo], [F(a) for a in hi]])
        self.do({"op": "limits", "h": i, "lo": lo, "hi": hi}, fn)

    def priors(self, i, lo, hi):
        def fn():
            ps = [bf.UniformPrior(limits=[F(a), F(b)]) for a, b in zip(lo, hi)]
            self.E[i].setPriors(ps[0] if len(ps) == 1 and self.rng.random() < .5 else ps)
        self.do({"op": "priors", "h": i, "lo": lo, "hi": hi, "pk": "Uniform"}, fn)

    def scale(self, i, v):
        self.do({"op": "scale", "h": i, "v": v}, lambda: setattr(self.E[i], "scale", F(v)))

    def keep(self, i, k, v):
        self.do({"op": "keep", "h": i, "k": k, "v": v}, lambda: self.E[i].keepFixed(None if k < 0 else {k: F(v)}) and None)

    def copy(self, i, a):
        def fn():
            self.E[i] = self.E[a].copy()
        self.kind[i], self.sub[i], self.con[i] = self.kind[a], self.sub[a], self.con[a]
        self.do({"op": "copy", "h": i, "a": a}, fn)

    def constrain(self, i, c, low):
        def fn():
            self.E[i].constrain = None if c is None else (lambda ll, pr, ap, lo: ll if ap[0] > c else lo - 1.0)
            self.con[i] = c is not None
            self.low = low
        self.do({"op": "constrain", "h": i, "con": [] if c is None else [num(c), num(low - 1.0)]}, fn)

    # -- problems
    def problem(self, q, pb, p):
        def fn():
            self.P[q], self.pars[q], self.spec[q] = real(pb, self.rng), p, dict(pb)
        self.do(dict(pb, op="problem", pb=q), fn, False)

    def pcopy(self, q, a):
        def fn():
            self.P[q], self.pars[q], self.spec[q] = self.P[a].copy(), self.pars[a], dict(self.spec[a])
        self.do({"op": "pcopy", "pb": q, "a": a}, fn, False)

    def weights(self, q, w):
        s = self.spec[q]
        s["w"] = w
        self.do({"op": "weights", "pb": q, "w": w},
                lambda: setattr(self.P[q], "weights", None if not w else spread(w, len(s["x"]), len(s["y"]))), False)

    def accuracy(self, q, acc):
        s = self.spec[q]
        s["acc"] = acc

        def fn():
            if s["kind"] == "xy":
                kw = acc_args(s, self.rng)
                if self.rng.random() < .5 and kw:
                    k = list(kw)[0]
                    setattr(self.P[q], k, kw[k])
                else:
                    self.P[q].setAccuracy(**kw)
            else:
                self.P[q].setAccuracy(None if not acc else F(acc[0]) if len(acc) == 1 else spread(acc, len(s["x"]), len(s["y"])))
        self.do({"op": "accuracy", "pb": q, "acc": acc}, fn, False)

    # -- observations
    def point(self, q):
        rng, s = self.rng, self.spec[q]
        p = [float(r3(v * rng.choice([1, 1, 1.1, .9]))) for v in self.pars[q]]
        if s["kind"] == "xy":
            p += [float(r3(F(r[0]) + rng.choice([0, .1, -.2]))) for r in s["x"]]
        return p

    def hypers(self, i):
        rng, out = self.rng, []

        def of(f):
            if f[0] == "Mixed":
                of(f[1][0])
                of(f[1][1])
                out.append(float(r3(rng.choice([.5, .2, .9]))))
            elif f[0] == "Exponential":
                out.append(float(r3(rng.uniform(.5, 2.5))))
                out.append(float(rng.choice([.8, 1.0, 1.3, 2.0, 2.0, 3.0])))
            elif f[0] == "Uniform":
                out.append(float(r3(rng.uniform(1, 4))))
            elif f[0] not in ("Poisson", "Bernoulli"):
                out.append(float(r3(rng.uniform(.3, 2))))
        of(self.full(i))
        return out

    def head(self, op, i, q, p, hy):
        return {"op": op, "h": i, "pb": q, "p": [num(v) for v in p], "hyp": [num(v) for v in hy]}

    def prep(self, i):
        if self.con[i]:
            self.E[i].lowLhood = float(self.low)

    def like(self, i, q):
        p, hy = self.point(q), self.hypers(i)
        if self.kind[i] == "Mixed" and self.rng.random() < .15:
            hy[-1] = self.rng.choice([0.0, 1.0])
        ap, ed, pr = np.array(p + hy), self.E[i], self.P[q]
        if self.con[i] and self.rng.random() < .4:
            ap[0] = p[0] = -abs(p[0]) - 3

        def fn():
            self.prep(i)
            r = {"L": num(ed.logLikelihood(pr, ap)), "data": vec(ed.logLdata(pr, ap)), "alt": "none", "mock": "none"}
            if self.kind[i] != "Mixed":
                r["alt"] = num(ed.logLikelihood_alt(pr, ap))
            if self.spec[q]["kind"] != "xy":
                r["mock"] = num(np.sum(ed.logLdata(pr, ap, mockdata=pr.result(np.array(p)))))
            return r
        self.do(self.head("like", i, q, p, hy), fn, False)

    def part(self, i, q):
        rng = self.rng
        p, hy = self.point(q), self.hypers(i)
        ap, ed, pr, s = np.array(p + hy), self.E[i], self.P[q], self.spec[q]
        np_, nh = len(p), len(hy)
        hs = list(range(-nh, 0))
        if s["acc"] and s["kind"] != "xy" and self.kind[i] != "Gauss":
            hs = [-1] if self.kind[i] in ("Exponential", "Mixed") else []
        full = rng.random() < .4
        if full:
            idx = list(range(np_)) + (hs if len(hs) == nh else [])
        else:
            idx = sorted(rng.sample(range(np_), rng.randint(0, np_))) + sorted(rng.sample(hs, rng.randint(0, len(hs))))
            idx = idx or ([0] if np_ else hs)
        if not idx:
            return self.like(i, q)

        def fn():
            fi = np.array(idx) if rng.random() < .5 else list(idx)
            r = {"idx": idx, "g": vec(ed.partialLogL(pr, ap, fi)), "alt": [], "num": []}
            if full and self.kind[i] != "Gauss2d" and not (self.con[i] and self.kind[i] == "Mixed"):
                r["alt"] = vec(ed.partialLogL_alt(pr, ap, fi))
            if not self.con[i] and rng.random() < .3 and s["kind"] != "xy":
                r["num"] = vec(ed.numPartialLogL(pr, ap, fi))
            return r
        self.do(self.head("part", i, q, p, hy), fn, False)

    def hess(self, i, q):
        rng = self.rng
        p, hy = self.point(q), self.hypers(i)
        ap = np.array(p + hy)
        idx = sorted(rng.sample(range(len(p)), rng.randint(1, len(p)))) + ([-1] if rng.random() < .6 else [])
        self.do(self.head("hess", i, q, p, hy), lambda: {"idx": idx, "m": mat(self.E[i].hessianLogL(self.P[q], ap, np.array(idx)))}, False)

    def scl(self, i, q):
        p, hy = self.point(q), self.hypers(i)
        ap, ed, pr, k = np.array(p + hy), self.E[i], self.P[q], self.kind[i]

        def fn():
            r = {"s": "none", "sig": "none"}
            if k in ("Gauss", "Laplace", "Uniform", "Exponential", "Poisson"):
                if k != "Exponential" and self.rng.random() < .3:
                    pr.model.parameters = np.array(p)
                    r["s"] = num(ed.getScale(pr))
                else:
                    r["s"] = num(ed.getScale(pr, allpars=ap))
            if k in ("Gauss", "Laplace", "Uniform"):
                r["sig"] = num(ed.toSigma(hy[0]))
            if k == "Exponential":
                r["sig"] = num(ed.toSigma(hy))
            return r
        self.do(self.head("scl", i, q, p, hy), fn, False)

    def look(self, q):
        p, pr, s = self.point(q), self.P[q], self.spec[q]

        def fn():
            ap = np.array(p)
            r = {"npars": int(pr.npars), "hasw": bool(pr.hasWeights()), "hasa": bool(pr.hasAccuracy), "res": [], "xres": [], "rsq": [], "sumw": "0", "par": []}
            r["var"] = []
            if s["kind"] == "xy":
                y, x = pr.getXYresiduals(ap)
                r.update(res=vec(y), xres=vec(x))
                r["var"] = [vec(np.broadcast_to(np.asarray(v, dtype=float), len(s["x"]))) for v in (pr.varyy, pr.varxx, pr.varxy)]
            else:
                r["res"] = vec(pr.residuals(ap) if self.rng.random() < .5 else pr.residuals(ap, mockdata=pr.result(ap)))
                r["rsq"] = vec(pr.weightedResSq(np.append(ap, [1.0])))
                r["sumw"] = num(pr.sumweight)
                r["par"] = mat(pr.partial(ap))
                if s["kind"] != "class":
                    r["var"] = [vec(np.broadcast_to(np.asarray(pr.varyy, dtype=float), len(s["y"])))]
            return r
        self.do({"op": "look", "pb": q, "p": [num(v) for v in p]}, fn, False)


def fits(w, i, q):
    """Distribution i can be used with problem q."""
    s, ls = w.spec[q], w.leaves(i)
    if s["kind"] == "xy":
        return ls == ["Gauss2d"]
    if "Gauss2d" in ls:
        return False
    if s["kind"] == "class" or s.get("what") == "coin":
        return ls == ["Bernoulli"]
    if "Bernoulli" in ls:
        return False
    if s.get("what") == "poisson":
        return not s["w"] or w.kind[i] != "Mixed"
    if "Poisson" in ls:
        return False
    return not (w.kind[i] == "Mixed" and s["w"])


def limit(rng, kind, j):
    if kind == "Exponential" and j == 1:
        return r3(rng.uniform(.5, 1.2)), r3(rng.uniform(2, 5))
    return r3(rng.uniform(.05, .5)), r3(rng.uniform(1, 20))


def new_random(w, i, kinds):
    rng = w.rng
    k = rng.choice(kinds)
    n = {"Exponential": 2, "Poisson": 0, "Bernoulli": 0}.get(k, 1)
    v = [r3(rng.uniform(.5, 2)), r3(rng.uniform(1, 3))][:n]
    lo, hi = ["none"] * n, ["none"] * n
    if n and rng.random() < .6:
        for j in range(n if rng.random() < .6 else 1):
            lo[j], hi[j] = limit(rng, k, j)
    w.new(i, k, v, lo, hi)


def use(w, focus, rng, count):
    for _ in range(count):
        pairs = [(i, q) for i in w.E for q in w.P if fits(w, i, q)]
        if w.dead or (not pairs and focus != "C19"):
            return
        if focus == "C19" or not pairs:
            w.look(rng.choice(list(w.P)) if all(w.spec[q]["kind"] != "class" for q in w.P) else
                   rng.choice([q for q in w.P if w.spec[q]["kind"] != "class"] or [1]))
            continue
        i, q = rng.choice(pairs)
        if focus == "C17":
            if w.kind[i] == "Gauss" and w.spec[q]["kind"] == "classic" and w.spec[q].get("lin") and rng.random() < .4:
                w.hess(i, q)
            else:
                w.part(i, q)
        elif rng.random() < .2 and w.spec[q]["kind"] in ("classic", "multi") and w.kind[i] in SIMPLE + ["Poisson"]:
            w.scl(i, q)
        else:
            w.like(i, q)


def sc_use(sc):
    """Problems that change and are copied, with distributions that go with them."""
    rng = random.Random(sc["seed"])
    w = World(rng)
    focus = sc["focus"]
    kind = None
    while True:
        pb, p = gen_problem(rng, kind)
        if focus != "C19" or pb["kind"] != "class":
            break
    bern = pb["kind"] == "class" or all(v in ("0", "1") for v in pb["y"]) and not pb["w"]
    what = "poisson" if pb["kind"] == "classic" and all(F(v) == int(F(v)) and F(v) >= 0 for v in pb["y"]) else None
    if pb["kind"] == "classic" and pb["ch"][0]["t"].get("z") in ("Logistic", "SoftMax") and all(v in ("0", "1") for v in pb["y"]):
        what = "coin"
    w.problem(1, pb, p)
    if w.dead:
        return w.ev
    lin = all(t["t"].get("z") in ("Polynomial", "Chebyshev", "Harmonic", "Splines", "Power", "SineAmp", "PolySurface") and t["op"] in "0+-" for t in pb["ch"])
    w.spec[1]["what"], w.spec[1]["lin"] = what, lin
    kinds = ["Gauss2d"] if pb["kind"] == "xy" else ["Bernoulli"] if pb["kind"] == "class" or what == "coin" else \
        ["Poisson", "Poisson"] + SIMPLE if what == "poisson" else SIMPLE
    if focus == "C17" and lin and rng.random() < .5:
        kinds = ["Gauss"]
    for i in range(1, rng.randint(2, 4)):
        new_random(w, i, kinds)
    if pb["kind"] in ("classic", "multi") and what != "coin" and rng.random() < .5:
        if pb["w"] and rng.random() < .7:
            w.weights(1, [])
        a, b = rng.choice(list(w.E)), rng.choice(list(w.E))
        w.mix(10, a, b, r3(rng.uniform(.2, .8)), "none", "none")
        if rng.random() < .25 and not w.dead:
            w.mix(11, *rng.choice([(10, a), (b, 10)]), r3(rng.uniform(.2, .8)), "0.1", "0.9")
    if rng.random() < .15 and focus == "C16" and not w.dead:
        w.constrain(rng.choice(list(w.E)), rng.choice([p[0] - 1, p[0] + 1]) if p else 0.0, -1234.5)
    use(w, focus, rng, 3)
    for _ in range(rng.randint(1, 4)):
        if w.dead:
            break
        op = rng.choice(["pcopy", "weights", "accuracy", "copy"])
        q = rng.choice(list(w.P))
        s = w.spec[q]
        plain = s["kind"] in ("classic", "multi") and s["what"] is None or s["kind"] == "xy"
        if op == "pcopy" and len(w.P) < 3:
            w.pcopy(len(w.P) + 1, q)
        elif op == "weights" and plain:
            w.weights(q, weights(rng, len(s["x"])) if rng.random() < .8 else [])
        elif op == "accuracy" and plain:
            w.accuracy(q, accuracy(rng, s))
        elif op == "copy" and len(w.E) < 5 and focus != "C19":
            w.copy(20 + len(w.E), rng.choice(list(w.E)))
        use(w, focus, rng, 2)
    return w.ev


def sc_hist(sc):
    """A history of distributions from the specification."""
    w = World(random.Random(sc["seed"]))
    for e in sc["acts"]:
        if w.dead:
            break
        i = e["h"]
        if op_missing(w, e):
            break
        if e["op"] == "new":
            w.new(i, e["kind"], e["v"], e["lo"], e["hi"])
        elif e["op"] == "mix":
            w.mix(i, e["a"], e["b"], e["v"], e["lo"], e["hi"])
        elif e["op"] == "limits":
            w.limits(i, e["lo"], e["hi"])
        elif e["op"] == "scale":
            w.scale(i, e["v"])
        elif e["op"] == "keep":
            w.keep(i, e["k"], e["v"])
        elif e["op"] == "copy":
            w.copy(i, e["a"])
    return w.ev


def op_missing(w, e):
    return any(e.get(k) not in (None,) and e.get(k) not in w.E for k in ("a", "b")) or (e["op"] not in ("new", "mix", "copy") and e["h"] not in w.E)


def sc_cells(sc):
    """A long random history of distributions."""
    rng = random.Random(sc["seed"])
    w = World(rng)
    new_random(w, 1, SIMPLE + ["Poisson"])
    for _ in range(rng.randint(4, 10)):
        if w.dead:
            break
        i = rng.choice(list(w.E))
        n, k = w.nh(i), w.kind[i]
        op = rng.choice(["new", "mix", "limits", "limits", "scale", "keep", "keep", "unkeep", "copy", "copy", "priors"])
        lv = []
        if n:
            lim = [(r3(rng.uniform(.05, .5)), r3(rng.uniform(.6, 5))) for _ in range(n)]
            lv = [a for a, _ in lim], [b for _, b in lim]
        j = max(w.E) + 1
        if op == "new" and len(w.E) < 5:
            new_random(w, j, SIMPLE + ["Poisson"])
        elif op == "mix" and len(w.E) < 5:
            a, b = i, rng.choice(list(w.E))
            if a != b and not (w.kind[a] == "Mixed" or w.kind[b] == "Mixed") or a != b and rng.random() < .3 and not share(w, a, b):
                lo = rng.choice(["none", "0.1"])
                w.mix(j, a, b, r3(rng.uniform(.2, .8)), lo, "none" if lo == "none" else "0.85")
        elif op == "limits" and n:
            w.limits(i, *lv)
        elif op == "priors" and n:
            w.priors(i, *lv)
        elif op == "scale" and k in SIMPLE:
            w.scale(i, r3(rng.uniform(.2, 3)))
        elif op == "keep" and n:
            w.keep(i, rng.randrange(n), r3(rng.uniform(.2, .9)))
        elif op == "unkeep":
            w.keep(i, -1, "0")
        elif op == "copy" and len(w.E) < 6:
            w.copy(j, i)
    return w.ev


def share(w, a, b):
    return any(x is y for x in w.E[a].hyperpar for y in w.E[b].hyperpar)


def check_use(focus):
    def check(ctx):
        ctx.mc("MC_ErrDist", "MC_ErrDist2.cfg")
        ctx.validate("Tr_ErrDist", ctx.drive(sc_use, [{"seed": H(ctx.seed, focus, k), "focus": focus} for k in range(ctx.pick(1000, 12000))]))
        ctx.assumptions += ["slopes are taken more than 1e-4 from the kinks and edges of a distribution", "predicted chances lie between 0 and 1"]
    return check


def c18(ctx):
    gen = ctx.mc("MC_ErrDist", "MC_ErrDist%d.cfg" % ctx.pick(4, 5))
    ctx.rng.shuffle(gen)
    ctx.validate("Tr_ErrDist", ctx.drive(sc_hist, [{"seed": k, "acts": a} for k, a in enumerate(gen[:ctx.pick(3000, 30000)])])
                 + ctx.drive(sc_cells, [{"seed": H(ctx.seed, "cells", k)} for k in range(ctx.pick(800, 8000))]))


CHECKS = {"C16": check_use("C16"), "C17": check_use("C17"), "C18": c18, "C19": check_use("C19")}
