"""Fitters: C10 - C15.  Drives real fitters through histories of fits, with weights, accuracies,
kept parameters, normalizations and limits; the verdicts are those of specs/Tr_Fit.tla."""
import importlib
import random
import scipy.optimize
import numpy as np
import vlib
from vlib import num, vec, mat, enc
from areas.models import base, fix, link, chain, cpar, parkinds, value, F, KERNELS

OTHERS = ["NelderMeadFitter", "PowellFitter", "ConjugateGradientFitter", "BfgsFitter", "NewtonCgFitter",
          "LbfgsbFitter", "TncFitter", "SlsqpFitter", "TrustNcgFitter"]


# ------------------------------------------------------------------ scenarios
def r3(v):
    return num(round(float(v), 3))


def linear_chain(rng):
    """A chain that is linear in its parameters, with the number of inputs."""
    def term():
        k = rng.choice(["poly", "poly", "cheb", "harm", "spline", "power", "sine", "fixed"])
        if k == "poly":
            return base("Polynomial", deg=rng.randint(0, 3))
        if k == "cheb":
            return base("Chebyshev", deg=rng.randint(1, 3))
        if k == "harm":
            return base("Harmonic", deg=rng.randint(1, 2), period="2.7")
        if k == "spline":
            return base("Splines", knots=["-2", "-0.5", "0.8", "2.5"], deg=rng.randint(1, 3))
        if k == "power":
            return base("Power", exponent="2")
        if k == "sine":
            return base("SineAmp", freq="0.7")
        return base("Polynomial", [fix(0, r3(rng.uniform(-1, 1)))], deg=2)
    if rng.random() < 0.1:
        return [link("0", base("PolySurface", deg=rng.randint(1, 2)))], 2
    ch = [link("0", term())]
    while rng.random() < 0.3 and len(ch) < 2:
        t = rng.choice([base("SineAmp", freq="0.7"), base("Harmonic", deg=1, period="1.3")])
        if ch[0]["t"]["z"] in ("SineAmp", "Harmonic"):
            t = base("Polynomial", deg=rng.randint(0, 1))
        ch.append(link(rng.choice("+-"), t))
    return ch, 1


def xs(rng, n, nd):
    if nd == 1:
        x = sorted(rng.uniform(-1.8, 2.2) for _ in range(n))
        return [[r3(v + 0.001 * i)] for i, v in enumerate(x)]
    return [[r3(rng.uniform(-1.8, 2.2)) for _ in range(nd)] for _ in range(n)]


def weights(rng, n):
    u = rng.random()
    if u < 0.45:
        return []
    if u < 0.55:
        return [r3(1)] * n
    return [r3(rng.choice([0.2, 0.5, 1, 1.5, 2, 3]) if rng.random() < 0.9 else 0) for _ in range(n)]


def accuracy(rng, n, w):
    u = rng.random()
    if u < 0.55:
        return []
    if u < 0.75:
        return [r3(rng.uniform(0.1, 2))]
    return [r3(rng.uniform(0.2, 2)) for _ in range(n)]


def keeps(rng, np_, p, chance=0.4, near=False):
    if rng.random() > chance or np_ == 0:
        return []
    k = rng.sample(range(np_), rng.randint(1, np_) if rng.random() < 0.3 else 1)
    rng.shuffle(k)
    if near:
        return [{"i": i, "v": r3(float(p[i]) * rng.choice([1, 1.04, 0.95]))} for i in k]
    return [{"i": i, "v": r3(float(p[i]) + rng.choice([0, 0.1, -0.3]))} for i in k]


def setpri(rng, ch, p, tight):
    """Uniform priors on all parameters of the chain; tight: the truth may be outside."""
    off = 0
    for q in ch:
        n = cpar([q])
        q["pri"] = []
        for k in range(n):
            v = float(p[off + k])
            d = rng.uniform(0.5, 3)
            lo, hi = (v + 0.2, v + d) if tight and rng.random() < 0.4 else (v - d, v + d)
            q["pri"].append({"kd": "Uniform", "lo": r3(lo), "hi": r3(hi)})
        off += n


def linear_scen(rng, focus):
    ch, nd = linear_chain(rng)
    np_ = cpar(ch)
    n = np_ + rng.randint(3, 9)
    if focus == "C11" and rng.random() < 0.1:
        n = max(2, np_)
    p = [r3(rng.uniform(-1.5, 1.5)) for _ in range(np_)]
    x = xs(rng, n, nd)
    kind = rng.choice(["Fitter", "Fitter", "QRFitter"])
    haspri = rng.random() < (0.7 if focus == "C15" else 0.25)
    if haspri:
        setpri(rng, ch, p, rng.random() < 0.6)
    keep0 = keeps(rng, np_, p, 0.5 if focus == "C12" else 0.25)
    ev = [{"op": "new", "kind": kind, "ch": ch, "x": x, "keep": keep0, "p0": [r3(rng.uniform(-1, 1)) for _ in range(np_)],
           "fixed": r3(rng.uniform(0.3, 2)) if kind == "Fitter" and rng.random() < 0.4 else "none"}]
    for _ in range(rng.randint(1, 4)):
        u = rng.random()
        if u < 0.12:
            ev.append({"op": "norm", "row": [r3(rng.choice([0, 1, 1, 0.5])) for _ in range(np_)], "d": r3(rng.uniform(-2, 2)),
                       "w": r3(rng.choice([0.5, 1, 4]))})
        elif u < 0.2:
            ev.append({"op": "minscale", "s": r3(rng.uniform(0.1, 1))})
        elif u < 0.26:
            ev.append({"op": "setp", "p": [r3(rng.uniform(-1, 1)) for _ in range(np_)]})
        w = weights(rng, n)
        acc = accuracy(rng, n, w)
        g = rng.random() < (0.6 if focus == "C12" else 0.3)
        how = "fit" if rng.random() < 0.7 else "modelFit" if rng.random() < 0.3 or not haspri else "limitsFit"
        ev.append({"op": "fit", "how": how, "y": None, "p": p, "noise": r3(rng.choice([0.02, 0.2, 0.8])),
                   "seed": rng.randrange(10 ** 6), "w": w, "acc": acc if how == "fit" else [], "given": g,
                   "keep": keeps(rng, np_, p, 0.85) if g else [], "par0": [], "limits": []})
        more = []
        if rng.random() < (0.9 if focus in ("C11", "C12") else 0.5):
            more.append({"op": "stat"})
        if rng.random() < (0.95 if focus == "C15" else 0.2) and not (len(acc) > 1 and w):
            more.append(evidence(rng, np_, p))
        rng.shuffle(more)
        if more and rng.random() < 0.4:
            more.insert(0, {"op": "touch", "what": rng.choice(["hessian", "design", "getHessian", "yfit"])})
        ev += more
    return ev


def evidence(rng, np_, p):
    u = rng.random()
    if u < 0.4 or np_ == 0:
        lims = []
    elif u < 0.6:
        lims = [[r3(-rng.uniform(3, 20))], [r3(rng.uniform(3, 20))]]
    else:
        lims = [[r3(float(v) - rng.uniform(1, 6)) for v in p], [r3(float(v) + rng.uniform(1, 6)) for v in p]]
    return {"op": "ev", "lims": lims, "noise": [] if rng.random() < 0.5 else [r3(rng.uniform(0.001, 0.1)), r3(rng.uniform(2, 20))]}


def from_history(hist, kind):
    """A behaviour of MC_Fit as a scenario."""
    ev = []
    for e in hist:
        e = dict(e)
        if e["op"] == "new":
            e.update(kind=kind, ch=[link("0", base("Polynomial", deg=1))], p0=["0", "0"], fixed="none")
            ev.append(e)
        elif e["op"] == "fit":
            e.update(how="fit", par0=[], limits=[])
            ev += [e, {"op": "stat"}]
            if not (len(e["acc"]) > 1 and e["w"]):
                ev.append({"op": "ev", "lims": [["-10"], ["12"]], "noise": ["0.01", "10"]})
        else:
            ev.append(e)
    return ev


def nl_chain(rng):
    """A nonlinear chain with its true parameters."""
    k = rng.choice(["Gauss", "Lorentz", "Exp", "Arctan", "Logistic", "Sine", "GaussPoly", "ExpPoly", "SinePhase", "fixed"])
    u = rng.uniform
    if k == "Gauss":
        return [link("0", base("Gauss"))], [u(1, 3), u(-0.5, 0.8), u(0.4, 0.9)]
    if k == "Lorentz":
        return [link("0", base("Lorentz"))], [u(1, 3), u(-0.5, 0.8), u(0.4, 0.9)]
    if k == "Exp":
        return [link("0", base("Exp", decay=True))], [u(1, 3), u(0.3, 0.9)]
    if k == "Arctan":
        return [link("0", base("Arctan"))], [u(1, 2), u(-0.3, 0.3), u(0.8, 2)]
    if k == "Logistic":
        return [link("0", base("Logistic"))], [u(1, 3), u(-0.3, 0.3), u(0.3, 0.6)]
    if k == "Sine":
        return [link("0", base("Sine"))], [u(0.4, 0.6), u(0.5, 1.5), u(0.5, 1.5)]
    if k == "SinePhase":
        return [link("0", base("SinePhase"))], [u(1, 2), u(0.4, 0.6), u(0.3, 1.2)]
    if k == "GaussPoly":
        return [link("0", base("Gauss")), link("+", base("Polynomial", deg=1))], [u(2, 3), u(-0.3, 0.6), u(0.3, 0.6), u(-1, 1), u(-0.5, 0.5)]
    if k == "fixed":
        return [link("0", base("Gauss", [fix(1, "0.3")])), link("+", base("Polynomial", deg=0))], [u(2, 3), u(0.3, 0.6), u(-1, 1)]
    return [link("0", base("Exp", decay=True)), link("+", base("Polynomial", deg=0))], [u(1, 3), u(0.6, 1.2), u(-1, 1)]


def nonlinear_scen(rng, kinds):
    kind = rng.choice(kinds)
    ch, p = nl_chain(rng)
    p = [r3(v) for v in p]
    np_ = len(p)
    n = rng.randint(20, 30)
    x = xs(rng, n, 1)
    start = [r3(float(v) * rng.uniform(0.92, 1.08)) for v in p]
    if rng.random() < 0.35 and kind in ("CurveFitter", "LevenbergMarquardtFitter"):
        setpri(rng, ch, p, False)
    if kind == "AmoebaFitter" and ch[0]["t"]["z"] == "Exp" and np_ == 2 and rng.random() < 0.5:
        start = ["1", "1"]
    keep0 = keeps(rng, np_, p, 0.25, True)
    if len(keep0) > np_ - 2:
        keep0 = keep0[:1]
    ev = [{"op": "new", "kind": kind, "ch": ch, "x": x, "keep": keep0, "p0": start, "fixed": "none"}]
    for _ in range(rng.randint(1, 3)):
        if kind in ("CurveFitter", "LevenbergMarquardtFitter") and rng.random() < 0.1:
            row = [r3(rng.choice([0, 1])) for _ in range(np_)]
            ev.append({"op": "norm", "row": row, "d": r3(sum(float(a) * float(b) for a, b in zip(row, p))), "w": r3(rng.choice([1, 4]))})
        w = weights(rng, n)
        acc = accuracy(rng, n, w)
        g = rng.random() < 0.3
        k = keeps(rng, np_, p, 0.85, True) if g else []
        if len(k) > np_ - 2:
            k = k[:1]
        if len(ev) > 1 or rng.random() < 0.5:
            ev.append({"op": "setp", "p": [r3(float(v) * rng.uniform(0.92, 1.08)) for v in p]})
        par0 = [] if rng.random() < 0.5 else [r3(float(v) * rng.uniform(0.92, 1.08)) for v in p]
        lims = []
        if rng.random() < 0.25 and kind in ("CurveFitter", "AmoebaFitter", "LbfgsbFitter", "TncFitter", "SlsqpFitter") \
                and not any(q["pri"] for q in ch):
            lims = [[r3(float(v) - 1) for v in p], [r3(float(v) + 1) for v in p]]
            u = rng.random()
            if u < 0.3:
                lims = [["-10"], ["10"]]
            elif u < 0.7 and kind in ("CurveFitter", "AmoebaFitter") and not k and not keep0:
                # the best parameters are out of reach
                i = rng.randrange(np_)
                v, s = float(p[i]), rng.uniform(0.12, 0.3) * abs(float(p[i]))
                lims = [[r3(float(q) - 3) for q in p], [r3(float(q) + 3) for q in p]]
                side = rng.randrange(2)
                lims[side][i] = r3(v + s if side == 0 else v - s)
                par0 = [r3(float(q) * rng.uniform(0.95, 1.05)) for q in p]
                par0[i] = r3(v + 1.7 * s if side == 0 else v - 1.7 * s)
        ev.append({"op": "fit", "how": "fit", "y": None, "p": p, "noise": r3(rng.choice([0.02, 0.1])),
                   "seed": rng.randrange(10 ** 6), "w": w, "acc": acc, "given": g, "keep": k, "par0": par0, "limits": lims})
        if rng.random() < 0.5:
            ev.append({"op": "stat"})
        if rng.random() < 0.3 and not (len(acc) > 1 and w):
            ev.append(evidence(rng, np_, p))
    return ev


def robust_scen(rng):
    ch, nd = linear_chain(rng)
    while cpar(ch) > 4:
        ch, nd = linear_chain(rng)
    np_ = cpar(ch)
    n = 4 * np_ + rng.randint(6, 12)
    p = [r3(rng.uniform(-1.5, 1.5)) for _ in range(np_)]
    keep0 = keeps(rng, np_, p, 0.2)
    kind = rng.choice(["Fitter", "Fitter", "QRFitter"])
    ev = [{"op": "new", "kind": kind, "ch": ch, "x": xs(rng, n, nd), "keep": keep0,
           "p0": [r3(rng.uniform(-1, 1)) for _ in range(np_)], "fixed": "none"}]
    for _ in range(rng.randint(1, 2)):
        k = rng.choice([q for q in KERNELS if q != "Sinc"])
        ev.append({"op": "robust", "y": None, "p": p, "noise": "0.1", "seed": rng.randrange(10 ** 6), "outliers": rng.randint(0, 4),
                   "w": weights(rng, n), "kernel": k, "domain": "default" if rng.random() < 0.5 else r3(rng.uniform(2.5, 7)),
                   "onesided": rng.choice(["none", "none", "positive", "negative"]), "at": rng.choice(["init", "fit"]),
                   "maxit": rng.choice([0, 1, 3, 20, 20, 20]), "tol": "0.0001"})
    return ev


# ------------------------------------------------------------------ driver
def kd(keep):
    return {k["i"]: float(k["v"]) for k in keep}


def setprior(m, ch, k=0):
    for q in ch:
        for i, pr in enumerate(q["pri"]):
            m.setPrior(k + i, prior=None, limits=[float(pr["lo"]), float(pr["hi"])])
        k += cpar([q])


class Driver:
    def __init__(self):
        self.ev = []

    def run(self, sc):
        for e in sc:
            e = dict(e)
            getattr(self, e["op"])(e)
        return self.ev

    def put(self, e):
        self.ev.append(e)

    def xarr(self, x):
        a = np.array([[float(v) for v in r] for r in x])
        return a[:, 0].copy() if a.shape[1] == 1 else a

    def new(self, e):
        import BayesicFitting as bf
        self.m = chain(e["ch"])
        lo, hi = [], []
        for q in e["ch"]:
            for k in range(cpar([q])):
                pr = (q["pri"] or [{"lo": "-inf", "hi": "inf"}])
                pr = pr[min(k, len(pr) - 1)]
                lo.append(pr["lo"])
                hi.append(pr["hi"])
        self.lo, self.hi = lo, hi
        off = 0
        for q in e["ch"]:
            for i, pr in enumerate(q["pri"]):
                self.m.setPrior(off + i, prior=bf.UniformPrior(limits=[float(pr["lo"]), float(pr["hi"])]))
            off += cpar([q])
        if len(e["p0"]):
            self.m.parameters = np.array([float(v) for v in e["p0"]])
        self.x = self.xarr(e["x"])
        self.kind = e["kind"]
        kw = {}
        if e["keep"]:
            kw["keep"] = kd(e["keep"])
        if e["fixed"] != "none":
            kw["fixedScale"] = float(e["fixed"])
        if self.kind in ("LevenbergMarquardtFitter", "AmoebaFitter") or self.kind in OTHERS:
            kw["verbose"] = 0
        e["exc"] = ""
        try:
            self.f = getattr(bf, self.kind)(self.x, self.m, **kw)
        except Exception as ex:
            e["exc"] = type(ex).__name__ + ": " + str(ex)[:80]
        e["p"] = vec(self.m.parameters) if len(e["p0"]) else []
        self.put(e)

    def norm(self, e):
        self.f.normalize([float(v) for v in e["row"]], float(e["d"]), weight=float(e["w"]))
        self.put(e)

    def minscale(self, e):
        self.f.setMinimumScale(float(e["s"]))
        self.put(e)

    def setp(self, e):
        self.m.parameters = np.array([float(v) for v in e["p"]])
        self.put(e)

    def touch(self, e):
        try:
            getattr(self.f, e["what"])() if e["what"].startswith("get") else getattr(self.f, e["what"])
        except Exception:
            pass

    def data(self, e):
        """The data of the event: the model at its true parameters plus noise; or as given."""
        if e["y"] is None:
            rng = np.random.RandomState(e.pop("seed"))
            p = np.array([float(v) for v in e["p"]])
            y = self.m.result(self.x, p) if len(p) else self.m.result(self.x, np.zeros(0))
            y = y + float(e.pop("noise")) * rng.standard_normal(len(self.x))
            for _ in range(e.pop("outliers", 0)):
                y[rng.randint(len(y))] += rng.choice([-1, 1]) * rng.uniform(1.5, 6)
            y = np.round(y, 4)
            e["y"] = vec(y)
            return y
        return np.array([float(v) for v in e["y"]])

    def fit(self, e):
        y = self.data(e)
        w = np.array([float(v) for v in e["w"]]) if e["w"] else None
        acc = None if not e["acc"] else float(e["acc"][0]) if len(e["acc"]) == 1 else np.array([float(v) for v in e["acc"]])
        par0 = np.array([float(v) for v in e["par0"]]) if e["par0"] else None
        keep = kd(e["keep"]) if e["given"] else None
        kw = {}
        if keep is not None:
            kw["keep"] = keep
        if w is not None:
            kw["weights"] = w
        if acc is not None:
            kw["accuracy"] = acc
        if par0 is not None:
            kw["inipar" if self.kind == "CurveFitter" else "par0"] = par0
        lo, hi = list(self.lo), list(self.hi)
        if e["limits"]:
            n = len(lo)
            lo, hi = [q * n if len(q) == 1 else list(q) for q in e["limits"]]
            kw["limits"] = [np.array([float(v) for v in q]) if len(q) > 1 else float(q[0]) for q in e["limits"]]
        if self.kind == "AmoebaFitter":
            kw["maxiter"] = 5000
            kw["tolerance"] = 1e-8
            kw["size"] = 0.1
        if self.kind == "LevenbergMarquardtFitter":
            kw["tolerance"] = 1e-8
        before = [repr(q) for q in (y, w, acc, par0, keep, self.x)]
        e["exc"], e["ret"], e["lo"], e["hi"] = "", [], lo, hi
        e["chisq"] = e["sumwgt"] = "nan"
        e["npfit"], e["yfit"], e["same"], e["changed"] = -1, [], True, ""
        e["ok"], e["asked"] = True, []
        if self.kind in OTHERS:
            self.listen(e)
        try:
            ret = getattr(self.f, e["how"])(y, **kw)
            if e["how"] == "modelFit":
                e["ret"] = vec(self.m.parameters)
                if not np.array_equal(np.asarray(ret), np.asarray(self.f.yfit)):
                    e["exc"] = "modelFit does not return yfit"
            else:
                e["ret"] = vec(ret) if len(self.lo) else []
        except Exception as ex:
            e["exc"] = type(ex).__name__ + ": " + str(ex)[:80]
        e["conv"] = e["exc"].startswith("ConvergenceError")
        e["p"] = vec(self.m.parameters) if len(self.lo) else []
        if not e["exc"]:
            e["chisq"] = num(self.f.chisq)
            e["sumwgt"] = num(self.f.sumwgt)
            e["npfit"] = int(self.f.npfit)
            e["yfit"] = vec(self.f.yfit)
        after = [repr(q) for q in (y, w, acc, par0, keep, self.x)]
        if after != before:
            e["same"] = False
            e["changed"] = str([k for k, a, b in zip(("data", "weights", "accuracy", "par0", "keep", "x"), before, after) if a != b])
        self.put(e)

    def listen(self, e):
        """Record what scipy is asked to minimize."""
        mod = importlib.import_module("BayesicFitting.source.ScipyFitter")
        real = scipy.optimize.minimize

        def asked(fun, x0, **kw):
            x0 = np.array(x0, dtype=float)
            a = {"x0": vec(x0), "f": num(fun(x0.copy())), "g": [], "h": []}
            if callable(kw.get("jac")):
                a["g"] = vec(kw["jac"](x0.copy()))
            if callable(kw.get("hess")):
                a["h"] = [[num(v) for v in r] for r in np.asarray(kw["hess"](x0.copy()))]
            e["asked"] = [a]
            res = real(fun, x0, **kw)
            e["ok"] = False         # where scipy ends is up to scipy
            return res
        mod.minimize = asked

    def stat(self, e):
        e["exc"] = ""
        e["scale"] = e["ssc"] = "nan"
        e["cov"], e["sd"], e["msd"] = [], [], []
        try:
            f = self.f
            e["scale"] = num(f.scale)
            c = np.asarray(f.covariance)
            e["cov"] = [[num(v) for v in r] for r in c] if c.ndim == 2 else []
            e["sd"] = vec(f.stdevs)
            e["msd"] = vec(self.m.stdevs)
            e["ssc"] = num(f.stdevScale)
        except Exception as ex:
            e["exc"] = type(ex).__name__
        if len(self.lo):
            self.put(e)

    def evidence(self, e):
        e["exc"] = ""
        e["logz"] = e["evid"] = e["logl"] = e["occam"] = "nan"
        kw = {}
        if e["lims"]:
            kw["limits"] = [[float(v) for v in q] for q in e["lims"]] if len(e["lims"][0]) > 1 else [float(q[0]) for q in e["lims"]]
        if e["noise"]:
            kw["noiseLimits"] = [float(v) for v in e["noise"]]
        try:
            e["logz"] = num(self.f.getLogZ(**kw))
            e["evid"] = num(self.f.getEvidence(**kw))
            e["logl"] = num(self.f.logLikelihood)
            e["occam"] = num(self.f.logOccam)
        except Exception as ex:
            e["exc"] = type(ex).__name__
        self.put(e)
    ev_ = evidence

    def robust(self, e):
        import BayesicFitting as bf
        y = self.data(e)
        w = np.array([float(v) for v in e["w"]]) if e["w"] else None
        kern = getattr(importlib.import_module("BayesicFitting.source.kernels." + e["kernel"]), e["kernel"])
        opt = {"onesided": None if e["onesided"] == "none" else e["onesided"]}
        if e["domain"] != "default":
            opt["domain"] = float(e["domain"])
        before = [repr(q) for q in (y, w, self.x)]
        e["exc"], e["ret"], e["rw"], e["chisq"], e["same"], e["changed"] = "", [], [], "nan", True, ""
        try:
            if e["at"] == "init" or e["domain"] == "default":
                s = bf.RobustShell(self.f, kernel=kern, maxIter=e["maxit"], tolerance=float(e["tol"]), verbose=0, **opt)
                ret = s.fit(y, weights=w)
            else:
                s = bf.RobustShell(self.f, maxIter=e["maxit"], tolerance=float(e["tol"]), verbose=0)
                ret = s.fit(y, weights=w, kernel=kern(), **opt)
            e["ret"] = vec(ret)
            e["rw"] = vec(s.weights) if s.weights is not None else []
            e["chisq"] = num(s.chisq)
        except Exception as ex:
            e["exc"] = type(ex).__name__ + ": " + str(ex)[:80]
        e["p"] = vec(self.m.parameters)
        if [repr(q) for q in (y, w, self.x)] != before:
            e["same"], e["changed"] = False, "data or weights"
        self.put(e)


def run(sc):
    d = Driver()
    for e in sc:
        e = dict(e)
        if e["op"] == "ev":
            d.evidence(e)
        else:
            getattr(d, e["op"])(e)
        if e.get("op") == "new" and d.ev[-1]["exc"]:
            break
    return d.ev


# ------------------------------------------------------------------ checks
def linear(ctx, focus, nq, nt, hist=0):
    rng = ctx.rng
    scens = []
    if hist:
        gen = ctx.mc("MC_Fit", "MC_Fit2.cfg")
        rng.shuffle(gen)
        scens += [from_history(g, rng.choice(["Fitter", "QRFitter"])) for g in gen[:ctx.pick(hist, 4 * hist)]]
        if ctx.thorough:
            gen = ctx.mc("MC_Fit", "MC_Fit3.cfg")
            rng.shuffle(gen)
            scens += [from_history(g, rng.choice(["Fitter", "QRFitter"])) for g in gen[:2000]]
    scens += [linear_scen(rng, focus) for _ in range(ctx.pick(nq, nt))]
    ctx.validate("Tr_Fit", ctx.drive(run, scens))


def c10(ctx):
    linear(ctx, "C10", 700, 6000, hist=400)


def c11(ctx):
    linear(ctx, "C11", 700, 6000, hist=150)
    ctx.validate("Tr_Fit", ctx.drive(run, [nonlinear_scen(ctx.rng, ["CurveFitter", "LevenbergMarquardtFitter"])
                                           for _ in range(ctx.pick(60, 500))]))


def c12(ctx):
    linear(ctx, "C12", 600, 6000, hist=400)
    ctx.validate("Tr_Fit", ctx.drive(run, [nonlinear_scen(ctx.rng, ["CurveFitter", "LevenbergMarquardtFitter", "AmoebaFitter"])
                                           for _ in range(ctx.pick(100, 800))]))


def c13(ctx):
    kinds = ["CurveFitter"] * 4 + ["LevenbergMarquardtFitter"] * 4 + ["AmoebaFitter"] * 2 + OTHERS
    ctx.mc("MC_Fit", "MC_Fit1.cfg")
    ctx.validate("Tr_Fit", ctx.drive(run, [nonlinear_scen(ctx.rng, kinds) for _ in range(ctx.pick(400, 3000))]))


def c14(ctx):
    ctx.mc("MC_Fit", "MC_Fit1.cfg")
    ctx.validate("Tr_Fit", ctx.drive(run, [robust_scen(ctx.rng) for _ in range(ctx.pick(250, 2500))]))


def c15(ctx):
    linear(ctx, "C15", 700, 6000, hist=200)
    ctx.validate("Tr_Fit", ctx.drive(run, [nonlinear_scen(ctx.rng, ["CurveFitter", "LevenbergMarquardtFitter"])
                                           for _ in range(ctx.pick(80, 800))]))


CHECKS = {"C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15}
