"""Model algebra: C01 - C06.  Drives real models through histories of building, copying,
changing and evaluating; the verdicts are those of specs/Tr_Models.tla."""
import random
import numpy as np
import vlib
from vlib import num, vec, enc

KERNELS = ["Biweight", "CosSquare", "Cosine", "Gauss", "Huber", "Lorentz", "Parabola", "Triangle",
           "Tricube", "Triweight", "Uniform", "Sinc"]


# ------------------------------------------------------------------ terms
def base(z, fx=(), **c):
    c.setdefault("deg", 0)
    return {"k": "base", "z": z, "c": c, "fx": list(fx)}


def fix(i, c=None, m=None):
    return {"i": i, "c": c if c is not None else "0", "m": m or []}


def link(op, t):
    return {"op": op, "t": t, "pri": []}


NPAR = {"Power": 1, "Exp": 2, "SineAmp": 2, "PowerLaw": 3, "Gauss": 3, "Lorentz": 3, "Arctan": 3, "Sinc": 3,
        "Sine": 3, "SinePhase": 3, "Logistic": 3, "Kernel": 3, "Etalon": 4, "PseudoVoigt": 4, "SineDrift": 4,
        "Voigt": 4, "EtalonDrift": 5, "RadialVelocity": 5, "Orbit": 7, "Constant": 0, "User": 3}


def zpar(z, c):
    if z in NPAR:
        return NPAR[z]
    if z in ("Polynomial", "Chebyshev"):
        return c["deg"] + 1
    if z == "Harmonic":
        return 2 * c["deg"]
    if z == "Pade":
        return c["num"] + c["den"] + 2
    if z == "PolySurface":
        return (c["deg"] + 1) * (c["deg"] + 2) // 2
    if z == "PolySineAmp":
        return 2 * c["deg"] + 2
    if z == "SoftMax":
        return c["nin"] * c["nout"] + (c["nout"] if c["offset"] else 0)
    if z == "Splines":
        return len(c["knots"]) + c["deg"] - 1
    if z == "BSpl":
        return len(c["knots"]) + (c["deg"] - 1 if c["border"] == 0 else -1)
    if z == "SineSpline":
        return 2 * (len(c["knots"]) + c["deg"] - 1)
    if z == "SineSplineDrift":
        return 2 * (len(c["knots"]) + c["deg"] - 1) + c["drift"] + 1
    if z == "SurfaceSplines":
        return int(np.prod([len(k) + c["deg"] - 1 for k in c["knots"]]))
    raise KeyError(z)


def tpar(t):
    k = t["k"]
    if k == "base":
        return zpar(t["z"], t["c"]) - len(t["fx"]) + sum(cpar(f["m"]) for f in t["fx"] if f["m"])
    if k == "br":
        return cpar(t["ch"])
    if k == "rep":
        return 0 if t["n"] == 0 else t["n"] * tpar(t["t"]) - (t["n"] - 1) * len(t["same"])
    if k == "combi":
        return t["n"] * tpar(t["t"]) - (t["n"] - 1) * (len(t["add"]) + len(t["mul"]))
    return sum(tpar(s) for s in t["ts"])


def cpar(ch):
    return sum(tpar(q["t"]) for q in ch)


def tin(t):
    k = t["k"]
    if k == "base":
        if t["z"] in ("PolySurface", "EtalonDrift", "PolySineAmp"):
            return 2
        if t["z"] in ("SoftMax", "Constant"):
            return t["c"]["nin"]
        if t["z"] == "SurfaceSplines":
            return len(t["c"]["knots"])
        return 1
    if k == "br":
        return tin(t["ch"][0]["t"])
    if k in ("rep", "combi"):
        return tin(t["t"])
    return len(t["ts"])


def tout(t):
    k = t["k"]
    if k == "base":
        return t["c"]["nout"] if t["z"] == "SoftMax" else 2 if t["z"] == "Orbit" else 1
    if k == "br":
        return tout(t["ch"][-1]["t"])
    return 1


def compounded(ch):
    """Is there a repeated or combined term, which keeps its priors in a way of its own?"""
    return any(q["t"]["k"] in ("rep", "combi", "prod") or q["t"]["k"] == "br" and compounded(q["t"]["ch"]) for q in ch)


def parkinds(t):
    """A hint for the value of every parameter of the term: pos(itive) or any."""
    k = t["k"]
    if k == "base":
        z, n = t["z"], zpar(t["z"], t["c"])
        if z == "RadialVelocity":
            full = ["ecc", "pos", "pos", "any", "any"]
        elif z == "Orbit":
            full = ["ecc", "pos", "pos", "any", "any", "any", "any"]
        elif z == "PowerLaw":
            full = ["pos", "neg", "any"]
        else:
            full = ["pos"] * n if z in ("Gauss", "Lorentz", "Sinc", "Kernel", "PseudoVoigt", "Voigt", "Logistic", "Pade",
                                        "Etalon", "EtalonDrift") else ["any"] * n
        fixed = {f["i"] for f in t["fx"]}
        r = [full[i] for i in range(n) if i not in fixed]
        for f in t["fx"]:
            if f["m"]:
                r += sum((parkinds(q["t"]) for q in f["m"]), [])
        if any(f["m"] for f in t["fx"]):
            r = ["pos" if q == "any" else q for q in r]
        return r
    if k == "br":
        return sum((parkinds(q["t"]) for q in t["ch"]), [])
    if k in ("rep", "combi"):
        return ["pos"] * tpar(t)
    return sum((parkinds(q) for q in t["ts"]), [])


def value(rng, kind):
    if kind == "ecc":
        return round(rng.uniform(0.05, 0.7), 3)
    if kind == "pos":
        return round(rng.uniform(0.3, 1.9), 3)
    if kind == "neg":
        return round(rng.uniform(-1.5, -0.3), 3)
    v = round(rng.uniform(-1.5, 1.5), 3)
    return v if abs(v) > 0.1 else v + 0.5


POSITIVE = {"Gauss": [2], "Lorentz": [2], "Kernel": [2], "PseudoVoigt": [2], "EtalonDrift": [2], "Voigt": [2, 3]}


# ------------------------------------------------------------------ real models
def F(s):
    return float(s)


def make(t):
    import BayesicFitting as bf
    k = t["k"]
    if k == "base":
        z, c = t["z"], t["c"]
        fixed = {}
        for f in t["fx"]:
            fixed[f["i"]] = chain(f["m"]) if f["m"] else F(f["c"])
        kw = {"fixed": fixed} if fixed else {}
        if z == "Polynomial":
            return bf.PolynomialModel(c["deg"], **kw)
        if z == "Chebyshev":
            return bf.ChebyshevPolynomialModel(c["deg"], **kw)
        if z == "Power":
            return bf.PowerModel(F(c["exponent"]), **kw)
        if z == "Exp":
            return bf.ExpModel(decay=c["decay"], **kw)
        if z == "SinePhase":
            return bf.SineModel(phase=True, **kw)
        if z == "SineAmp":
            return bf.SineAmpModel(F(c["freq"]), **kw)
        if z == "Harmonic":
            return bf.HarmonicModel(c["deg"], F(c["period"]), **kw)
        if z == "Kernel":
            import importlib
            kern = getattr(importlib.import_module("BayesicFitting.source.kernels." + c["kernel"]), c["kernel"])
            return bf.KernelModel(kernel=kern(), **kw)
        if z == "Pade":
            return bf.PadeModel(c["num"], c["den"], **kw)
        if z == "PolySurface":
            return bf.PolySurfaceModel(c["deg"], **kw)
        if z == "PolySineAmp":
            return bf.PolySineAmpModel(c["deg"], F(c["freq"]), **kw)
        if z == "SoftMax":
            return bf.SoftMaxModel(ndim=c["nin"], ndout=c["nout"], offset=c["offset"], normed=c["normed"], **kw)
        if z == "Splines":
            return bf.SplinesModel(knots=[F(q) for q in c["knots"]], order=c["deg"], **kw)
        if z == "BSpl":
            return bf.BasicSplinesModel(knots=[F(q) for q in c["knots"]], order=c["deg"], border=c["border"], **kw)
        if z == "SineSpline":
            return bf.SineSplineModel(F(c["freq"]), [F(q) for q in c["knots"]], order=c["deg"])
        if z == "SineSplineDrift":
            return bf.SineSplineDriftModel([F(q) for q in c["knots"]], order=c["deg"], degree=c["drift"])
        if z == "SurfaceSplines":
            return bf.SurfaceSplinesModel([[F(q) for q in kn] for kn in c["knots"]], order=c["deg"])
        if z == "Orbit":
            return bf.StellarOrbitModel(spherical=False, **kw)
        if z == "Constant":
            return bf.ConstantModel(ndim=c["nin"], values=[F(c["value"])])
        if z == "User":
            return bf.UserModel(3, user_result, userPartial=user_partial if c["full"] else None,
                                userDeriv=user_deriv if c["full"] else None)
        return getattr(bf, z + "Model")(**kw)
    if k == "br":
        return bf.BracketModel(chain(t["ch"]))
    if k == "rep":
        return bf.RepeatingModel(t["n"], make(t["t"]), dynamic=False, same=t["same"] or None)
    if k == "combi":
        return bf.CombiModel(make(t["t"]), nrepeat=t["n"], oper=t["op"],
                             addCombi={q["key"]: [F(v) for v in q["v"]] for q in t["add"]} or None,
                             mulCombi={q["key"]: [F(v) for v in q["v"]] for q in t["mul"]} or None)
    return bf.ProductModel([make(q) for q in t["ts"]])


def user_result(x, p):
    return p[0] * np.sin(p[1] * x) + p[2] * x * x


def user_partial(x, p):
    return np.array([np.sin(p[1] * x), p[0] * x * np.cos(p[1] * x), x * x]).T


def user_deriv(x, p):
    return p[0] * p[1] * np.cos(p[1] * x) + 2 * p[2] * x


def apply(a, op, b):
    if op == "+":
        a += b
    elif op == "-":
        a -= b
    elif op == "*":
        a *= b
    elif op == "/":
        a /= b
    else:
        a |= b
    return a


def binary(a, op, b):
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
            "|": lambda: a | b}[op]()


def chain(ch):
    m = make(ch[0]["t"])
    for q in ch[1:]:
        m = apply(m, q["op"], make(q["t"]))
    return m


# ------------------------------------------------------------------ observation
class Shape(Exception):
    pass


def norm_result(r, n, nout):
    r = np.asarray(r, dtype=float)
    if nout == 1:
        if r.shape != (n,):
            raise Shape("result has shape %s" % (r.shape,))
        return [[num(v)] for v in r]
    if r.shape != (n, nout):
        raise Shape("result has shape %s" % (r.shape,))
    return [[num(v) for v in row] for row in r]


def norm_partial(p, n, npar, nout):
    if nout == 1:
        p = np.asarray(p, dtype=float)
        if p.shape != (n, npar):
            raise Shape("partial has shape %s" % (p.shape,))
        return [[[num(v) for v in row]] for row in p]
    if len(p) != nout:
        raise Shape("partial has %d parts" % len(p))
    p = np.asarray([np.asarray(q, dtype=float) for q in p])
    if p.shape != (nout, n, npar):
        raise Shape("partial has shape %s" % (p.shape,))
    return [[[num(v) for v in p[o, i]] for o in range(nout)] for i in range(n)]


def norm_deriv(d, n, nin, nout):
    if nin == 1 and nout == 1:
        d = np.asarray(d, dtype=float)
        if d.shape != (n,):
            raise Shape("derivative has shape %s" % (d.shape,))
        return [[[num(v)]] for v in d]
    if nin == 1:
        d = np.asarray(d, dtype=float)
        if d.shape != (n, nout):
            raise Shape("derivative has shape %s" % (d.shape,))
        return [[[num(v)] for v in row] for row in d]
    if nout == 1:
        d = np.asarray(d, dtype=float)
        if d.shape != (n, nin):
            raise Shape("derivative has shape %s" % (d.shape,))
        return [[[num(v) for v in row]] for row in d]
    d = np.asarray([np.asarray(q, dtype=float) for q in d])
    if d.shape != (nout, n, nin):
        raise Shape("derivative has shape %s" % (d.shape,))
    return [[[num(v) for v in d[o, i]] for o in range(nout)] for i in range(n)]


def view(h, m):
    w = {"h": h, "exc": "", "p": [], "np": -1, "len": -1, "pri": [], "hasp": False, "hasl": False, "haslk": [],
         "hassd": False, "sd": []}
    try:
        w["p"] = vec(m.parameters)
        w["np"] = int(m.npars)
        w["len"] = int(m.chainLength())
        for k in range(w["np"]):
            try:
                pr = m.getPrior(k)
                w["pri"].append({"kd": type(pr).__name__.replace("Prior", ""), "lo": num(pr.lowLimit),
                                 "hi": num(pr.highLimit)})
            except IndexError:
                w["pri"].append({"kd": "none", "lo": "-inf", "hi": "inf"})
        w["hassd"] = m.stdevs is not None
        w["sd"] = vec(m.stdevs) if w["hassd"] else []
        w["hasp"] = bool(m.hasPriors())
        w["hasl"] = bool(m.hasLimits())
        n = int(m.npchain)
        for ks in [[k] for k in range(n)] + [list(range(k, n)) for k in range(1, n - 1)] + [list(range(0, n, 2))]:
            w["haslk"].append({"k": ks, "v": bool(m.hasLimits(np.array(ks, dtype=int)))})
    except Exception as e:
        w["exc"] = type(e).__name__ + ": " + str(e)[:80]
    return w


class World:
    """The live models of a scenario, with the shape of each."""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.m, self.ch = {}, {}
        self.ev = []
        self.nexth = 0

    def handle(self):
        self.nexth += 1
        return self.nexth

    def log(self, ev, fn):
        """Perform fn, record ev with its outcome and the views of all live models."""
        ev["exc"] = ""
        r = None
        try:
            r = fn()
        except Exception as e:
            ev["exc"] = type(e).__name__
            ev["msg"] = str(e)[:100]
        self.ev.append(ev)
        return r

    def seal(self, ev):
        ev["views"] = [view(h, m) for h, m in sorted(self.m.items())]

    def params(self, ch):
        kinds = sum((parkinds(q["t"]) for q in ch), [])
        return [value(self.rng, k) for k in kinds]

    def new(self, t):
        h = self.handle()
        p = self.params([link("0", t)])
        ev = {"op": "new", "h": h, "t": t, "p": [num(v) for v in p]}

        def fn():
            m = make(t)
            m.parameters = p
            return m
        m = self.log(ev, fn)
        if m is not None:
            self.m[h] = m
            self.ch[h] = [link("0", t)]
        self.seal(ev)
        return h if m is not None else None

    def setp(self, a, wrong=False):
        p = self.params(self.ch[a])
        if wrong:
            p = p + [1.0]
        ev = {"op": "setp", "a": a, "p": [num(v) for v in p]}

        def fn():
            self.m[a].parameters = p
        self.log(ev, fn)
        self.seal(ev)

    def setk(self, a):
        n = cpar(self.ch[a])
        if n == 0:
            return
        k = self.rng.randrange(n)
        kinds = sum((parkinds(q["t"]) for q in self.ch[a]), [])
        v = value(self.rng, kinds[k])
        ev = {"op": "setk", "a": a, "k": k, "v": num(v)}

        def fn():
            self.m[a].parameters[k] = v
        self.log(ev, fn)
        self.seal(ev)

    def setsd(self, a):
        p = [round(self.rng.uniform(0.01, 0.5), 3) for _ in range(cpar(self.ch[a]))]
        ev = {"op": "setsd", "a": a, "p": [num(v) for v in p]}

        def fn():
            self.m[a].stdevs = p
        self.log(ev, fn)
        self.seal(ev)

    def setsdk(self, a):
        sd = self.m[a].stdevs
        if sd is None or len(sd) == 0:
            return
        k, v = self.rng.randrange(len(sd)), round(self.rng.uniform(0.01, 0.5), 3)
        ev = {"op": "setsdk", "a": a, "k": k, "v": num(v)}

        def fn():
            self.m[a].stdevs[k] = v
        self.log(ev, fn)
        self.seal(ev)

    def copy(self, a):
        h = self.handle()
        ev = {"op": "copy", "a": a, "h": h}
        m = self.log(ev, lambda: self.m[a].copy())
        if m is not None:
            self.m[h], self.ch[h] = m, self.ch[a]
        self.seal(ev)
        return h

    def joined(self, a, b, o):
        cb = self.ch[b]
        add = [link(o, cb[0]["t"])] if len(cb) == 1 else [link(o, {"k": "br", "ch": cb})]
        return self.ch[a] + add

    def bin(self, a, b, o):
        h = self.handle()
        ev = {"op": "bin", "a": a, "b": b, "h": h, "o": o}
        m = self.log(ev, lambda: binary(self.m[a], o, self.m[b]))
        if m is not None:
            self.m[h], self.ch[h] = m, self.joined(a, b, o)
        self.seal(ev)
        return h if m is not None else None

    def iop(self, a, b, o):
        ev = {"op": "iop", "a": a, "b": b, "o": o}
        m = self.log(ev, lambda: apply(self.m[a], o, self.m[b]))
        if m is not None:
            self.ch[a] = self.joined(a, b, o)
            del self.m[b], self.ch[b]
        self.seal(ev)

    def brk(self, a):
        import BayesicFitting as bf
        h = self.handle()
        ev = {"op": "brk", "a": a, "h": h}
        m = self.log(ev, lambda: bf.BracketModel(self.m[a]))
        if m is not None:
            self.m[h], self.ch[h] = m, [link("0", {"k": "br", "ch": self.ch[a]})]
            del self.m[a], self.ch[a]
        self.seal(ev)
        return h

    def iso(self, a, k):
        h = self.handle()
        ev = {"op": "iso", "a": a, "h": h, "k": k}
        m = self.log(ev, lambda: self.m[a].isolateModel(k))
        if m is not None:
            self.m[h], self.ch[h] = m, [link("0", self.ch[a][k]["t"])]
        self.seal(ev)
        return h if m is not None else None

    def lim(self, a, mode=None):
        n = cpar(self.ch[a])
        if n == 0 or compounded(self.ch[a]):
            return
        mode = mode or self.rng.choice(["both", "both", "both", "low", "high", "short", "none"])
        lo = [round(self.rng.uniform(-3, 0), 2) for _ in range(n)]
        hi = [round(self.rng.uniform(0.5, 4), 2) for _ in range(n)]
        if mode == "short":
            lo = lo[:self.rng.randrange(1, n + 1)]
        if mode == "none":
            lo[self.rng.randrange(n)] = None
        ev = {"op": "lim", "a": a, "lo": [] if mode == "high" else ["-inf" if v is None else num(v) for v in lo],
              "hi": [] if mode == "low" else [num(v) for v in hi]}

        def fn():
            if mode == "low":
                self.m[a].setLimits(lowLimits=lo)
            elif mode == "high":
                self.m[a].setLimits(highLimits=hi)
            else:
                self.m[a].setLimits(lo, hi)
        self.log(ev, fn)
        self.seal(ev)

    def pri(self, a):
        import BayesicFitting as bf
        n = cpar(self.ch[a])
        k = self.rng.randrange(n + 1)
        kd = self.rng.choice(["Uniform", "Gauss", "Laplace", "none"])
        lo, hi = round(self.rng.uniform(-3, 0), 2), round(self.rng.uniform(1, 4), 2)
        ev = {"op": "pri", "a": a, "k": k, "kd": kd, "lo": num(lo), "hi": num(hi)}

        def fn():
            prior = None if kd == "none" else getattr(bf, kd + "Prior")()
            self.m[a].setPrior(k, prior=prior, limits=[lo, hi])
        self.log(ev, fn)
        self.seal(ev)

    def unit(self, a):
        n = cpar(self.ch[a])
        if n == 0:
            return
        u = [round(self.rng.uniform(0.05, 0.95), 3) for _ in range(n)]
        ev = {"op": "unit", "a": a, "u": [num(v) for v in u], "v": [], "w": [], "kv": [], "kw": []}

        def fn():
            d = self.m[a].unit2Domain(np.array(u))
            ev["v"] = vec(d)
            ev["w"] = vec(self.m[a].domain2Unit(np.array(d)))
            ev["kv"] = vec([self.m[a].unit2Domain(q, kpar=k) for k, q in enumerate(u)])
            ev["kw"] = vec([self.m[a].domain2Unit(q, kpar=k) for k, q in enumerate(d)])
        self.log(ev, fn)

    def xs(self, nin, n):
        return [[round(self.rng.uniform(0.15, 1.6), 3) for _ in range(nin)] for _ in range(n)]

    def wide(self, t, nin, n):
        """Inputs of either sign, zero and exact places included, where the formula of t allows."""
        r = self.rng
        z, c = t["z"], t["c"]
        if z == "BSpl":
            lo, hi = float(c["knots"][0]), float(c["knots"][-1])
            return [[round(r.uniform(lo, hi), 3) if r.random() < .7 else float(r.choice(c["knots"]))] for _ in range(n)]
        if z in ("Power", "PowerLaw", "Splines", "SineSpline", "SineSplineDrift", "SurfaceSplines", "Pade"):
            x = self.xs(nin, n)
            if z.startswith("S"):       # knots themselves
                kn = c["knots"] if z == "SurfaceSplines" else [c["knots"]]
                x[0] = [float(r.choice(q)) for q in kn]
            return x
        return [[r.choice([0.0, 1.0, -1.0, round(r.uniform(-3, 3), 3), round(r.uniform(-3, 3), 3)])
                 for _ in range(nin)] for _ in range(n)]

    def query(self, a, what=("result", "partial", "deriv"), n=2, wide=False):
        ch, m = self.ch[a], self.m[a]
        nin, nout = tin(ch[0]["t"]), tout(ch[-1]["t"])
        npar = cpar(ch)
        x = self.xs(nin, n)
        p = self.params(ch) if self.rng.random() < 0.5 else None
        if wide:        # all over the domain, and widths with the wrong sign
            t = ch[0]["t"]
            x = self.wide(t, nin, n)
            if p is not None:
                for k in POSITIVE.get(t["z"], []):
                    if self.rng.random() < 0.4:
                        p[k] = -p[k]
        X = np.array([r[0] for r in x]) if nin == 1 else np.array(x)
        for op in what:
            ev = {"op": op, "a": a, "x": enc(x), "own": p is None, "p": [num(v) for v in p or []], "v": []}
            P = np.array(m.parameters if p is None else p, dtype=float)

            def fn():
                if op == "result":
                    ev["v"] = norm_result(m(X) if p is None else m.result(X, P), n, nout)
                elif op == "partial":
                    ev["v"] = norm_partial(m.partial(X, P), n, npar, nout)
                elif op == "numpartial":
                    ev["v"] = norm_partial(m.numPartial(X, P), n, npar, nout)
                elif op == "numderiv":
                    ev["v"] = norm_deriv(m.numDerivative(X, P), n, nin, nout)
                else:
                    ev["v"] = norm_deriv(m.derivative(X, P), n, nin, nout)
            self.log(ev, fn)
            if "exc" in ev and ev["exc"]:
                ev["exc"] = (ev["exc"] + ": " + ev.pop("msg", ""))[:120]


# ------------------------------------------------------------------ catalogue of simple models
def knots(rng, n):
    v = sorted(round(rng.uniform(0.0, 1.8), 2) for _ in range(n))
    return [num(round(k + 0.07 * i, 2)) for i, k in enumerate(v)]


def catalogue(rng):
    """One term of every kind of simple model."""
    n = num
    r = lambda a, b: n(round(rng.uniform(a, b), 3))
    t = [base("Polynomial", deg=d) for d in (0, 1, 2, 3)]
    t += [base("Chebyshev", deg=d) for d in (0, 1, 2, 4)]
    t += [base("Power", exponent=e) for e in ("-1", "2", "0.5", r(0.3, 2.5))]
    t += [base("PowerLaw"), base("Exp", decay=False), base("Exp", decay=True)]
    t += [base(z) for z in ("Gauss", "Lorentz", "PseudoVoigt", "Voigt", "Arctan", "Sinc", "Logistic", "Sine",
                            "SinePhase", "SineDrift", "Etalon", "EtalonDrift", "RadialVelocity", "Orbit")]
    t += [base("SineAmp", freq=r(0.3, 1.5)), base("Harmonic", deg=1, period="1"),
          base("Harmonic", deg=3, period=r(0.7, 3))]
    t += [base("Kernel", kernel=k) for k in KERNELS]
    t += [base("Pade", num=a, den=b, fx=[fix(a + 1, "1")]) for a, b in ((1, 1), (2, 1), (0, 2), (1, 2))]
    t += [base("PolySurface", deg=d) for d in (0, 1, 2, 3)]
    t += [base("PolySineAmp", deg=d, freq=r(0.3, 1.2)) for d in (0, 1, 2)]
    t += [base("SoftMax", nin=a, nout=b, offset=o, normed=m) for a in (1, 2, 3) for b in (1, 2, 3)
          for o in (False, True) for m in (False, True)]
    t += [base("Splines", deg=d, knots=knots(rng, k)) for d in (1, 2, 3, 4) for k in (2, 3, 5)]
    t += [base("BSpl", deg=d, knots=["-0.1"] + knots(rng, k) + ["2.5"], border=b) for d in (1, 2, 3) for k in (0, 1, 3) for b in (0, 1) if k + 2 > b * (d + 1)]
    t += [base("SineSpline", deg=d, freq=r(0.3, 1.2), knots=knots(rng, 3)) for d in (1, 2, 3)]
    t += [base("SineSplineDrift", deg=d, drift=q, knots=knots(rng, 3)) for d in (1, 2, 3) for q in (0, 1, 2)]
    t += [base("SurfaceSplines", deg=d, knots=[knots(rng, 3), knots(rng, 2)]) for d in (1, 2, 3)]
    t += [base("Constant", nin=1, value=r(0.5, 2)), base("Constant", nin=2, value=r(0.5, 2))]
    t += [base("User", full=False), base("User", full=True)]
    return t


FIXABLE = ["Polynomial", "Exp", "Gauss", "Lorentz", "Arctan", "Sinc", "Logistic", "Sine", "SinePhase", "SineDrift",
           "Etalon", "PseudoVoigt", "Voigt", "PowerLaw", "Harmonic", "Kernel", "Pade", "Splines", "PolySurface",
           "EtalonDrift", "PolySineAmp", "SineAmp", "Chebyshev", "RadialVelocity"]


def simple(rng, dim=None, small=True):
    """A random simple term, one input and one output unless dim is given."""
    n = num
    pool = [lambda: base("Polynomial", deg=rng.randrange(0, 3)), lambda: base("Gauss"), lambda: base("Exp", decay=rng.random() < .5),
            lambda: base("Lorentz"), lambda: base("Sine"), lambda: base("Arctan"), lambda: base("Logistic"),
            lambda: base("Chebyshev", deg=rng.randrange(1, 3)), lambda: base("SinePhase"),
            lambda: base("Etalon"), lambda: base("Constant", nin=1, value=n(round(rng.uniform(.5, 2), 2))),
            lambda: base("SoftMax", nin=1, nout=1, offset=True, normed=True),
            lambda: base("Kernel", kernel=rng.choice(KERNELS[:6])),
            lambda: base("SineAmp", freq=n(round(rng.uniform(.3, 1.2), 2))),
            lambda: base("Power", exponent="2"), lambda: base("PseudoVoigt"), lambda: base("Sinc"),
            lambda: base("Splines", deg=rng.randrange(1, 4), knots=knots(rng, 3)),
            lambda: base("Harmonic", deg=1, period="1.5")]
    if dim == (1, 1) or dim is None:
        return rng.choice(pool)()
    nin, nout = dim
    if nout > 1:
        return base("SoftMax", nin=nin, nout=nout, offset=rng.random() < .5, normed=rng.random() < .6)
    two = [lambda: base("PolySurface", deg=rng.randrange(0, 3)), lambda: base("EtalonDrift"),
           lambda: base("PolySineAmp", deg=1, freq="0.4"), lambda: base("SoftMax", nin=2, nout=1, offset=True, normed=True),
           lambda: {"k": "prod", "ts": [simple(rng), base("Gauss")]}]
    if nin == 2:
        return rng.choice(two)()
    return base("SoftMax", nin=nin, nout=1, offset=True, normed=rng.random() < .5)


def withfixed(rng, t=None):
    """A simple term with fixed parameters: constants, models, or both."""
    n = num
    if t is None:
        z = rng.choice(["Polynomial", "Gauss", "Sine", "Etalon", "Exp", "Lorentz", "PseudoVoigt", "Arctan", "Logistic",
                        "Harmonic", "Splines", "PolySurface", "EtalonDrift", "Pade", "Voigt", "SineDrift", "Chebyshev",
                        "Kernel", "SinePhase", "PowerLaw", "Sinc"])
        t = {"Polynomial": lambda: base(z, deg=2), "Exp": lambda: base(z, decay=True),
             "Harmonic": lambda: base(z, deg=2, period="1.3"), "Chebyshev": lambda: base(z, deg=3),
             "Splines": lambda: base(z, deg=3, knots=knots(rng, 3)), "PolySurface": lambda: base(z, deg=1),
             "Pade": lambda: base(z, num=1, den=1), "Kernel": lambda: base(z, kernel=rng.choice(KERNELS[:8])),
             }.get(z, lambda: base(z))()
    np_ = zpar(t["z"], t["c"])
    ids = rng.sample(range(np_), rng.randrange(1, min(np_, 3) + 1))
    nin = tin(t)
    fx = []
    kinds = parkinds(t)
    for i in ids:
        if t["z"] == "Pade" or kinds[i] in ("ecc", "neg") or rng.random() < 0.5:
            fx.append(fix(i, n(value(rng, "pos" if kinds[i] == "any" else kinds[i]))))
        else:
            if nin == 1:
                m = [link("0", rng.choice([base("Polynomial", deg=1), base("Exp", decay=True), base("Gauss"),
                                           base("Polynomial", deg=0), base("Logistic")]))]
                if rng.random() < 0.4:
                    m.append(link(rng.choice("+*"), base("Polynomial", deg=rng.randrange(2))))
            else:
                m = [link("0", base("PolySurface", deg=rng.randrange(2)))]
            fx.append(fix(i, m=m))
    if t["z"] == "Pade" and 2 not in ids:
        fx.append(fix(2, "1"))
    t = dict(t)
    t["fx"] = fx
    return t


def compound(rng):
    """Repeated, combined and product terms."""
    k = rng.randrange(3)
    g = rng.choice([base("Gauss"), base("Lorentz"), base("Sine"), base("Arctan"), base("PseudoVoigt"), base("Exp", decay=True)])
    npar = tpar(g)
    if k == 0:
        same = sorted(rng.sample(range(npar), rng.randrange(0, npar)))
        return {"k": "rep", "n": rng.randrange(1, 4), "t": g, "same": same}
    if k == 1:
        n = rng.randrange(1, 4)
        keys = rng.sample(range(npar), rng.randrange(0, min(npar, 3)))
        add, mul = [], []
        for q in sorted(keys):
            v = [num(round(rng.uniform(0.3, 1.5), 2)) for _ in range(n)]
            if rng.random() < 0.5:
                add.append({"key": q, "v": ["0"] + v[1:] if rng.random() < .7 else v})
            else:
                mul.append({"key": q, "v": ["1"] + v[1:] if rng.random() < .7 else v})
        return {"k": "combi", "n": n, "t": g, "op": rng.choice(["add", "mul"]), "add": add, "mul": mul}
    return {"k": "prod", "ts": [simple(rng) for _ in range(rng.randrange(2, 4))]}


# ------------------------------------------------------------------ scenarios
ANY = ("result", "partial", "deriv")


def dims(w, h):
    ch = w.ch[h]
    return tin(ch[0]["t"]), tout(ch[-1]["t"])


def pick_op(rng):
    return rng.choice("+-*/+-*/|")


def grow(w, rng, nterm, mk, copyish=True):
    """Build a compound of nterm terms made by mk, as a user could; returns the handle."""
    a = w.new(mk((1, 1)))
    for _ in range(nterm - 1):
        if a is None:
            return None
        b = w.new(mk((1, 1)))
        if b is None:
            return a
        if rng.random() < 0.35:
            c = w.new(mk((1, 1)))
            if c is not None:
                if rng.random() < 0.5:
                    w.iop(b, c, pick_op(rng))
                else:
                    b = w.bin(b, c, pick_op(rng)) or b
        if b not in w.m or a not in w.m:
            return a
        if rng.random() < 0.2:
            b = w.brk(b)
        if rng.random() < 0.5:
            w.iop(a, b, pick_op(rng))
        else:
            n = w.bin(a, b, pick_op(rng))
            if n is None:
                return a
            a = n
    return a


def mixterm(rng, dim, fixed=0.15, comp=0.1):
    u = rng.random()
    if dim == (1, 1) and u < fixed:
        return withfixed1(rng)
    if dim == (1, 1) and u < fixed + comp:
        t = compound(rng)
        return t if tin(t) == 1 else simple(rng)
    return simple(rng, dim)


def withfixed1(rng):
    while True:
        t = withfixed(rng)
        if tin(t) == 1:
            return t


def sc_replay(sc):
    """Replay a history of the specification."""
    w = World(sc["seed"])
    last = None
    for e in sc["hist"]:
        o = e["op"]
        if o == "new":
            last = w.new(e["t"])
        elif o == "copy":
            last = w.copy(e["a"])
        elif o == "bin":
            last = w.bin(e["a"], e["b"], e["o"])
        elif o == "iop":
            w.iop(e["a"], e["b"], e["o"])
            last = e["a"]
        elif o == "brk":
            last = w.brk(e["a"])
        elif o == "iso":
            last = w.iso(e["a"], e["k"])
        elif o == "setk":
            w.setk(e["a"])
        elif o == "setsd":
            w.setsd(e["a"])
    if sc["all"]:
        for h in sorted(w.m):
            w.setsdk(h)
    for h in sorted(w.m) if sc["all"] else ([last] if last in w.m else []):
        w.query(h, what=sc["what"], n=1)
    return w.ev


def sc_history(sc):
    """A random history of building, copying, changing and evaluating models."""
    rng = random.Random(sc["seed"])
    w = World(sc["seed"] + 1)
    what = sc["what"]
    a = grow(w, rng, rng.randrange(2, 4), lambda d: mixterm(rng, d))
    for _ in range(sc["steps"]):
        hs = sorted(w.m)
        if not hs or len(hs) > 6:
            break
        a = rng.choice(hs)
        big = cpar(w.ch[a]) > 16
        u = rng.random()
        if u < 0.2:
            w.copy(a)
        elif u < 0.35:
            w.setp(a, wrong=rng.random() < 0.15)
        elif u < 0.5:
            w.setk(a)
        elif u < 0.6 and not big:
            b = rng.choice(hs)
            if cpar(w.ch[b]) < 16:
                w.bin(a, b, pick_op(rng))
        elif u < 0.68 and not big:
            b = rng.choice(hs)
            if a != b and cpar(w.ch[b]) < 16:
                w.iop(a, b, pick_op(rng))
        elif u < 0.74:
            w.brk(a)
        elif u < 0.84:
            w.iso(a, rng.randrange(len(w.ch[a]) + (rng.random() < .1)))
        elif u < 0.88:
            w.lim(a, "both")
        elif u < 0.94:
            w.setsd(a)
        elif u < 0.97:
            w.setsdk(a)
        else:
            w.new(mixterm(rng, (1, 1)))
        if rng.random() < 0.3 and w.m:
            w.query(rng.choice(sorted(w.m)), what=what, n=1)
    for h in sorted(w.m)[-3:]:
        w.query(h, what=what, n=1)
    return w.ev


def sc_multi(sc):
    """Chains with several inputs or outputs, pipes between them."""
    rng = random.Random(sc["seed"])
    w = World(sc["seed"] + 1)
    kind = rng.randrange(5)
    if kind == 0:       # several inputs, one output
        a = w.new(simple(rng, (2, 1)))
        for _ in range(rng.randrange(1, 3)):
            b = w.new(simple(rng, (2, 1)))
            if a in w.m and b in w.m:
                w.iop(a, b, rng.choice("+-*/"))
    elif kind == 1:     # several outputs
        nin, nout = rng.randrange(1, 4), rng.randrange(2, 4)
        a = w.new(simple(rng, (nin, nout)))
        b = w.new(simple(rng, (nin, nout)))
        if a in w.m and b in w.m:
            w.iop(a, b, rng.choice("+-*/"))
    elif kind == 2:     # pipe into several inputs
        n1, n2, n3 = rng.randrange(1, 4), rng.randrange(2, 4), rng.randrange(1, 4)
        a = w.new(simple(rng, (n1, n2)))
        b = w.new(simple(rng, (n2, n3)))
        if a in w.m and b in w.m:
            w.iop(a, b, "|")
        if n3 == 1 and a in w.m and rng.random() < 0.6:
            b = w.new(simple(rng))
            if b in w.m:
                w.iop(a, b, "|" if rng.random() < 0.5 or n1 > 1 else rng.choice("+*"))
    elif kind == 3:     # two inputs to one, through a 1-d model
        a = w.new(simple(rng, (2, 1)))
        b = w.new(simple(rng))
        if a in w.m and b in w.m:
            w.iop(a, b, "|")
        b = w.new(simple(rng, (2, 1)))
        if a in w.m and b in w.m and rng.random() < 0.6:
            w.iop(a, b, rng.choice("+-*"))
    else:               # incompatible
        a = w.new(simple(rng, rng.choice([(1, 1), (2, 1)])))
        b = w.new(simple(rng, rng.choice([(1, 1), (2, 1), (3, 2)])))
        if a in w.m and b in w.m:
            w.bin(a, b, rng.choice("+-*/"))
            w.bin(b, a, "|")
    if rng.random() < 0.4 and w.m:
        w.copy(sorted(w.m)[0])
    for h in sorted(w.m)[:3]:
        w.query(h, what=sc["what"], n=2)
    return w.ev


def sc_single(sc):
    """One model of the catalogue: as built, changed, copied."""
    w = World(sc["seed"])
    h = w.new(sc["t"])
    if h is None:
        return w.ev
    w.query(h, what=sc["what"], n=sc.get("n", 3))
    w.query(h, what=sc["what"], n=1)
    if sc.get("wide"):
        for _ in range(3):
            w.query(h, what=sc["what"], n=3, wide=True)
    if sc.get("copy"):
        c = w.copy(h)
        w.setp(h)
        if c in w.m:
            w.query(c, what=sc["what"], n=1)
        if sc.get("lim"):
            w.lim(h, "both")
    return w.ev


def sc_fixed(sc):
    """Models with fixed parameters: alone, copied, inside chains."""
    rng = random.Random(sc["seed"])
    w = World(sc["seed"] + 1)
    t = sc.get("t") or withfixed(rng)
    a = w.new(t)
    if a is None:
        return w.ev
    w.query(a, what=sc["what"], n=2)
    u = rng.random()
    c = w.copy(a) if u < 0.6 else None
    w.setp(a)
    if rng.random() < 0.5:
        w.setk(a)
    if c in w.m:
        w.query(c, what=sc["what"], n=1)
    b = w.new(simple(rng, (tin(t), 1)) if rng.random() < 0.6 or tin(t) > 1 else withfixed1(rng))
    if a in w.m and b in w.m:
        d = w.bin(*((a, b) if rng.random() < 0.6 else (b, a)), rng.choice("+-*/"))
        if d in w.m:
            w.query(d, what=sc["what"], n=2)
            if rng.random() < 0.4:
                e = w.copy(d)
                w.setp(d)
                if e in w.m:
                    w.query(e, what=sc["what"], n=1)
    return w.ev


def sc_prior(sc):
    """Limits and priors of compound models, in any order of building and setting."""
    rng = random.Random(sc["seed"])
    w = World(sc["seed"] + 1)
    nb = lambda d: simple_np(rng)
    if rng.random() < 0.5:      # set on the parts first
        for _ in range(rng.randrange(2, 4)):
            h = w.new(nb(0))
            if h and rng.random() < 0.8:
                if rng.random() < 0.7:
                    w.lim(h)
                else:
                    w.pri(h)
        hs = sorted(w.m)
        a = hs[0]
        for b in hs[1:]:
            if rng.random() < 0.3:
                b2 = w.new(nb(0))
                w.iop(b, b2, rng.choice("+*|"))
            if rng.random() < 0.2:
                b = w.brk(b)
            if rng.random() < 0.5:
                w.iop(a, b, rng.choice("+-*/|"))
            else:
                a = w.bin(a, b, rng.choice("+-*/|")) or a
    else:
        a = grow(w, rng, rng.randrange(1, 4), nb)
    for _ in range(rng.randrange(1, 5)):
        if a not in w.m:
            return w.ev
        u = rng.random()
        if u < 0.4:
            w.lim(a)
        elif u < 0.75:
            w.pri(a)
        elif u < 0.85:
            w.copy(a)
        elif u < 0.92:
            w.iso(a, rng.randrange(len(w.ch[a])))
        else:
            h = rng.choice(sorted(w.m))
            w.lim(h)
    if rng.random() < 0.8:
        w.lim(a, "both")
        w.unit(a)
    hs = sorted(w.m)
    if rng.random() < 0.5 and len(hs) > 1:
        h = rng.choice(hs)
        w.lim(h, "both")
        w.unit(h)
    return w.ev


def simple_np(rng):
    """A small model for the routing of priors."""
    u = rng.random()
    if u < 0.12:
        return base("Constant", nin=1, value="1.5")
    if u < 0.25:
        return withfixed1(rng)
    return rng.choice([lambda: base("Polynomial", deg=rng.randrange(3)), lambda: base("Gauss"),
                       lambda: base("Exp", decay=True), lambda: base("Power", exponent="2")])()


def seeds(ctx, n, salt=""):
    return [vlib.h(ctx.pid, ctx.seed, salt, i) for i in range(n)]


def mc_hist(ctx, depth):
    return ctx.mc("MC_Models", "MC_Models%d.cfg" % depth)


def hist_scens(ctx, what, allh, quick, thorough):
    g = mc_hist(ctx, 2)
    ctx.rng.shuffle(g)
    n = ctx.pick(quick, thorough)
    r = [{"seed": vlib.h(ctx.seed, i), "hist": s, "what": what, "all": allh} for i, s in enumerate(g[:n])]
    ctx.extra["specification_histories_replayed"] = len(r)
    ctx.extra["specification_histories"] = len(g)
    return r


def cat_scens(ctx, what, reps, **kw):
    sc = []
    for k in range(reps):
        rng = random.Random("%s-%d" % (ctx.seed, k))
        for i, t in enumerate(catalogue(rng)):
            sc.append(dict({"seed": vlib.h(ctx.seed, k, i), "t": t, "what": what}, **kw))
    return sc


def run(ctx, *parts):
    runs = []
    for fn, sc in parts:
        runs += ctx.drive(fn, sc)
    ctx.validate("Tr_Models", runs)


def c01(ctx):
    R = ("result",)
    run(ctx, (sc_replay, hist_scens(ctx, R, False, 900, 10 ** 9)),
        (sc_history, [{"seed": s, "steps": ctx.pick(6, 12), "what": R} for s in seeds(ctx, ctx.pick(160, 4000))]),
        (sc_multi, [{"seed": s, "what": R} for s in seeds(ctx, ctx.pick(100, 3000), "m")]),
        (sc_single, [{"seed": s, "t": compound(random.Random(s)), "what": R, "copy": True}
                     for s in seeds(ctx, ctx.pick(60, 1500), "c")]))


def c02(ctx):
    R = ("partial", "deriv")
    run(ctx, (sc_single, cat_scens(ctx, R, ctx.pick(1, 12), copy=True, n=2)),
        (sc_single, [{"seed": s, "t": compound(random.Random(s)), "what": R, "copy": True}
                     for s in seeds(ctx, ctx.pick(60, 1500), "c")]),
        (sc_single, [{"seed": s, "t": simple(random.Random(s)), "what": ("numpartial", "numderiv"), "n": 2}
                     for s in seeds(ctx, ctx.pick(30, 500), "n")]),
        (sc_replay, hist_scens(ctx, R, False, 300, 10 ** 9)),
        (sc_history, [{"seed": s, "steps": 4, "what": R} for s in seeds(ctx, ctx.pick(120, 3000))]),
        (sc_multi, [{"seed": s, "what": R} for s in seeds(ctx, ctx.pick(120, 3000), "m")]))


def c03(ctx):
    R = ("result",)
    run(ctx, (sc_replay, hist_scens(ctx, R, True, 700, 10 ** 9)),
        (sc_history, [{"seed": s, "steps": ctx.pick(10, 20), "what": R} for s in seeds(ctx, ctx.pick(200, 5000))]),
        (sc_single, cat_scens(ctx, R, ctx.pick(1, 6), copy=True, lim=True, n=1)),
        (sc_single, [{"seed": s, "t": compound(random.Random(s)), "what": R, "copy": True}
                     for s in seeds(ctx, ctx.pick(50, 1500), "c")]))


def c04(ctx):
    run(ctx, (sc_fixed, [{"seed": s, "what": ANY} for s in seeds(ctx, ctx.pick(350, 8000))]),
        (sc_single, [{"seed": s, "t": withfixed1(random.Random(s)), "what": ("numpartial", "numderiv"), "n": 1}
                     for s in seeds(ctx, ctx.pick(30, 500), "n")]))


def c05(ctx):
    run(ctx, (sc_prior, [{"seed": s} for s in seeds(ctx, ctx.pick(700, 15000))]))


def c06(ctx):
    R = ("result",)
    run(ctx, (sc_single, cat_scens(ctx, R, ctx.pick(5, 60), n=3, wide=True)))


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06}
