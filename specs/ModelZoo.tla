------------------------------ MODULE ModelZoo ------------------------------
(***************************************************************************)
(* The simple models, each by the formula in its documentation.            *)
(*                                                                         *)
(* A model is of some kind k with a configuration c (a record: degree,     *)
(* frequency, knots ...).  ZPar gives its number of parameters, ZIn and    *)
(* ZOut the number of inputs and outputs, ZEval its result (a sequence of  *)
(* ZOut duals) for parameters P and inputs X (sequences of duals).         *)
(***************************************************************************)
EXTENDS Dual, FiniteSets

ZIn(k, c) ==
    CASE k \in {"PolySurface", "EtalonDrift", "PolySineAmp"} -> 2
      [] k = "SoftMax" -> c.nin
      [] k = "SurfaceSplines" -> Len(c.knots)
      [] k = "Constant" -> c.nin
      [] OTHER -> 1

ZOut(k, c) == IF k = "SoftMax" THEN c.nout ELSE IF k = "Orbit" THEN 2 ELSE 1

RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdSeq(Tail(s))

ZPar(k, c) ==
    CASE k \in {"Polynomial", "Chebyshev"} -> c.deg + 1
      [] k = "Power" -> 1
      [] k \in {"Exp", "SineAmp"} -> 2
      [] k \in {"PowerLaw", "Gauss", "Lorentz", "Arctan", "Sinc", "Sine", "SinePhase", "Logistic",
                "Kernel"} -> 3
      [] k \in {"Etalon", "PseudoVoigt", "SineDrift", "Voigt"} -> 4
      [] k = "EtalonDrift" -> 5
      [] k = "Harmonic" -> 2 * c.deg
      [] k = "Pade" -> c.num + c.den + 2
      [] k = "PolySurface" -> ((c.deg + 1) * (c.deg + 2)) \div 2
      [] k = "PolySineAmp" -> 2 * c.deg + 2
      [] k = "SoftMax" -> c.nin * c.nout + (IF c.offset THEN c.nout ELSE 0)
      [] k = "Splines" -> Len(c.knots) + c.deg - 1
      [] k = "BSpl" -> IF c.border = 0 THEN Len(c.knots) + c.deg - 1 ELSE Len(c.knots) - 1
      [] k = "SineSpline" -> 2 * (Len(c.knots) + c.deg - 1)
      [] k = "SineSplineDrift" -> 2 * (Len(c.knots) + c.deg - 1) + c.drift + 1
      [] k = "SurfaceSplines" -> ProdSeq([i \in 1 .. Len(c.knots) |-> Len(c.knots[i]) + c.deg - 1])
      [] k = "RadialVelocity" -> 5
      [] k = "Orbit" -> 7
      [] k = "Constant" -> 0
      [] k = "User" -> 3

\* the parameters that are kept positive by the model
ZPos(k) ==
    CASE k \in {"Gauss", "Lorentz", "Kernel", "PseudoVoigt", "EtalonDrift"} -> {3}
      [] k = "Voigt" -> {3, 4}
      [] OTHER -> {}

TwoPi == NMul("2", Pi)

\* sum_i p_i x^i by Horner
RECURSIVE ZPoly(_, _, _)
ZPoly(P, x, i) ==
    IF i = Len(P) THEN P[i] ELSE DAdd(P[i], DMul(x, ZPoly(P, x, i + 1)))

RECURSIVE ZCheb(_, _, _, _, _)
\* sum of P[i].T_(i-1), given the polynomials T_(i-1) and T_i
ZCheb(P, x, i, t, tn) ==
    LET term == DMul(P[i], t)
    IN  IF i = Len(P) THEN term
        ELSE DAdd(term, ZCheb(P, x, i + 1, tn, DSub(DScale("2", DMul(x, tn)), t)))

ZGauss(P, x) == LET u == DDiv(DSub(x, P[2]), P[3])
                IN  DMul(P[1], DExp(DScale("-0.5", DSq(u))))
ZLorentz(P, x) == LET d == DSub(x, P[2]) w == DSq(P[3])
                  IN  DMul(P[1], DDiv(w, DAdd(DSq(d), w)))

\* ----- kernels K(u): value and slope -----
KFun(name, u) ==
    LET a == NAbs(u)
        s == NSgn(u)
        in == NLt(a, "1")
        u2 == NSq(u)
        hp == NMul("0.5", Pi)
    IN CASE name = "Biweight" -> IF in THEN <<NSq(NSub("1", u2)), NMul("-4", NMul(u, NSub("1", u2)))>> ELSE <<"0", "0">>
         [] name = "CosSquare" -> IF in THEN <<NSq(NCos(NMul(hp, u))), NNeg(NMul(hp, NSin(NMul(Pi, u))))>> ELSE <<"0", "0">>
         [] name = "Cosine" -> IF in THEN <<NCos(NMul(hp, u)), NNeg(NMul(hp, NSin(NMul(hp, u))))>> ELSE <<"0", "0">>
         [] name = "Gauss" -> LET e == NExp(NMul("-0.5", u2)) IN <<e, NNeg(NMul(u, e))>>
         [] name = "Huber" -> IF in THEN <<"1", "0">> ELSE <<NDiv("1", a), NNeg(NDiv(s, u2))>>
         [] name = "Lorentz" -> LET d == NAdd("1", u2) IN <<NDiv("1", d), NNeg(NDiv(NMul("2", u), NSq(d)))>>
         [] name = "Parabola" -> IF in THEN <<NSub("1", u2), NMul("-2", u)>> ELSE <<"0", "0">>
         [] name = "Triangle" -> IF in THEN <<NSub("1", a), NNeg(s)>> ELSE <<"0", "0">>
         [] name = "Tricube" -> LET q == NSub("1", NMul(a, u2))
                                IN  IF in THEN <<NPowInt(q, 3), NMul("-9", NMul(NSq(q), NMul(u2, s)))>> ELSE <<"0", "0">>
         [] name = "Triweight" -> LET q == NSub("1", u2)
                                  IN  IF in THEN <<NPowInt(q, 3), NMul("-6", NMul(NSq(q), u))>> ELSE <<"0", "0">>
         [] name = "Uniform" -> IF in THEN <<"1", "0">> ELSE <<"0", "0">>
         [] name = "Sinc" -> IF NEq(u, "0") THEN <<"1", "0">>
                             ELSE <<NDiv(NSin(NMul(Pi, u)), NMul(Pi, u)),
                                    NDiv(NSub(NCos(NMul(Pi, u)), NDiv(NSin(NMul(Pi, u)), NMul(Pi, u))), u)>>
\* the points where a kernel has no slope (or no agreed value)
KEdge(name, u) == NClose(NAbs(u), "1", "1e-3") \/ (name = "Triangle" /\ NClose(u, "0", "1e-3"))
KNames == {"Biweight", "CosSquare", "Cosine", "Gauss", "Huber", "Lorentz", "Parabola", "Triangle",
           "Tricube", "Triweight", "Uniform", "Sinc"}

\* ----- splines: truncated powers.  T_0 = x^o, T_j = (x - knot_j)_+^o, T_last = 0; the
\* parameters are coefficients of 1, x .. x^(o-1), T_0 - T_1, T_1 - T_2, ...
ZTrunc(c, x, j) ==
    IF j = 0 THEN DPowInt(x, c.deg)
    ELSE IF NLt(x.v, c.knots[j + 1]) THEN DC("0", Len(x.g))
    ELSE DPowInt(DPlus(NNeg(c.knots[j + 1]), x), c.deg)
ZSplineBasis(c, x) ==
    LET n == Len(c.knots)
    IN  TLCEval([i \in 1 .. n + c.deg - 1 |->
            IF i <= c.deg THEN DPowInt(x, i - 1)
            ELSE LET j == i - c.deg - 1
                 IN  IF j = n - 2 THEN ZTrunc(c, x, j) ELSE DSub(ZTrunc(c, x, j), ZTrunc(c, x, j + 1))])
ZComb(P, B) == DSum(TLCEval([i \in 1 .. Len(P) |-> DMul(P[i], B[i])]))
ZSpline(c, P, x) == ZComb(P, ZSplineBasis(c, x))

\* ----- B-splines of degree c.deg.  Cox and de Boor: N_i,p on the knots T
RECURSIVE BSpl(_, _, _, _, _)
BSpl(T, i, p, x, top) ==
    LET zero == DC("0", Len(x.g))
        one == DC("1", Len(x.g))
        last == top /\ NEq(x.v, T[Len(T)])
        In(a, b) == NLt(T[a], T[b]) /\ NLe(T[a], x.v) /\ (NLt(x.v, T[b]) \/ (last /\ NEq(T[b], x.v)))
    IN  IF ~ NLt(T[i], T[i + p + 1]) \/ NLt(x.v, T[i]) \/ NLt(T[i + p + 1], x.v) THEN zero
        ELSE IF p = 0 THEN IF In(i, i + 1) THEN one ELSE zero
        ELSE LET up == IF NLt(T[i], T[i + p])
                       THEN DMul(DScale(NDiv("1", NSub(T[i + p], T[i])), DPlus(NNeg(T[i]), x)), BSpl(T, i, p - 1, x, top)) ELSE zero
                 dn == IF NLt(T[i + 1], T[i + p + 1])
                       THEN DMul(DScale(NDiv("-1", NSub(T[i + p + 1], T[i + 1])), DPlus(NNeg(T[i + p + 1]), x)), BSpl(T, i + 1, p - 1, x, top)) ELSE zero
             IN  DAdd(up, dn)
\* border 0: the first and last knot count deg times extra.  border 1: periodic; the support of
\* parameter j (from 0) starts deg + 1 knots before knot j
ZBSplines(c, x, np) ==
    LET n == Len(c.knots)
        T == TLCEval([i \in 1 .. n + 2 * c.deg |->
                IF i <= c.deg THEN c.knots[1] ELSE IF i > n + c.deg THEN c.knots[n] ELSE c.knots[i - c.deg]])
        m == n - 1
        per == NSub(c.knots[n], c.knots[1])
        Start(j) == IF c.deg = 0 THEN j - 1 ELSE (j - 1 + 2 * m - (c.deg + 1)) % m
        Ext(j, turn) == [q \in 1 .. c.deg + 2 |->
                LET s == Start(j) + q - 1 IN NAdd(c.knots[(s % m) + 1], NMul(per, NOfInt((s \div m) + turn)))]
    IN  IF c.border = 0 THEN TLCEval([j \in 1 .. np |-> BSpl(T, j, c.deg, x, TRUE)])
        ELSE TLCEval([j \in 1 .. np |->
                DSum([q \in 1 .. 3 |-> BSpl(TLCEval(Ext(j, q - 3)), 1, c.deg, x, FALSE)])])

\* products of 1-dimensional bases; the last dimension runs fastest
RECURSIVE ZOuter(_, _, _)
ZOuter(c, X, d) ==
    LET b == ZSplineBasis([deg |-> c.deg, knots |-> c.knots[d]], X[d])
    IN  IF d = 1 THEN b
        ELSE LET a == ZOuter(c, X, d - 1)
                 m == Len(b)
             IN  TLCEval([i \in 1 .. Len(a) * m |-> DMul(a[((i - 1) \div m) + 1], b[((i - 1) % m) + 1])])

\* ----- Kepler: eccentric anomaly E with E - e sin E = M; dE = (dM + sin E de)/(1 - e cos E)
RECURSIVE KepIter(_, _, _, _)
KepIter(e, m, E, n) ==
    LET f == NSub(NSub(E, NMul(e, NSin(E))), m)
        E1 == NSub(E, NDiv(f, NSub("1", NMul(e, NCos(E)))))
    IN  IF n = 0 THEN E ELSE KepIter(e, m, E1, n - 1)
DKepler(e, M) ==
    LET E == KepIter(e.v, M.v, NAdd(M.v, NMul(e.v, NSin(M.v))), 12)
        w == NSub("1", NMul(e.v, NCos(E)))
    IN  [v |-> E, g |-> VLin(NDiv("1", w), M.g, NDiv(NSin(E), w), e.g)]

ZSoftMax(c, P, X) ==
    LET a == TLCEval([n \in 1 .. c.nout |->
                LET s == DSum([i \in 1 .. c.nin |-> DMul(X[i], P[(n - 1) * c.nin + i])])
                IN  IF c.offset THEN DAdd(s, P[c.nin * c.nout + n]) ELSE s])
        n1 == Len(X[1].g)
    IN  IF ~c.normed THEN a
        ELSE IF c.nout = 1 THEN <<DDiv(DC("1", n1), DPlus("1", DExp(DNeg(a[1]))))>>
        ELSE LET e == TLCEval([n \in 1 .. c.nout |-> DExp(a[n])])
                 t == DSum(e)
             IN  [n \in 1 .. c.nout |-> DDiv(e[n], t)]

\* the Faddeeva function enters the Voigt profile: V = Re w(z)/Re w(z0)
ZVoigt(P, x) ==
    LET s == DScale(NSqrt("2"), P[3])
        re == DDiv(DSub(x, P[2]), s)
        im == DDiv(P[4], s)
        W(a, b) ==
            LET w == NWofz(a.v, b.v)
                \* w' = 2i/sqrt(pi) - 2 z w ;  d Re w = Re w' da - Im w' db
                dr == NMul("-2", NSub(NMul(a.v, w[1]), NMul(b.v, w[2])))
                di == NSub(NDiv("2", NSqrt(Pi)), NMul("2", NAdd(NMul(a.v, w[2]), NMul(b.v, w[1]))))
            IN  [v |-> w[1], g |-> VLin(dr, a.g, NNeg(di), b.g)]
    IN  DMul(P[1], DDiv(W(re, im), W(DC("0", Len(x.g)), im)))

ZEval(k, c, P, X) ==
    LET x == X[1]
        n == Len(x.g)
        one == DC("1", n)
        Turn(f) == DScale(TwoPi, f)
    IN
    CASE k = "Polynomial" -> <<ZPoly(P, x, 1)>>
      [] k = "Chebyshev" -> <<ZCheb(P, x, 1, one, x)>>
      [] k = "Power" -> <<DMul(P[1], DPowC(x, c.exponent))>>
      [] k = "PowerLaw" -> <<DMul(P[1], DPow(DSub(x, P[2]), P[3]))>>
      [] k = "Exp" -> <<DMul(P[1], DExp(IF c.decay THEN DNeg(DMul(P[2], x)) ELSE DMul(P[2], x)))>>
      [] k = "Gauss" -> <<ZGauss(P, x)>>
      [] k = "Lorentz" -> <<ZLorentz(P, x)>>
      [] k = "PseudoVoigt" -> <<DAdd(DMul(P[4], ZLorentz(P, x)), DMul(DSub(one, P[4]), ZGauss(P, x)))>>
      [] k = "Voigt" -> <<ZVoigt(P, x)>>
      [] k = "Arctan" -> <<DMul(P[1], DAtan(DMul(P[3], DSub(x, P[2]))))>>
      [] k = "Sinc" -> LET u == DDiv(DSub(x, P[2]), P[3])
                           f == KFun("Sinc", u.v)
                       IN  <<DMul(P[1], DFun(u, f[1], f[2]))>>
      [] k = "Kernel" -> LET u == DDiv(DSub(x, P[2]), P[3])
                             f == KFun(c.kernel, u.v)
                         IN  <<DMul(P[1], DFun(u, f[1], f[2]))>>
      [] k = "Logistic" -> <<DDiv(P[1], DPlus("1", DExp(DDiv(DSub(P[2], x), P[3]))))>>
      [] k = "Sine" -> LET a == Turn(DMul(P[1], x))
                       IN  <<DAdd(DMul(P[2], DCos(a)), DMul(P[3], DSin(a)))>>
      [] k = "SinePhase" -> <<DMul(P[1], DSin(DAdd(Turn(DMul(P[2], x)), P[3])))>>
      [] k = "SineAmp" -> LET a == DScale(NMul(TwoPi, c.freq), x)
                          IN  <<DAdd(DMul(P[1], DCos(a)), DMul(P[2], DSin(a)))>>
      [] k = "SineDrift" -> LET a == Turn(DMul(x, DAdd(P[1], DMul(x, P[4]))))
                            IN  <<DAdd(DMul(P[2], DCos(a)), DMul(P[3], DSin(a)))>>
      [] k = "Harmonic" ->
            <<DSum([i \in 1 .. 2 * c.deg |->
                LET a == DScale(NDiv(NMul(TwoPi, NOfInt((i + 1) \div 2)), c.period), x)
                IN  DMul(P[i], IF i % 2 = 1 THEN DCos(a) ELSE DSin(a))])>>
      [] k = "Etalon" ->
            LET s == DSin(DAdd(DScale(Pi, DMul(P[3], x)), P[4]))
            IN  <<DDiv(P[1], DPlus("1", DMul(P[2], DSq(s))))>>
      [] k = "EtalonDrift" ->
            LET s == DSin(DScale(Pi, DAdd(DAdd(DMul(P[3], x), P[4]), DMul(P[5], X[2]))))
            IN  <<DDiv(P[1], DPlus("1", DMul(DSq(P[2]), DSq(s))))>>
      [] k = "Pade" ->
            <<DDiv(ZPoly(SubSeq(P, 1, c.num + 1), x, 1), ZPoly(SubSeq(P, c.num + 2, Len(P)), x, 1))>>
      [] k = "PolySurface" ->
            LET B == [i \in 1 .. Len(P) |->
                        LET d == CHOOSE d \in 0 .. c.deg : (d * (d + 1)) \div 2 < i /\ i <= ((d + 1) * (d + 2)) \div 2
                            j == i - 1 - (d * (d + 1)) \div 2
                        IN  DMul(DPowInt(x, d - j), DPowInt(X[2], j))]
            IN  <<ZComb(P, B)>>
      [] k = "PolySineAmp" ->
            LET a == DScale(NMul(TwoPi, c.freq), x)
                h == c.deg + 1
            IN  <<DAdd(DMul(ZPoly(SubSeq(P, 1, h), X[2], 1), DCos(a)),
                       DMul(ZPoly(SubSeq(P, h + 1, 2 * h), X[2], 1), DSin(a)))>>
      [] k = "SoftMax" -> ZSoftMax(c, P, X)
      [] k = "Splines" -> <<ZSpline(c, P, x)>>
      [] k = "BSpl" -> <<ZComb(P, ZBSplines(c, x, Len(P)))>>
      [] k = "SineSpline" ->
            LET h == Len(P) \div 2
                a == DScale(NMul(TwoPi, c.freq), x)
            IN  <<DAdd(DMul(ZSpline(c, SubSeq(P, 1, h), x), DCos(a)),
                       DMul(ZSpline(c, SubSeq(P, h + 1, 2 * h), x), DSin(a)))>>
      [] k = "SineSplineDrift" ->
            LET d == c.drift + 1
                h == (Len(P) - d) \div 2
                a == Turn(DMul(x, ZPoly(SubSeq(P, 1, d), x, 1)))
            IN  <<DAdd(DMul(ZSpline(c, SubSeq(P, d + 1, d + h), x), DCos(a)),
                       DMul(ZSpline(c, SubSeq(P, d + h + 1, d + 2 * h), x), DSin(a)))>>
      [] k = "SurfaceSplines" -> <<ZComb(P, ZOuter(c, X, Len(c.knots)))>>
      [] k = "Constant" -> <<DC(c.value, n)>>
      [] k = "User" -> <<DAdd(DMul(P[1], DSin(DMul(P[2], x))), DMul(P[3], DSq(x)))>>
      [] k = "RadialVelocity" ->
            \* amplitude ( cos( nu + omega ) + e cos omega ), nu the true anomaly at mean anomaly
            \* 2 pi x / P - phase
            LET M == DSub(DDiv(DScale(TwoPi, x), P[3]), P[4])
                E == DKepler(P[1], M)
                w == DSub(one, DMul(P[1], DCos(E)))
                cn == DDiv(DSub(DCos(E), P[1]), w)
                sn == DDiv(DMul(DSqrt(DSub(one, DSq(P[1]))), DSin(E)), w)
            IN  <<DMul(P[2], DAdd(DSub(DMul(cn, DCos(P[5])), DMul(sn, DSin(P[5]))),
                                  DMul(P[1], DCos(P[5]))))>>
      [] k = "Orbit" ->
            \* position on the sky of an orbit with semi major axis P2, period P3, phase P4,
            \* inclination P5, node P6, longitude of periastron P7
            LET M == DSub(DDiv(DScale(TwoPi, x), P[3]), P[4])
                E == DKepler(P[1], M)
                xs == DMul(P[2], DSub(DCos(E), P[1]))                           \* r cos nu
                ys == DMul(P[2], DMul(DSqrt(DSub(one, DSq(P[1]))), DSin(E)))   \* r sin nu
                a == DSub(DMul(xs, DCos(P[7])), DMul(ys, DSin(P[7])))
                b == DMul(DAdd(DMul(ys, DCos(P[7])), DMul(xs, DSin(P[7]))), DCos(P[5]))
            IN  <<DAdd(DMul(b, DCos(P[6])), DMul(a, DSin(P[6]))),
                  DSub(DMul(b, DSin(P[6])), DMul(a, DCos(P[6])))>>
=============================================================================
