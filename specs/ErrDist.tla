------------------------------- MODULE ErrDist -------------------------------
(***************************************************************************)
(* Error distributions: the likelihood of data, given a problem and values *)
(* for its (hyper)parameters.                                              *)
(*                                                                         *)
(* A problem pb is [kind, ch, x, y, w, acc, cyc]:                          *)
(*   kind "classic" one output; "multi" several outputs per point, all     *)
(*        measured; "class" several outputs, of which the data say which   *)
(*        one happened; "xy" errors in x and y, where the positions of the *)
(*        points are parameters too                                        *)
(*   ch   the chain of the model (Models.tla), x the inputs, y the data    *)
(*        (for "multi" all outputs of a point in a row)                    *)
(*   w    weights (<<>> when not given), acc accuracies: <<>>, one for     *)
(*        all, one for each point, or one for each datum; for "xy": rows   *)
(*        [yy, xx, xy] of the covariance                                   *)
(*   cyc  the period of the data (of the second output), or "none"         *)
(* A distribution d is [kind, sub]: sub are the parts of a mixture.        *)
(* hyp are values of its hyperparameters.                                  *)
(***************************************************************************)
EXTENDS Models

PR == INSTANCE Priors

ScaleKinds == {"Gauss", "Laplace", "Cauchy", "Exponential", "Uniform", "Gauss2d"}
RECURSIVE NHyp(_)
NHyp(d) == CASE d.kind = "Mixed" -> NHyp(d.sub[1]) + NHyp(d.sub[2]) + 1
             [] d.kind = "Exponential" -> 2
             [] d.kind \in {"Poisson", "Bernoulli"} -> 0
             [] OTHER -> 1
RECURSIVE Names(_)
Names(d) == CASE d.kind = "Mixed" -> Names(d.sub[1]) \o Names(d.sub[2]) \o <<"fraction">>
              [] d.kind = "Exponential" -> <<"scale", "power">>
              [] d.kind \in {"Poisson", "Bernoulli"} -> <<>>
              [] OTHER -> <<"scale">>
Hyp1(d, hyp) == SubSeq(hyp, 1, NHyp(d.sub[1]))
Hyp2(d, hyp) == SubSeq(hyp, NHyp(d.sub[1]) + 1, NHyp(d.sub[1]) + NHyp(d.sub[2]))
Frac(hyp) == hyp[Len(hyp)]

-----------------------------------------------------------------------------
(* One datum q = [y, m, r, w, a]: measured, modelled, residual, weight and *)
(* accuracy ("none" when there are none).                                  *)

Sc(hyp, q) == IF q.a = "none" THEN hyp[1] ELSE q.a
Wt(q) == IF q.w = "none" THEN "1" ELSE q.w
NoLn == "-inf"
LnNeg(a) == IF NLe(a, "0") THEN NoLn ELSE NLn(a)

LnMix(f, a, b) ==
    CASE NLe(f, "0") -> b
      [] NLe("1", f) -> a
      [] a = NoLn /\ b = NoLn -> NoLn
      [] OTHER ->
            LET t == NMax(a, b)
                e(z) == IF z = NoLn THEN "0" ELSE NExp(NSub(z, t))
            IN  NAdd(t, NLn(NAdd(NMul(f, e(a)), NMul(NSub("1", f), e(b)))))

RECURSIVE LogDatum(_, _, _)
LogDatum(d, hyp, q) ==
    CASE d.kind = "Gauss" ->
            LET s2 == NAdd(NSq(hyp[1]), IF q.a = "none" THEN "0" ELSE NSq(q.a))
            IN  NMul(NMul("-0.5", Wt(q)), NAdd(NDiv(NSq(q.r), s2), NAdd(Ln2Pi, NLn(s2))))
      [] d.kind = "Laplace" ->
            LET s == Sc(hyp, q)
            IN  NNeg(NMul(Wt(q), NAdd(NDiv(NAbs(q.r), s), NLn(NMul("2", s)))))
      [] d.kind = "Cauchy" ->
            LET s == Sc(hyp, q)
            IN  NSub(NLn(s), NAdd(NLn(Pi), NLn(NAdd(NSq(q.r), NSq(s)))))
      [] d.kind = "Exponential" ->
            LET s == Sc(hyp, q)  p == hyp[2]
                t == IF NEq(q.r, "0") THEN "0" ELSE NPow(NDiv(NAbs(q.r), s), p)
            IN  NMul(Wt(q), NSub(NSub(NLn(NDiv(p, NMul("2", s))), NLnGamma(NDiv("1", p))), t))
      [] d.kind = "Uniform" ->
            LET s == Sc(hyp, q)
            IN  IF NLt(NAbs(q.r), s) THEN NNeg(NMul(Wt(q), NLn(NMul("2", s)))) ELSE NoLn
      [] d.kind = "Poisson" ->
            IF NLe(q.m, "0") THEN NoLn
            ELSE NSub(NSub(NMul(q.y, NLn(q.m)), q.m), NLnGamma(NAdd(q.y, "1")))
      [] d.kind = "Bernoulli" -> NLn(IF q.w = "class" \/ NEq(q.y, "0") THEN q.m ELSE NSub("1", q.m))
      [] d.kind = "Mixed" ->
            LnMix(Frac(hyp), LogDatum(d.sub[1], Hyp1(d, hyp), q), LogDatum(d.sub[2], Hyp2(d, hyp), q))

\* slope to what the model says (m), and to the hyperparameters (h)
Digamma(a) == NDiv(NSub(NLnGamma(NAdd(a, "1e-6")), NLnGamma(NSub(a, "1e-6"))), "2e-6")

RECURSIVE Slope(_, _, _)
Slope(d, hyp, q) ==
    CASE d.kind = "Gauss" ->
            LET s2 == NAdd(NSq(hyp[1]), IF q.a = "none" THEN "0" ELSE NSq(q.a))
            IN  [m |-> NDiv(NMul(Wt(q), q.r), s2),
                 h |-> <<NMul(NMul(Wt(q), hyp[1]), NSub(NDiv(NSq(q.r), NSq(s2)), NDiv("1", s2)))>>]
      [] d.kind = "Laplace" ->
            LET s == Sc(hyp, q)
            IN  [m |-> NDiv(NMul(Wt(q), NSgn(q.r)), s),
                 h |-> <<NMul(Wt(q), NSub(NDiv(NAbs(q.r), NSq(s)), NDiv("1", s)))>>]
      [] d.kind = "Cauchy" ->
            LET s == Sc(hyp, q)  t == NAdd(NSq(q.r), NSq(s))
            IN  [m |-> NDiv(NMul("2", q.r), t), h |-> <<NSub(NDiv("1", s), NDiv(NMul("2", s), t))>>]
      [] d.kind = "Exponential" ->
            LET s == Sc(hyp, q)  p == hyp[2]
                z == NDiv(NAbs(q.r), s)
                t == IF NEq(q.r, "0") THEN "0" ELSE NPow(z, p)
            IN  [m |-> IF NEq(q.r, "0") THEN "0" ELSE NMul(Wt(q), NDiv(NMul(p, t), q.r)),
                 h |-> <<NDiv(NMul(Wt(q), NSub(NMul(p, t), "1")), s),
                         NMul(Wt(q), NSub(NDiv(NAdd(p, Digamma(NDiv("1", p))), NSq(p)), IF NEq(q.r, "0") THEN "0" ELSE NMul(t, NLn(z))))>>]
      [] d.kind = "Uniform" -> [m |-> "0", h |-> <<NNeg(NDiv(Wt(q), Sc(hyp, q)))>>]
      [] d.kind = "Poisson" -> [m |-> NSub(NDiv(q.y, q.m), "1"), h |-> <<>>]
      [] d.kind = "Bernoulli" ->
            [m |-> IF q.w = "class" \/ NEq(q.y, "0") THEN NDiv("1", q.m) ELSE NNeg(NDiv("1", NSub("1", q.m))), h |-> <<>>]
      [] d.kind = "Mixed" ->
            LET f == Frac(hyp)
                l1 == LogDatum(d.sub[1], Hyp1(d, hyp), q)  l2 == LogDatum(d.sub[2], Hyp2(d, hyp), q)
                lm == LnMix(f, l1, l2)
                e(z) == IF z = NoLn THEN "0" ELSE NExp(NSub(z, lm))
                s1 == Slope(d.sub[1], Hyp1(d, hyp), q)  s2 == Slope(d.sub[2], Hyp2(d, hyp), q)
                a == NMul(f, e(l1))  b == NMul(NSub("1", f), e(l2))
            IN  IF lm = NoLn THEN [m |-> "0", h |-> [k \in 1 .. NHyp(d) |-> "0"]]
                ELSE [m |-> NAdd(NMul(a, s1.m), NMul(b, s2.m)),
                      h |-> VScale(a, s1.h) \o VScale(b, s2.h) \o <<NSub(e(l1), e(l2))>>]

-----------------------------------------------------------------------------
(* Problems.                                                               *)

\* item i of n data, from a list that is the same for all, for each point, or for each datum
Item(s, i, n) == IF Len(s) = 1 THEN s[1] ELSE IF Len(s) = n THEN s[i] ELSE s[((i - 1) \div (n \div Len(s))) + 1]

\* a residual in a circle
Wrap(r, cyc) ==
    IF cyc = "none" THEN r
    ELSE LET h == NDiv(cyc, "2")
         IN  IF NLt(r, NNeg(h)) THEN NAdd(r, cyc) ELSE IF NLt(h, r) THEN NSub(r, cyc) ELSE r

NOutPb(pb) == IF pb.kind = "multi" THEN COut(pb.ch) ELSE 1
NPar(pb) == CPar(pb.ch) + (IF pb.kind = "xy" THEN Len(pb.x) ELSE 0)

\* what the model says for each datum: value and slopes
Says(pb, p) ==
    LET no == NOutPb(pb)
        ev == TLCEval([i \in 1 .. Len(pb.x) |-> Eval(pb.ch, p, pb.x[i])])
    IN  TLCEval([k \in 1 .. Len(pb.y) |->
            LET i == ((k - 1) \div no) + 1
            IN  IF pb.kind = "class" THEN ev[i][NToInt(pb.y[k]) + 1] ELSE ev[i][((k - 1) % no) + 1]])
Data(pb, sy) ==
    LET n == Len(pb.y)
    IN  TLCEval([k \in 1 .. n |->
            [y |-> pb.y[k], m |-> sy[k].v, r |-> IF pb.kind = "multi" /\ (k - 1) % NOutPb(pb) # 1 THEN NSub(pb.y[k], sy[k].v)
                                                   ELSE Wrap(NSub(pb.y[k], sy[k].v), pb.cyc),
             w |-> IF pb.kind = "class" THEN "class" ELSE IF pb.w = <<>> THEN "none" ELSE Item(pb.w, k, n),
             a |-> IF pb.acc = <<>> THEN "none" ELSE Item(pb.acc, k, n)]])
SumW(qs) == NSum([k \in 1 .. Len(qs) |-> Wt(qs[k])])

Total(s) == IF \E k \in 1 .. Len(s) : s[k] = NoLn THEN NoLn ELSE NSum(s)
LogL(d, hyp, qs) == Total(TLCEval([k \in 1 .. Len(qs) |-> LogDatum(d, hyp, qs[k])]))

\* slopes of the log likelihood to all parameters and hyperparameters: <<sum, sum of sizes>>
Slopes(d, hyp, np, sy, qs) ==
    LET sl == TLCEval([k \in 1 .. Len(qs) |-> Slope(d, hyp, qs[k])])
        terms(i) == TLCEval([k \in 1 .. Len(qs) |-> IF i <= np THEN NMul(sl[k].m, sy[k].g[i]) ELSE sl[k].h[i - np]])
    IN  TLCEval([i \in 1 .. np + NHyp(d) |-> LET t == terms(i) IN <<NSum(t), NSum([k \in 1 .. Len(t) |-> NAbs(t[k])])>>])

\* errors in x and y: the positions of the points are the last parameters
Cov(pb, i) == IF pb.acc = <<>> THEN <<"0", "0", "0">> ELSE Item(pb.acc, i, Len(pb.x))
XYDatum(pb, p, s, i) ==
    LET np == CPar(pb.ch)
        u == p[np + i]
        X == NSub(pb.x[i][1], u)
        Y == NSub(pb.y[i], Eval(pb.ch, SubSeq(p, 1, np), <<u>>)[1].v)
        c == Cov(pb, i)
        yy == NAdd(c[1], NSq(s))  xx == NAdd(c[2], NSq(s))  xy == c[3]
        det == NSub(NMul(yy, xx), NSq(xy))
        chi == NDiv(NSub(NAdd(NMul(NSq(Y), xx), NMul(NSq(X), yy)), NMul("2", NMul(NMul(X, Y), xy))), det)
    IN  NMul(NMul("-0.5", IF pb.w = <<>> THEN "1" ELSE Item(pb.w, i, Len(pb.x))), NAdd(NAdd(NMul("2", Ln2Pi), NLn(det)), chi))
XYLogs(pb, p, hyp) == TLCEval([i \in 1 .. Len(pb.x) |-> XYDatum(pb, p, hyp[1], i)])
Shift(s, i, h) == [s EXCEPT ![i] = NAdd(@, h)]
XYSlope(pb, p, hyp, i) ==
    LET h == "1e-5"  np == Len(p)
        at(e) == IF i <= np THEN NSum(XYLogs(pb, Shift(p, i, e), hyp)) ELSE NSum(XYLogs(pb, p, Shift(hyp, i - np, e)))
    IN  NDiv(NSub(at(h), at(NNeg(h))), NMul("2", h))

-----------------------------------------------------------------------------
(* The scale where the likelihood of the residuals is highest.             *)
MaxScale(d, hyp, qs) ==
    LET sum(f(_)) == NSum([k \in 1 .. Len(qs) |-> NMul(Wt(qs[k]), f(qs[k].r))])
    IN  CASE d.kind \in {"Gauss", "Poisson"} -> NSqrt(NDiv(sum(NSq), SumW(qs)))
          [] d.kind = "Laplace" -> NDiv(sum(NAbs), SumW(qs))
          [] d.kind = "Exponential" ->
                LET f(r) == NPow(NAbs(r), hyp[2]) IN NPow(NMul(hyp[2], NDiv(sum(f), SumW(qs))), NDiv("1", hyp[2]))
          [] d.kind = "Uniform" ->
                LET s == {NAbs(qs[k].r) : k \in 1 .. Len(qs)} IN CHOOSE a \in s : \A b \in s : NLe(b, a)
\* the standard deviation of a distribution with these hyperparameters
Sigma(d, hyp) ==
    CASE d.kind = "Gauss" -> hyp[1]
      [] d.kind = "Laplace" -> NMul(hyp[1], NSqrt("2"))
      [] d.kind = "Uniform" -> NDiv(hyp[1], NSqrt("3"))
      [] d.kind = "Exponential" ->
            NMul(hyp[1], NExp(NMul("0.5", NSub(NLnGamma(NDiv("3", hyp[2])), NLnGamma(NDiv("1", hyp[2]))))))

-----------------------------------------------------------------------------
(* Hyperparameters.  Distributions refer to cells c = [v, pk, lo, hi, fix]:*)
(* value, kind of prior ("none", "Jeffreys" or "Uniform") and its limits   *)
(* ("none" when there are none), and whether it is kept fixed.  A mixture  *)
(* has the cells of its parts; a copy has cells of its own.                *)

Cell(v, pk, lo, hi) == [v |-> v, pk |-> IF pk = "none" /\ lo # "none" THEN "Jeffreys" ELSE pk, lo |-> lo, hi |-> hi,
                        fix |-> pk = "none" /\ lo = "none"]
CellLimit(c, lo, hi) == [c EXCEPT !.pk = IF @ = "none" THEN "Jeffreys" ELSE @, !.lo = lo, !.hi = hi, !.fix = FALSE]
CellFree(c) == ~ c.fix /\ c.lo # "none"
CellPrior(c) == PR!Create(c.pk, "0", "1", c.lo, c.hi, "no")
=============================================================================
