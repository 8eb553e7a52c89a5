------------------------------- MODULE Tr_Fit -------------------------------
(* Trace validation of fitters: every recorded fit has to be a minimum of  *)
(* chisq where Fit.tla says it is, and what is derived from it has to obey *)
(* the formulas there.                                                     *)
EXTENDS Fit, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, f
tvars == <<l, f>>

NoFitter == [kind |-> "", ch |-> <<>>, p |-> <<>>, x |-> <<>>, keep |-> <<>>, norm |-> <<>>, fixed |-> "none",
             minsc |-> "0", last |-> NoFit]
V(props, clause, info) == [prop |-> props, clause |-> clause, info |-> info]

Linear == {"Fitter", "QRFitter"}
\* tolerances on the decrement in units of chisq
DecTol(kind) ==
    CASE kind \in Linear -> "1e-8"
      [] kind = "CurveFitter" -> "1e-5"
      [] kind = "LevenbergMarquardtFitter" -> "1e-4"
      [] OTHER -> "1e-2"
Fam(f0) == IF f0.kind \in Linear THEN "C10" ELSE "C13"

\* a width went through 0: the model uses its size, its slopes are those of the size
Turned(ch, p) == LET RECURSIVE T(_, _)
                     T(k, off) == IF k > Len(ch) THEN FALSE
                        ELSE LET n == CPar(<<ch[k]>>) IN
                             \/ ZPos(ch[k].t.z) # {} /\ \E i \in 1 .. n : NLe(p[off + i], "0")
                             \/ T(k + 1, off + n)
                 IN  T(1, 0)

\* ----- observations common to all fits
Common(e, p, w, sw, idx, pts, prop) ==
    LET chi == Chisq(pts, e.y, w)
        np == Len(p)
    IN  (IF SeqClose(e.ret, p, "1e-13") THEN {} ELSE {V({prop}, "fit does not return the parameters", ToString(<<e.ret, p>>))})
        \cup (IF NClose(e.chisq, chi, "1e-7") THEN {} ELSE {V({"C11"}, "chisq after a fit", ToString(<<e.chisq, chi>>))})
        \cup (IF e.npfit = Len(idx) THEN {} ELSE {V({"C12"}, "npfit after a fit", ToString(<<e.npfit, idx>>))})
        \cup (IF NClose(e.sumwgt, sw, "1e-12") THEN {} ELSE {V({"C11"}, "sumwgt after a fit", ToString(<<e.sumwgt, sw>>))})
        \cup (IF SeqClose(e.yfit, [i \in 1 .. Len(pts) |-> pts[i].v], "1e-8") THEN {}
              ELSE {V({prop}, "yfit is not the model at the solution", "")})
        \cup (IF e.same THEN {} ELSE {V({prop, "C12"}, "fit changes its arguments", e.changed)})

\* clip p at the limits; the parameters that were out, with their limits
OutOf(ch, p, keep) ==
    LET out(k) == LET pr == GetPrior(ch, k - 1) IN k \notin Kept(keep) /\ (NLt(p[k], pr.lo) \/ NLt(pr.hi, p[k]))
        v(k) == LET pr == GetPrior(ch, k - 1) IN IF NLt(p[k], pr.lo) THEN pr.lo ELSE pr.hi
        RECURSIVE Col(_)
        Col(k) == IF k > Len(p) THEN <<>> ELSE (IF out(k) THEN <<[i |-> k - 1, v |-> v(k)]>> ELSE <<>>) \o Col(k + 1)
    IN  Col(1)
RECURSIVE LimitKeep(_, _, _, _, _)
LimitKeep(g, y, w, p, keep) ==
    LET q == LeastSquares(g.ch, g.x, y, w, g.norm, p, keep)
        out == OutOf(g.ch, q, keep)
    IN  IF out = <<>> THEN keep ELSE LimitKeep(g, y, w, q, keep \o out)

\* the function, slope and second derivative handed to a general minimizer
Asked(a, e, pts0, start, w, idx) ==
    LET x0 == [k \in 1 .. Len(idx) |-> start[idx[k]]]
        g == TLCEval(VScale("-2", Grad(pts0, e.y, w, f.norm, start, idx)))
        h == Hess(pts0, w, f.norm, idx)
    IN  IF Turned(f.ch, start) THEN {}
        ELSE (IF SeqClose(a.x0, x0, "1e-12") THEN {} ELSE {V({"C13", "C12"}, "the minimizer starts elsewhere", ToString(<<a.x0, x0>>))})
        \cup (IF NClose(a.f, NAdd(Chisq(pts0, e.y, w), ExtraChi(f.norm, start)), "1e-8") THEN {}
              ELSE {V({"C13"}, "the function minimized is not chisq", a.f)})
        \cup (IF a.g = <<>> \/ SeqClose(a.g, g, "1e-6") THEN {} ELSE {V({"C13"}, "the gradient used is not that of chisq", ToString(<<a.g, g>>))})
        \cup (IF a.h = <<>> \/ (Len(a.h) = Len(h) /\ \A k \in 1 .. Len(h) : SeqClose(a.h[k], VScale("2", h[k]), "1e-6")) THEN {}
              ELSE {V({"C13"}, "the hessian used is not that of chisq", ToString(<<a.h, h>>))})

FitStep(e) ==
    LET given == IF e.given THEN e.keep ELSE f.keep
        n == Len(f.x)
        w == Weights(n, e.w, e.acc)
        sw == SumWeights(n, e.w)
        np == CPar(f.ch)
        \* a linear fit does not depend on where it starts
        start == TLCEval(Insert(IF f.kind \in Linear THEN [k \in 1 .. np |-> "0"] ELSE IF e.par0 = <<>> THEN f.p ELSE e.par0, given))
        keep == IF e.how = "limitsFit" THEN LimitKeep(f, e.y, w, start, given) ELSE given
        idx == Index(np, keep)
        p == e.p
        g == [f EXCEPT !.p = p, !.last = [ok |-> TRUE, idx |-> idx, y |-> e.y, w |-> w, sw |-> sw, acc |-> e.acc, keep |-> keep]]
        good == Good(Hess(Points(f.ch, start, f.x), w, f.norm, idx)) /\ (keep = given \/ Good(Hess(Points(f.ch, start, f.x), w, f.norm, Index(np, given))))
    IN
    IF f.kind \in Linear /\ ~ good THEN [f |-> [f EXCEPT !.p = e.p, !.last = NoFit], bad |-> {}]
    ELSE IF e.exc = "ValueError: " \o f.kind \o ": chisq <= 0" /\ NLt(Chisq(Points(f.ch, LeastSquares(f.ch, f.x, e.y, w, f.norm, start, keep), f.x), e.y, w), "1e-12") THEN [f |-> [f EXCEPT !.p = e.p, !.last = NoFit], bad |-> {}]
    ELSE IF e.exc # "" THEN [f |-> f, bad |-> {V({Fam(f)} \cup (IF keep # <<>> THEN {"C12"} ELSE {}), "fit raises", e.exc)}]
    ELSE IF Len(p) # np THEN [f |-> f, bad |-> {V({Fam(f)}, "number of parameters after a fit", Len(p))}]
    ELSE IF \E k \in 1 .. np : ~ NIsNum(p[k]) THEN [f |-> f, bad |-> {V({Fam(f)}, "parameters are not numbers", ToString(p))}]
    ELSE
    LET pts == TLCEval(Points(f.ch, p, f.x))
        chi == Chisq(pts, e.y, w)
        tot == NAdd(chi, ExtraChi(f.norm, p))
        dec == Decrement(pts, e.y, w, f.norm, p, idx)
        pts0 == Points(f.ch, start, f.x)
        tot0 == NAdd(Chisq(pts0, e.y, w), ExtraChi(f.norm, start))
        kept == \A k \in Kept(keep) : NClose(p[k], Insert(p, keep)[k], "1e-14")
        hasl == \E k \in 1 .. np : LET pr == GetPrior(f.ch, k - 1) IN NIsNum(pr.lo) \/ NIsNum(pr.hi)
        \* at a limit the slope need not vanish
        inner == {a \in 1 .. Len(idx) : LET k == idx[a] IN
                    /\ NLt(NAdd(e.lo[k], "1e-6"), p[k]) /\ NLt(p[k], NSub(e.hi[k], "1e-6"))}
        what == (IF kept THEN {} ELSE {V({"C12"}, "a kept parameter is not at its value", ToString(<<p, keep>>))})
            \cup Common(e, p, w, sw, idx, pts, Fam(f))
            \cup (IF f.kind \in Linear
                  THEN LET q == LeastSquares(f.ch, f.x, e.y, w, f.norm, start, keep)
                       IN  IF NLe(NAbs(dec), NMax(NMul(DecTol(f.kind), tot), "1e-12")) /\ SeqClose(p, q, "1e-5") THEN {}
                           ELSE {V({"C10"} \cup (IF keep # <<>> THEN {"C12"} ELSE {}), e.how \o " is not at the least squares solution", ToString(<<p, q, keep>>))}
                  ELSE
                  (IF e.asked = <<>> THEN {} ELSE Asked(e.asked[1], e, pts0, start, w, idx))
                  \cup (IF \A k \in 1 .. np : NLe(e.lo[k], p[k]) /\ NLe(p[k], e.hi[k]) THEN {}
                   ELSE {V({"C13"}, "solution is outside the limits", ToString(<<p, e.lo, e.hi>>))})
                  \cup (IF ~ e.ok \/ NLe(tot, NAdd(NMul("1.000001", tot0), IF f.kind = "LevenbergMarquardtFitter" THEN "1" ELSE "1e-9")) THEN {}
                        ELSE {V({"C13"}, "chisq is larger than where the fit started", ToString(<<tot0, tot>>))})
                  \cup (IF ~ e.ok \/ (f.kind = "AmoebaFitter" /\ e.limits # <<>>) \/ Cardinality(inner) # Len(idx) \/ Turned(f.ch, p) \/ NLe(NAbs(dec), NMul(DecTol(f.kind), NMax(tot, IF f.kind \in {"CurveFitter", "LevenbergMarquardtFitter", "AmoebaFitter"} THEN "1e-3" ELSE "1"))) THEN {}
                        ELSE {V({"C13"} \cup (IF keep # <<>> THEN {"C12"} ELSE {}), "the slope of chisq does not vanish at the solution", ToString(<<p, dec, tot>>))}))
    IN  [f |-> g, bad |-> what]

\* ----- scale, covariance, standard deviations
StatStep(e) ==
    LET np == CPar(f.ch)
        L == f.last
        pts == TLCEval(Points(f.ch, f.p, f.x))
        chi == Chisq(pts, L.y, L.w)
        dof == NSub(L.sw, NOfInt(Len(L.idx)))
        P == {"C11"} \cup (IF L.keep # <<>> THEN {"C12"} ELSE {})
    IN  IF Turned(f.ch, f.p) \/ NLe(NAbs(dof), "1e-6") \/ NLt(chi, "1e-12") \/ (NLt("0", dof) /\ ~ Good(Hess(pts, L.w, f.norm, L.idx))) THEN {}
        ELSE IF NLe(dof, "0") THEN
            IF e.exc = "RuntimeError" THEN {} ELSE {V({"C11"}, "no RuntimeError with more parameters than data", e.exc)}
        ELSE IF e.exc # "" THEN {V(P, "scale or standard deviations raise", e.exc)}
        ELSE LET var == NDiv(chi, dof)
                 h == Hess(pts, L.w, f.norm, L.idx)
                 inv == Inverse(h)
                 v2 == NAdd(var, NSq(f.minsc))
                 n == Len(L.idx)
                 sd == [k \in 1 .. np |-> IF \E a \in 1 .. n : L.idx[a] = k
                            THEN LET a == CHOOSE a \in 1 .. n : L.idx[a] = k IN NSqrt(NMul(v2, inv[a][a])) ELSE "0"]
             IN  (IF NClose(e.scale, NSqrt(var), "1e-7") THEN {} ELSE {V({"C11"}, "scale", ToString(<<e.scale, NSqrt(var)>>))})
                 \cup (IF Len(e.cov) = n /\ \A a \in 1 .. n : Len(e.cov[a]) = n /\ \A b \in 1 .. n :
                            NLe(NAbs(NSub(e.cov[a][b], NMul(v2, inv[a][b]))), NMul("1e-5", NMul(v2, NSqrt(NAbs(NMul(inv[a][a], inv[b][b]))))))
                       THEN {} ELSE {V(P, "covariance", ToString(<<e.cov, v2, inv>>))})
                 \cup (IF SeqClose(e.sd, sd, "1e-5") THEN {} ELSE {V(P, "standard deviations", ToString(<<e.sd, sd>>))})
                 \cup (IF SeqEq(e.msd, e.sd) THEN {} ELSE {V({"C11"}, "standard deviations of the model", "")})
                 \cup (IF NClose(e.ssc, NDiv(NSqrt(var), NSqrt(NMul("2", L.sw))), "1e-7") THEN {} ELSE {V({"C11"}, "stdevScale", e.ssc)})

\* ----- evidence
EvStep(e) ==
    LET np == CPar(f.ch)
        L == f.last
        n == Len(L.idx)
        pts == TLCEval(Points(f.ch, f.p, f.x))
        chi == Chisq(pts, L.y, L.w)
        dof == NSub(L.sw, NOfInt(n))
        noise == e.noise
        fs == IF f.fixed = "none" THEN "1" ELSE f.fixed
        var == IF noise = <<>> THEN NSq(fs) ELSE NAdd(NDiv(chi, dof), NSq(f.minsc))
        la == LogAcc(Len(f.x), L.sw, L.acc)
        haspri == \A k \in 1 .. np : HasLimit(GetPrior(f.ch, k - 1))
        \* limits of one number hold for all parameters
        lim(s, k) == IF k <= Len(s) THEN s[k] ELSE s[Len(s)]
        rng(k) == IF e.lims # <<>> THEN NSub(lim(e.lims[2], k), lim(e.lims[1], k))
                  ELSE LET pr == GetPrior(f.ch, k - 1) IN NSub(pr.hi, pr.lo)
        want == LogZ(L.sw, n, chi, var, la, Hess(pts, L.w, f.norm, L.idx), [a \in 1 .. n |-> rng(L.idx[a])], noise)
    IN  IF Turned(f.ch, f.p) \/ NLe(NAbs(dof), "1e-6") \/ NLt(chi, "1e-12") \/ (NLt("0", dof) /\ ~ Good(Hess(pts, L.w, f.norm, L.idx))) THEN {}
        ELSE IF NLe(dof, "0") THEN
            IF e.exc = "RuntimeError" THEN {} ELSE {V({"C15"}, "no RuntimeError with more parameters than data", e.exc)}
        ELSE IF n > 0 /\ e.lims = <<>> /\ ~ haspri THEN
            IF e.exc = "ValueError" THEN {} ELSE {V({"C15"}, "no ValueError without limits", e.exc)}
        ELSE IF e.exc # "" THEN {V({"C15"}, "evidence raises", e.exc)}
        ELSE (IF NClose(e.logz, want, "1e-5") THEN {} ELSE {V({"C15"}, "logZ", ToString(<<e.logz, want>>))})
             \cup (IF NClose(e.evid, NDiv(e.logz, NLn("10")), "1e-12") THEN {} ELSE {V({"C15"}, "evidence is not 10log of Z", "")})
             \cup (IF NClose(NAdd(e.logl, e.occam), e.logz, "1e-10") THEN {} ELSE {V({"C15"}, "logZ is not likelihood times Occam factor", "")})
             \cup (IF NClose(e.logl, LogLik(L.sw, chi, var, la), "1e-6") THEN {} ELSE {V({"C15"}, "logLikelihood", e.logl)})

\* ----- robust fits: the whole history of reweighting
HalfWidth(k) ==     \* where the kernel is half its top
    LET RECURSIVE Bis(_, _, _)
        Bis(a, b, n) == IF n = 0 THEN a ELSE LET m == NMul("0.5", NAdd(a, b)) IN
                        IF NLt(KFun(k, m)[1], "0.5") THEN Bis(a, m, n - 1) ELSE Bis(m, b, n - 1)
    IN  IF k = "Uniform" THEN "1" ELSE Bis("0", "3", 40)
RobWeights(k, res, sd, onesided, w) ==
    TLCEval([i \in 1 .. Len(res) |->
        LET r == KFun(k, NDiv(res[i], sd))[1]
            o == CASE onesided = "positive" -> IF NLt(res[i], "0") THEN "1" ELSE r
                   [] onesided = "negative" -> IF NLt("0", res[i]) THEN "1" ELSE r
                   [] OTHER -> r
        IN  IF w = <<>> THEN o ELSE NMul(o, w[i])])
RECURSIVE RobLoop(_, _, _, _, _, _, _)
RobLoop(e, idx, p, w, chi, it, dom) ==
    LET n == Len(f.x)
        pts == TLCEval(Points(f.ch, p, f.x))
        res == [i \in 1 .. n |-> NSub(e.y[i], pts[i].v)]
        scale == NSqrt(NDiv(chi, NSub(SumWeights(n, w), NOfInt(Len(idx)))))
        w2 == RobWeights(e.kernel, res, NMul(scale, dom), e.onesided, e.w)
        q == LeastSquares(f.ch, f.x, e.y, w2, <<>>, p, f.keep)
        c2 == Chisq(Points(f.ch, q, f.x), e.y, w2)
        tol == IF NLt(c2, "1") THEN e.tol ELSE NMul(e.tol, c2)
    IN  IF it >= e.maxit THEN [p |-> p, w |-> w, chi |-> chi, it |-> it]
        ELSE IF NLe(NSub(SumWeights(n, w2), NOfInt(Len(idx))), "0.5")
             \/ Cardinality({i \in 1 .. n : NLt("1e-3", w2[i])}) <= Len(idx) + 1
             \/ NLt(c2, "1e-9") \/ ~ Good(Hess(pts, w2, <<>>, idx)) THEN [p |-> <<>>, w |-> w2, chi |-> c2, it |-> it]
        ELSE IF NLt(NAbs(NSub(chi, c2)), tol) THEN [p |-> q, w |-> w2, chi |-> c2, it |-> it]
        ELSE RobLoop(e, idx, q, w2, c2, it + 1, dom)
RobStep(e) ==
    LET n == Len(f.x)
        dom == IF e.domain = "default" THEN NDiv("3", HalfWidth(e.kernel)) ELSE e.domain
        w == IF e.w = <<>> THEN [i \in 1 .. n |-> "1"] ELSE e.w
        idx == Index(CPar(f.ch), f.keep)
        p0 == LeastSquares(f.ch, f.x, e.y, w, <<>>, f.p, f.keep)
        r == RobLoop(e, idx, p0, w, Chisq(Points(f.ch, p0, f.x), e.y, w), 0, dom)
    IN  IF r.p = <<>> THEN {}       \* too little is left to fit
        ELSE IF e.exc # "" THEN {V({"C14"}, "robust fit raises", e.exc)}
        ELSE IF ~ SeqClose(e.p, r.p, "1e-5") THEN {V({"C14"}, "solution of a robust fit", ToString(<<e.p, r.p>>))}
        ELSE (IF e.maxit = 0 \/ SeqClose(e.rw, r.w, "1e-4") THEN {} ELSE {V({"C14"}, "weights of a robust fit", ToString(<<e.rw, r.w>>))})
             \cup (IF NClose(e.chisq, r.chi, "1e-4") THEN {} ELSE {V({"C14"}, "chisq of a robust fit", ToString(<<e.chisq, r.chi>>))})
             \cup (IF SeqEq(e.ret, e.p) THEN {} ELSE {V({"C14"}, "robust fit does not return the parameters", "")})
             \cup (IF e.same THEN {} ELSE {V({"C14"}, "robust fit changes its arguments", e.changed)})

Step(e) ==
    CASE e.op = "reset" -> [f |-> NoFitter, bad |-> {}]
      [] e.op = "crash" -> [f |-> f, bad |-> {V({"C10", "C11", "C12", "C13", "C14", "C15"}, "driver stopped", e.exc)}]
      [] e.op = "new" ->
            LET p == Insert(e.p0, e.keep)
            IN  [f |-> [NoFitter EXCEPT !.kind = e.kind, !.ch = e.ch, !.p = p, !.x = e.x, !.keep = e.keep, !.fixed = e.fixed],
                 bad |-> IF e.exc # "" THEN {V({"C10", "C12", "C13"}, "construction of a fitter raises", e.exc)}
                         ELSE IF SeqEq(e.p, p) THEN {} ELSE {V({"C12"}, "a new fitter does not set the kept parameters", ToString(e.p))}]
      [] e.op = "norm" -> [f |-> [f EXCEPT !.norm = Append(@, [row |-> e.row, d |-> e.d, w |-> e.w]), !.last = NoFit], bad |-> {}]
      [] e.op = "minscale" -> [f |-> [f EXCEPT !.minsc = e.s], bad |-> {}]
      [] e.op = "setp" -> [f |-> [f EXCEPT !.p = e.p, !.last = NoFit], bad |-> {}]
      [] e.op = "fit" -> FitStep(e)
      [] e.op = "stat" -> [f |-> f, bad |-> IF f.last.ok THEN StatStep(e) ELSE {}]
      [] e.op = "ev" -> [f |-> f, bad |-> IF f.last.ok THEN EvStep(e) ELSE {}]
      [] e.op = "robust" -> [f |-> [f EXCEPT !.last = NoFit, !.p = IF e.exc = "" THEN e.p ELSE @], bad |-> RobStep(e)]

TInit == l = 0 /\ f = NoFitter
TNext ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET r == Step(Trace[l + 1])
       IN  /\ f' = r.f
           /\ \A b \in r.bad : PrintT("V|" \o ToJson([ln |-> l + 1, prop |-> b.prop, clause |-> b.clause, info |-> b.info]))
=============================================================================
