------------------------------- MODULE Priors -------------------------------
(***************************************************************************)
(* Prior distributions with limits.                                        *)
(*                                                                         *)
(* A prior is [kind, c, s, lo, hi, circ]: the kind, center and scale       *)
(* ("0" and "1" if it has none), the limits, and whether the domain is     *)
(* folded on itself.  Limits that are not set are at the edge of the       *)
(* domain.  The cumulative distribution is written once; the map to the    *)
(* unit interval, the density and the integral follow from it.             *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC

Kinds == {"Uniform", "CircularUniform", "Jeffreys", "Exponential", "Laplace", "Gauss", "Cauchy"}
Centered == {"Laplace", "Gauss", "Cauchy"}
Scaled == Centered \cup {"Exponential"}
DomLo(kind) == IF kind \in {"Jeffreys", "Exponential"} THEN "0" ELSE "-inf"
DomHi(kind) == "inf"

\* a limit that is not given
LoOf(kind, v) == IF v = "none" THEN DomLo(kind) ELSE v
HiOf(kind, v) == IF v = "none" THEN DomHi(kind) ELSE v
InOrder(kind, lo, hi) == NLe(DomLo(kind), lo) /\ NLt(lo, hi) /\ NLe(hi, DomHi(kind))

HasLo(p) == NLt(DomLo(p.kind), p.lo)
HasHi(p) == NLt(p.hi, DomHi(p.kind))
Range(p) == NSub(p.hi, p.lo)

\* improper without limits
IsBound(p) == p.kind \in Scaled \/ (HasLo(p) /\ HasHi(p))

-----------------------------------------------------------------------------
\* cumulative distribution, without limits (up to a constant for the improper ones)
Cum(p, x) ==
    LET z == NDiv(NSub(x, p.c), p.s)
    IN  CASE p.kind \in {"Uniform", "CircularUniform"} -> x
          [] p.kind = "Jeffreys" -> NLn(x)
          [] p.kind = "Gauss" -> IF ~ NIsNum(z) THEN (IF NLt(z, "0") THEN "0" ELSE "1")
                                 ELSE NMul("0.5", NAdd("1", NErf(NDiv(z, NSqrt("2")))))
          [] p.kind = "Cauchy" -> IF ~ NIsNum(z) THEN (IF NLt(z, "0") THEN "0" ELSE "1")
                                  ELSE NAdd("0.5", NDiv(NAtan(z), Pi))
          [] OTHER -> IF NLt(z, "0") THEN (IF NIsNum(z) THEN NMul("0.5", NExp(z)) ELSE "0")
                      ELSE IF NIsNum(z) THEN NSub("1", NMul("0.5", NExp(NNeg(z)))) ELSE "1"
\* its derivative
Pdf(p, x) ==
    LET z == NDiv(NSub(x, p.c), p.s)
    IN  CASE p.kind \in {"Uniform", "CircularUniform"} -> "1"
          [] p.kind = "Jeffreys" -> NDiv("1", x)
          [] p.kind = "Gauss" -> NDiv(NExp(NMul("-0.5", NSq(z))), NMul(p.s, NSqrt(NMul("2", Pi))))
          [] p.kind = "Cauchy" -> NDiv("1", NMul(NMul(Pi, p.s), NAdd("1", NSq(z))))
          [] OTHER -> NDiv(NMul("0.5", NExp(NNeg(NAbs(z)))), p.s)
\* derivative of the log of it
PdfLog(p, x) ==
    LET z == NDiv(NSub(x, p.c), p.s)
    IN  CASE p.kind \in {"Uniform", "CircularUniform"} -> "0"
          [] p.kind = "Jeffreys" -> NNeg(NDiv("1", x))
          [] p.kind = "Gauss" -> NNeg(NDiv(z, p.s))
          [] p.kind = "Cauchy" -> NNeg(NDiv(NMul("2", z), NMul(p.s, NAdd("1", NSq(z)))))
          [] OTHER -> NDiv(NNeg(NSgn(z)), p.s)

Mass(p) == NSub(Cum(p, p.hi), Cum(p, p.lo))
\* what Prior.getIntegral has to be
Integral(p) == IF p.kind \in {"Uniform", "CircularUniform", "Jeffreys"} THEN Mass(p) ELSE "1"

\* position between the limits, in [0,1]
Unit(p, x) == NDiv(NSub(Cum(p, x), Cum(p, p.lo)), Mass(p))
\* the unit interval covers a circular domain three times; x itself is in the middle
ToUnit(p, x) == IF p.circ THEN NDiv(NAdd(Unit(p, x), "1"), "3") ELSE Unit(p, x)
Frac(u) == NSub(u, NFloor(u))
Place(p, u) == IF p.circ THEN Frac(NMul("3", u)) ELSE u

Outside(p, x) == NLt(x, p.lo) \/ NLt(p.hi, x)
Density(p, x) == IF Outside(p, x) THEN "0" ELSE NDiv(Pdf(p, x), Mass(p))
Stay(p, x) == IF NLt(x, p.lo) THEN p.lo ELSE IF NLt(p.hi, x) THEN p.hi ELSE x

-----------------------------------------------------------------------------
(* Actions.                                                                *)

\* circ: "no", "yes" (the limits are the period) or a number, the period
Create(kind, c, s, lo, hi, circ) ==
    IF circ \notin {"no", "yes"} THEN
        LET a == IF kind \in Centered THEN NSub(c, NDiv(circ, "2")) ELSE "0"
        IN  [kind |-> kind, c |-> c, s |-> s, lo |-> a, hi |-> NAdd(a, circ), circ |-> TRUE]
    ELSE LET given == lo # "none" \/ hi # "none"
             round == (circ = "yes" \/ kind = "CircularUniform") /\ given
             cc == IF circ = "yes" /\ given /\ NEq(c, "0") THEN NDiv(NAdd(lo, hi), "2") ELSE c
         IN  [kind |-> kind, c |-> IF kind \in Centered THEN cc ELSE c, s |-> s, lo |-> LoOf(kind, lo), hi |-> HiOf(kind, hi), circ |-> round]

\* none, none: remove the limits, and the period with it
Limit(p, lo, hi) ==
    LET q == [p EXCEPT !.lo = LoOf(p.kind, lo), !.hi = HiOf(p.kind, hi)]
    IN  IF (lo = "none" /\ hi = "none") \/ ~ IsBound(q) THEN [q EXCEPT !.circ = FALSE] ELSE q

\* enough of the distribution is between the limits for the numbers to be good
Tame(p) == IsBound(p) /\ NLt("1e-3", Mass(p))
=============================================================================
