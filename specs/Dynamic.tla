------------------------------ MODULE Dynamic -------------------------------
(***************************************************************************)
(* Models that grow and shrink.                                            *)
(*                                                                         *)
(* A model is [ch, p, d, mn, mx, dyn, md]: a chain with parameters p, of   *)
(* which link d (from 1) has a number of components that may change        *)
(* between mn and mx (-1: no maximum), when dyn.  The link is a            *)
(* polynomial (component: a degree), a harmonic model (an order),          *)
(* B-splines (a knot; two knots lie at least md apart) or a repeated term. *)
(* The priors pri of a link are given for the parameters of its first      *)
(* component; those of a polynomial and of splines serve all further       *)
(* parameters with the last one.                                           *)
(***************************************************************************)
EXTENDS Models, TLC

Tm(e) == e.ch[e.d].t
Is(t, z) == t.k = "base" /\ t.z = z
Comp(t) ==
    CASE Is(t, "Polynomial") -> t.c.deg + 1
      [] Is(t, "Harmonic") -> t.c.deg
      [] Is(t, "BSpl") -> Len(t.c.knots)
      [] t.k = "rep" -> t.n
CanGrow(e) == e.dyn /\ (e.mx = -1 \/ Comp(Tm(e)) < e.mx)
CanShrink(e) == e.dyn /\ Comp(Tm(e)) > e.mn
Grown(t) == IF t.k = "rep" THEN [t EXCEPT !.n = @ + 1] ELSE [t EXCEPT !.c.deg = @ + 1]
Shrunk(t) == IF t.k = "rep" THEN [t EXCEPT !.n = @ - 1] ELSE [t EXCEPT !.c.deg = @ - 1]
Offset(ch, d) == SumInts([q \in 1 .. d - 1 |-> TPar(ch[q].t)])

\* parameter k (from 0) of a repeated term is a copy of which parameter of the term, of which component
InnerIdx(t, k) ==
    LET m == TPar(t.t)
        free == SelectSeq([i \in 1 .. m |-> i - 1], LAMBDA i : i \notin Range(t.same))
    IN  IF k < m THEN <<k, 0>> ELSE <<free[((k - m) % Len(free)) + 1], 1 + ((k - m) \div Len(free))>>

\* the prior of parameter k (from 0) of a link
LinkPrior(l, k) ==
    LET At(i) == l.pri[IF i + 1 < Len(l.pri) THEN i + 1 ELSE Len(l.pri)]
    IN  IF l.pri = <<>> THEN NoPrior
        ELSE IF l.t.k = "rep" THEN At(InnerIdx(l.t, k)[1])
        ELSE IF Is(l.t, "Harmonic") THEN At(k % 2)
        ELSE At(k)
RECURSIVE DPrior(_, _)
DPrior(ch, k) ==
    LET n == TPar(Head(ch).t)
    IN  IF k >= n THEN DPrior(Tail(ch), k - n) ELSE LinkPrior(Head(ch), k)
DPriors(ch) == [k \in 1 .. CPar(ch) |-> DPrior(ch, k - 1)]
InPrior(pr, u) == IF pr.kd = "none" THEN "nan" ELSE NAdd(pr.lo, NMul(u, NSub(pr.hi, pr.lo)))

RECURSIVE LinkName(_, _), ChainName(_, _)
ZNames(z, c) == CASE z = "Gauss" -> <<"amplitude", "center", "width">>
               [] z = "Exp" -> <<"amplitude", IF c.decay THEN "decay" ELSE "slope">>
               [] z = "Power" -> <<"coefficient">>
               [] z = "Sine" -> <<"frequency", "cosamp", "sinamp">>
LinkName(t, k) ==
    CASE Is(t, "Polynomial") -> "polycoeff_" \o ToString(k)
      [] Is(t, "Harmonic") -> (IF k % 2 = 0 THEN "cosamp_" ELSE "sinamp_") \o ToString(k \div 2)
      [] Is(t, "BSpl") -> "parameter_" \o ToString(k)
      [] t.k = "br" -> ChainName(t.ch, k)
      [] t.k = "rep" -> LET i == InnerIdx(t, k)
                        IN  LinkName(t.t, i[1]) \o (IF i[1] \in Range(t.same) THEN "" ELSE "_" \o ToString(i[2]))
      [] OTHER -> ZNames(t.z, t.c)[k + 1]
ChainName(ch, k) ==
    LET n == TPar(Head(ch).t)
    IN  IF k >= n THEN ChainName(Tail(ch), k - n) ELSE LinkName(Head(ch).t, k)
Names(ch) == [k \in 1 .. CPar(ch) |-> ChainName(ch, k - 1)]

-----------------------------------------------------------------------------
\* one component more, its parameters vals after those of the link, of the units u in the priors
GrowTo(e) == [e EXCEPT !.ch[e.d].t = Grown(@)]
NewVals(e, u) ==
    LET g == GrowTo(e)
        k0 == Offset(e.ch, e.d) + TPar(Tm(e))
        n == TPar(Tm(g)) - TPar(Tm(e))
    IN  [k \in 1 .. n |-> IF u = <<>> THEN "0" ELSE InPrior(DPrior(g.ch, k0 + k - 1), u[k])]
Grow(e, u) ==
    LET k0 == Offset(e.ch, e.d) + TPar(Tm(e))
    IN  [GrowTo(e) EXCEPT !.p = SubSeq(e.p, 1, k0) \o NewVals(e, u) \o SubSeq(e.p, k0 + 1, Len(e.p))]
Shrink(e) ==
    LET s == [e EXCEPT !.ch[e.d].t = Shrunk(@)]
        k0 == Offset(e.ch, e.d) + TPar(Tm(e))
        n == TPar(Tm(e)) - TPar(Tm(s))
    IN  [s EXCEPT !.p = SubSeq(e.p, 1, k0 - n) \o SubSeq(e.p, k0 + 1, Len(e.p))]

\* indices of parameters (negative: from the end) when at index at, dnp parameters are put in, or
\* -dnp parameters are taken out before it
FitIdx(fi, at, dnp) ==
    SelectSeq(fi, LAMBDA k : 0 <= k /\ k < (IF dnp > 0 THEN at ELSE at + dnp))
    \o (IF dnp > 0 THEN [i \in 1 .. dnp |-> at + i - 1] ELSE <<>>)
    \o [i \in 1 .. Len(SelectSeq(fi, LAMBDA k : k >= at)) |-> SelectSeq(fi, LAMBDA k : k >= at)[i] + dnp]
    \o SelectSeq(fi, LAMBDA k : k < 0)

\* the components of a repeated term: blocks of parameters that belong together, the first one without the shared
Blocks(t, q) ==
    LET m == TPar(t.t)
        free == SelectSeq([i \in 1 .. m |-> i], LAMBDA i : (i - 1) \notin Range(t.same))
    IN  IF t.n = 0 THEN <<>>
        ELSE <<[i \in 1 .. Len(free) |-> q[free[i]]]>>
             \o [j \in 1 .. t.n - 1 |-> SubSeq(q, m + (j - 1) * Len(free) + 1, m + j * Len(free))]
SameBag(s, t) ==
    /\ Len(s) = Len(t)
    /\ \A x \in Range(s) \cup Range(t) : Cardinality({i \in 1 .. Len(s) : s[i] = x}) = Cardinality({i \in 1 .. Len(t) : t[i] = x})
\* q is p with the components of link d in another order
Shuffled(ch, d, p, q) ==
    LET off == Offset(ch, d)
        t == ch[d].t
        np == TPar(t)
        P == SubSeq(p, off + 1, off + np)
        Q == SubSeq(q, off + 1, off + np)
    IN  /\ Len(p) = Len(q)
        /\ \A i \in 1 .. Len(p) : (i <= off \/ i > off + np) => p[i] = q[i]
        /\ IF t.k # "rep" THEN P = Q
           ELSE /\ SameBag(Blocks(t, P), Blocks(t, Q))
                /\ t.n > 0 => \A i \in Range(t.same) : P[i + 1] = Q[i + 1]

-----------------------------------------------------------------------------
\* splines: a relation between the model before and after
Knots(e) == Tm(e).c.knots
Increasing(s) == \A i \in 1 .. Len(s) - 1 : NLt(s[i], s[i + 1])
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* knot i of s is apart from its neighbours
Apart(s, i, md) ==
    /\ i > 1 => NLt(md, NSub(s[i], s[i - 1]))
    /\ i < Len(s) => NLt(md, NSub(s[i + 1], s[i]))
WithKnots(e, kn, p) == [e EXCEPT !.ch[e.d].t.c.knots = kn, !.p = p]
\* s is t with one element where t has two adjacent ones; all others are the same
Merged(s, t, off, n) ==
    \E j \in off + 1 .. off + n - 1 :
        /\ Len(s) = Len(t) - 1
        /\ \A i \in 1 .. j - 1 : NEq(s[i], t[i])
        /\ \A i \in j + 2 .. Len(t) : NEq(s[i - 1], t[i])
SplineGrows(e, kn, p) ==
    /\ Increasing(kn)
    /\ \E i \in 2 .. Len(kn) - 1 : Without(kn, i) = Knots(e) /\ Apart(kn, i, e.md)
    /\ Merged(e.p, p, Offset(e.ch, e.d), TPar(Tm(e)) + 1)
SplineShrinks(e, kn, p) ==
    /\ \E i \in 2 .. Len(Knots(e)) - 1 : Without(Knots(e), i) = kn
    /\ Merged(p, e.p, Offset(e.ch, e.d), TPar(Tm(e)))
SplineVaries(e, kn, p) ==
    /\ Increasing(kn)
    /\ Len(kn) = Len(Knots(e))
    /\ \E i \in 2 .. Len(kn) - 1 : Without(kn, i) = Without(Knots(e), i) /\ Apart(kn, i, e.md)
    /\ p = e.p
\* there is a place for one more knot
Room(e) == \E i \in 1 .. Len(Knots(e)) - 1 : NLt(NMul("2", e.md), NSub(Knots(e)[i + 1], Knots(e)[i]))
\* every knot has some place to move to
Roomy(e) == \A i \in 2 .. Len(Knots(e)) - 1 : NLt(NMul("2", e.md), NSub(Knots(e)[i + 1], Knots(e)[i - 1]))
InLimits(ch, p) ==
    LET pr == DPriors(ch) IN \A k \in 1 .. Len(p) : pr[k].kd = "none" \/ (NLe(pr[k].lo, p[k]) /\ NLe(p[k], pr[k].hi))
=============================================================================
