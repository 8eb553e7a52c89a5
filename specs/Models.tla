------------------------------- MODULE Models -------------------------------
(***************************************************************************)
(* Models as the user builds them.                                         *)
(*                                                                         *)
(* A chain is a non-empty sequence of links [op, t, pri]: operation, term  *)
(* and the priors set for the term.  A term is                             *)
(*   [k |-> "base", z, c, fx]   simple model of kind z (ModelZoo) with     *)
(*         configuration c and fixed parameters fx, a sequence of          *)
(*         [i, c, m]: parameter i (from 0) is the constant c, or when      *)
(*         m # <<>> the result of the chain m, whose parameters are then   *)
(*         parameters of the term                                          *)
(*   [k |-> "br", ch]           brackets around a chain                    *)
(*   [k |-> "rep", n, t, same]  n times the term t, all added; the         *)
(*         parameters in same (a sequence of indices) are shared           *)
(*   [k |-> "combi", n, t, op, add, mul]  n times t, with the parameters   *)
(*         key of add (mul) tied to the first one plus (times) value       *)
(*   [k |-> "prod", ts]         product of terms, one for each input       *)
(* A model of the heap is [ch, p]: a chain and its parameters.             *)
(***************************************************************************)
EXTENDS ModelZoo

RECURSIVE SumInts(_)
SumInts(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumInts(Tail(s))
Range(s) == {s[i] : i \in 1 .. Len(s)}

RECURSIVE TPar(_), CPar(_), TIn(_), TOut(_)
TPar(t) ==
    CASE t.k = "base" -> ZPar(t.z, t.c) - Len(t.fx)
                         + SumInts([i \in 1 .. Len(t.fx) |-> IF t.fx[i].m = <<>> THEN 0 ELSE CPar(t.fx[i].m)])
      [] t.k = "br" -> CPar(t.ch)
      [] t.k = "rep" -> IF t.n = 0 THEN 0 ELSE t.n * TPar(t.t) - (t.n - 1) * Len(t.same)
      [] t.k = "combi" -> t.n * TPar(t.t) - (t.n - 1) * (Len(t.add) + Len(t.mul))
      [] t.k = "prod" -> SumInts([i \in 1 .. Len(t.ts) |-> TPar(t.ts[i])])
CPar(ch) == SumInts([i \in 1 .. Len(ch) |-> TPar(ch[i].t)])

TIn(t) ==
    CASE t.k = "base" -> ZIn(t.z, t.c)
      [] t.k = "br" -> TIn(t.ch[1].t)
      [] t.k \in {"rep", "combi"} -> TIn(t.t)
      [] t.k = "prod" -> Len(t.ts)
CIn(ch) == TIn(ch[1].t)
TOut(t) ==
    CASE t.k = "base" -> ZOut(t.z, t.c)
      [] t.k = "br" -> TOut(t.ch[Len(t.ch)].t)
      [] OTHER -> 1
COut(ch) == TOut(ch[Len(ch)].t)

RECURSIVE Fixes(_), HasFixed(_)
Fixes(t) ==
    CASE t.k = "base" -> t.fx # <<>>
      [] t.k = "br" -> HasFixed(t.ch)
      [] t.k \in {"rep", "combi"} -> Fixes(t.t)
      [] t.k = "prod" -> \E i \in 1 .. Len(t.ts) : Fixes(t.ts[i])
HasFixed(ch) == \E i \in 1 .. Len(ch) : Fixes(ch[i].t)

\* terms whose slopes are found numerically: no formula is given for them
RECURSIVE TNumeric(_), CNumeric(_)
TNumeric(t) ==
    CASE t.k = "base" -> t.z \in {"User", "SurfaceSplines"} \/ \E j \in 1 .. Len(t.fx) : t.fx[j].m # <<>>
      [] t.k = "br" -> CNumeric(t.ch)
      [] t.k \in {"rep", "combi"} -> TNumeric(t.t)
      [] t.k = "prod" -> TRUE
CNumeric(ch) == \E i \in 1 .. Len(ch) : TNumeric(ch[i].t)

-----------------------------------------------------------------------------
(* Evaluation.  P are the duals of the parameters, X those of the inputs.  *)

RECURSIVE TEval(_, _, _), CEval(_, _, _)

\* parameter i (from 1) of the simple model, out of the free ones and the fixed
BaseParam(t, P, X, i) ==
    LET where == {j \in 1 .. Len(t.fx) : t.fx[j].i = i - 1}
        fixedset == {t.fx[j].i : j \in 1 .. Len(t.fx)}
        nfree == ZPar(t.z, t.c) - Len(t.fx)
    IN  IF where = {} THEN P[Cardinality({q \in 0 .. i - 1 : q \notin fixedset})]
        ELSE LET j == CHOOSE j \in where : TRUE
                 f == t.fx[j]
                 off == nfree + SumInts([q \in 1 .. j - 1 |->
                                IF t.fx[q].m = <<>> THEN 0 ELSE CPar(t.fx[q].m)])
             IN  IF f.m = <<>> THEN DC(f.c, Len(X[1].g))
                 ELSE CEval(f.m, SubSeq(P, off + 1, off + CPar(f.m)), X)[1]

\* parameters of the j-th repetition of t.t
RepParams(t, P, j) ==
    LET m == TPar(t.t)
        shared == Range(t.same)
        d == m - Len(t.same)
        Rank(i) == Cardinality({q \in 0 .. i : q \notin shared})
    IN  IF j = 1 THEN SubSeq(P, 1, m)
        ELSE [i \in 1 .. m |-> IF i - 1 \in shared THEN P[i]
                               ELSE P[m + (j - 2) * d + Rank(i - 1)]]

\* parameters of the j-th copy of t.t in a combination
CombiParams(t, P, j) ==
    LET m == TPar(t.t)
        akeys == {t.add[q].key : q \in 1 .. Len(t.add)}
        mkeys == {t.mul[q].key : q \in 1 .. Len(t.mul)}
        tied == akeys \cup mkeys
        d == m - Cardinality(tied)
        Rank(i) == Cardinality({q \in 0 .. i : q \notin tied})
        V(s, key) == s[CHOOSE q \in 1 .. Len(s) : s[q].key = key].v[j]
    IN  [i \in 1 .. m |->
            IF i - 1 \in akeys THEN DPlus(V(t.add, i - 1), P[i])
            ELSE IF i - 1 \in mkeys THEN DScale(V(t.mul, i - 1), P[i])
            ELSE IF j = 1 THEN P[i] ELSE P[m + (j - 2) * d + Rank(i - 1)]]

RECURSIVE Fold(_, _, _, _)
\* combine the one-output values vs with the operation
Fold(op, vs, i, acc) ==
    IF i > Len(vs) THEN acc
    ELSE Fold(op, vs, i + 1, IF op = "mul" THEN DMul(acc, vs[i]) ELSE DAdd(acc, vs[i]))

TEval(t, P, X) ==
    CASE t.k = "base" ->
            ZEval(t.z, t.c, TLCEval([i \in 1 .. ZPar(t.z, t.c) |->
                    IF i \in ZPos(t.z) THEN DAbs(BaseParam(t, P, X, i)) ELSE BaseParam(t, P, X, i)]), X)
      [] t.k = "br" -> CEval(t.ch, P, X)
      [] t.k = "rep" ->
            IF t.n = 0 THEN <<DC("0", Len(X[1].g))>>
            ELSE LET vs == TLCEval([j \in 1 .. t.n |-> TEval(t.t, TLCEval(RepParams(t, P, j)), X)[1]])
                 IN  <<Fold("add", vs, 2, vs[1])>>
      [] t.k = "combi" ->
            LET vs == TLCEval([j \in 1 .. t.n |-> TEval(t.t, TLCEval(CombiParams(t, P, j)), X)[1]])
            IN  <<Fold(t.op, vs, 2, vs[1])>>
      [] t.k = "prod" ->
            LET vs == TLCEval([j \in 1 .. Len(t.ts) |->
                        LET off == SumInts([q \in 1 .. j - 1 |-> TPar(t.ts[q])])
                        IN  TEval(t.ts[j], SubSeq(P, off + 1, off + TPar(t.ts[j])), <<X[j]>>)[1]])
            IN  <<Fold("mul", vs, 2, vs[1])>>

\* strictly left to right: every operation acts on the result so far
RECURSIVE CEvalRec(_, _, _, _, _)
CEvalRec(ch, P, X, i, acc) ==
    IF i > Len(ch) THEN acc
    ELSE LET n == TPar(ch[i].t)
             mine == SubSeq(P, 1, n)
             rest == SubSeq(P, n + 1, Len(P))
             op == ch[i].op
             v == TEval(ch[i].t, mine, IF op = "|" THEN acc ELSE X)
             new == IF i = 1 \/ op = "|" THEN v
                    ELSE TLCEval([q \in 1 .. Len(v) |->
                            CASE op = "+" -> DAdd(acc[q], v[q])
                              [] op = "-" -> DSub(acc[q], v[q])
                              [] op = "*" -> DMul(acc[q], v[q])
                              [] op = "/" -> DDiv(acc[q], v[q])])
         IN  CEvalRec(ch, rest, X, i + 1, new)
CEval(ch, P, X) == CEvalRec(ch, P, X, 1, <<>>)

\* result, partials and derivative of chain ch at parameters p (numbers) and input x (numbers):
\* one dual for each output, gradient = parameters then inputs
Eval(ch, p, x) ==
    LET np == Len(p)
        n == np + Len(x)
    IN  CEval(ch, TLCEval([i \in 1 .. np |-> DV(p[i], i, n)]), TLCEval([i \in 1 .. Len(x) |-> DV(x[i], np + i, n)]))

-----------------------------------------------------------------------------
(* Priors.  pri of a link is the sequence of priors set for its first      *)
(* parameters: [kd, lo, hi]; the last one serves all further parameters.   *)

NoPrior == [kd |-> "none", lo |-> "-inf", hi |-> "inf"]

RECURSIVE GetPrior(_, _)
GetPrior(ch, k) ==      \* k from 0
    IF ch = <<>> THEN NoPrior
    ELSE LET l == Head(ch)
             n == TPar(l.t)
         IN  IF k >= n THEN GetPrior(Tail(ch), k - n)
             ELSE IF l.t.k = "br" THEN GetPrior(l.t.ch, k)
             ELSE IF l.pri = <<>> THEN NoPrior
             ELSE IF k < Len(l.pri) THEN l.pri[k + 1]
             ELSE l.pri[Len(l.pri)]

\* can prior k be set?  They have to be given in order.
RECURSIVE CanSet(_, _)
CanSet(ch, k) ==
    IF ch = <<>> THEN FALSE
    ELSE LET l == Head(ch)
             n == TPar(l.t)
         IN  IF k >= n THEN CanSet(Tail(ch), k - n)
             ELSE IF l.t.k = "br" THEN CanSet(l.t.ch, k)
             ELSE k <= Len(l.pri)

NewPrior(old, kd, lo, hi) ==
    [kd |-> IF kd # "none" THEN kd ELSE IF old.kd = "none" THEN "Uniform" ELSE old.kd,
     lo |-> lo, hi |-> hi]

RECURSIVE SetPrior(_, _, _, _, _)
SetPrior(ch, k, kd, lo, hi) ==
    LET l == Head(ch)
        n == TPar(l.t)
    IN  IF k >= n THEN <<l>> \o SetPrior(Tail(ch), k - n, kd, lo, hi)
        ELSE IF l.t.k = "br"
             THEN <<[l EXCEPT !.t.ch = SetPrior(l.t.ch, k, kd, lo, hi)]>> \o Tail(ch)
        ELSE LET old == IF l.pri = <<>> THEN NoPrior ELSE l.pri[IF k < Len(l.pri) THEN k + 1 ELSE Len(l.pri)]
                 new == NewPrior(old, kd, lo, hi)
             IN  <<[l EXCEPT !.pri = IF k < Len(@) THEN [@ EXCEPT ![k + 1] = new] ELSE Append(@, new)]>>
                 \o Tail(ch)

\* limits given as sequences lo, hi (possibly <<>>, possibly of different length)
RECURSIVE SetLims(_, _, _, _)
SetLims(ch, lo, hi, k) ==
    IF k >= Len(lo) /\ k >= Len(hi) THEN ch
    ELSE SetLims(SetPrior(ch, k, "none", IF k < Len(lo) THEN lo[k + 1] ELSE "-inf",
                          IF k < Len(hi) THEN hi[k + 1] ELSE "inf"), lo, hi, k + 1)

Priors(ch) == [k \in 1 .. CPar(ch) |-> GetPrior(ch, k - 1)]
IsBound(pr) == pr.kd # "none" /\ (pr.kd # "Uniform" \/ (NIsNum(pr.lo) /\ NIsNum(pr.hi)))
HasLimit(pr) == pr.kd # "none" /\ (NIsNum(pr.lo) \/ NIsNum(pr.hi))

-----------------------------------------------------------------------------
(* The heap: handle -> model, or Gone when it has been built into another. *)

(* A model also has standard deviations sd: none yet, known, or (after     *)
(* models were joined) whatever: the user has to fit again.                *)
NoSd == [k |-> "none", s |-> <<>>]
AnySd == [k |-> "any", s |-> <<>>]
Sd(s) == [k |-> "known", s |-> s]
Stale(sd) == IF sd.k = "none" THEN NoSd ELSE AnySd

Gone == [ch |-> <<>>, p |-> <<>>, sd |-> NoSd]
Link(op, t) == [op |-> op, t |-> t, pri |-> <<>>]

\* the chain b as one term to be appended with op: alone, or in brackets
Joined(b, op) ==
    IF Len(b) = 1 THEN [b[1] EXCEPT !.op = op] ELSE Link(op, [k |-> "br", ch |-> b])
Compatible(a, b, op) == IF op = "|" THEN COut(a) = CIn(b) ELSE CIn(a) = CIn(b)

\* the model m op n
Combined(m, n, op) == [ch |-> Append(m.ch, Joined(n.ch, op)), p |-> m.p \o n.p, sd |-> Stale(m.sd)]

\* link k (from 0) of m on its own
Isolated(m, k) ==
    LET off == SumInts([q \in 1 .. k |-> TPar(m.ch[q].t)])
        n == TPar(m.ch[k + 1].t)
    IN  [ch |-> <<[m.ch[k + 1] EXCEPT !.op = "0"]>>, p |-> SubSeq(m.p, off + 1, off + n),
         sd |-> IF m.sd.k = "known" THEN Sd(SubSeq(m.sd.s, off + 1, off + n)) ELSE m.sd]
=============================================================================
