------------------------------ MODULE Samples ------------------------------
(***************************************************************************)
(* The list of weighted samples that nested sampling returns.              *)
(*                                                                         *)
(* sample [id, parent, start, p, h, u, L, lw]: history, parameters,        *)
(* hyperparameters, nuisance parameters, log likelihood, log weight.       *)
(* list   [s, n, it, norm, med]: samples, number for the next one,         *)
(* iteration, whether the weights were made to add up to 1, the median     *)
(* (index, from 0) once it has been asked for, else -1.                    *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC

Sample(id, parent, start, q) == [id |-> id, parent |-> parent, start |-> start, p |-> q.p, h |-> q.h, u |-> q.u, L |-> q.L, lw |-> q.lw]

Empty == [s |-> <<>>, n |-> 0, it |-> 0, norm |-> FALSE, med |-> -1]

\* k new samples with these values
More(l, k, q) == [l EXCEPT !.s = @ \o [j \in 1 .. k |-> Sample(l.n + j - 1, -1, l.it, q)], !.n = @ + k]
New(k, q) == More(Empty, k, q)
\* a sample from elsewhere gets a number of its own and remembers where it came from
Add(l, x) == [l EXCEPT !.s = Append(@, [x EXCEPT !.id = l.n, !.parent = x.id]), !.n = @ + 1, !.norm = FALSE]
\* the value of one becomes that of another, whose number stays
Copy(l, a, b) == [l EXCEPT !.s[b] = [l.s[a] EXCEPT !.id = l.s[b].id]]
Put(l, k, x) == [l EXCEPT !.s[k] = x]

RECURSIVE WeedSeq(_, _)
WeedSeq(S, max) ==
    IF Len(S) <= max THEN S
    ELSE WeedSeq(IF NLt(S[1].lw, S[Len(S)].lw) THEN Tail(S) ELSE SubSeq(S, 1, Len(S) - 1), max)
Weed(l, max) == [l EXCEPT !.s = WeedSeq(@, max)]

Top(v) == LET RECURSIVE f(_, _)
              f(k, t) == IF k > Len(v) THEN t ELSE f(k + 1, NMax(t, v[k]))
          IN  f(1, "-inf")
LnSum(v) == LET m == Top(v) IN NAdd(m, NLn(NSum([k \in 1 .. Len(v) |-> NExp(NSub(v[k], m))])))
Lw(S) == [k \in 1 .. Len(S) |-> S[k].lw]
Normalize(l) ==
    LET t == TLCEval(LnSum(Lw(l.s)))
    IN  [l EXCEPT !.s = [k \in 1 .. Len(l.s) |-> [l.s[k] EXCEPT !.lw = NSub(@, t)]], !.norm = TRUE]

-----------------------------------------------------------------------------
(* Statistics; weights add up to 1.                                        *)
W(S) == [k \in 1 .. Len(S) |-> NExp(S[k].lw)]
Mean(w, v) == NDot(w, v)
Dev(w, v) == LET m == Mean(w, v) IN NSqrt(NDot(w, [k \in 1 .. Len(v) |-> NSq(NSub(v[k], m))]))
\* on a circle from lo to hi
Angle(x, lo, hi) == NDiv(NMul(NMul("2", Pi), NSub(x, lo)), NSub(hi, lo))
CircSums(w, v, lo, hi) ==
    [s |-> NDot(w, [k \in 1 .. Len(v) |-> NSin(Angle(v[k], lo, hi))]), c |-> NDot(w, [k \in 1 .. Len(v) |-> NCos(Angle(v[k], lo, hi))])]
Wrap(x, lo, hi) == NSub(x, NMul(NFloor(NDiv(NSub(x, lo), NSub(hi, lo))), NSub(hi, lo)))
CircMean(w, v, lo, hi) ==
    LET t == CircSums(w, v, lo, hi)
    IN  Wrap(NAdd(lo, NMul(NSub(hi, lo), NDiv(NAtan2(t.s, t.c), NMul("2", Pi)))), lo, hi)
\* distances along the circle to the mean
CircDev(w, v, lo, hi) ==
    LET m == CircMean(w, v, lo, hi)  half == NDiv(NSub(hi, lo), "2")
    IN  NSqrt(NDot(w, [k \in 1 .. Len(v) |-> NSq(Wrap(NSub(v[k], m), NNeg(half), half))]))

\* the first index (from 0) where the weights so far are at least a half
Median(S) ==
    LET w == TLCEval(W(S))
        Part(k) == NSum(SubSeq(w, 1, k))
    IN  Cardinality({k \in 1 .. Len(S) : NLt(Part(k), "0.5")})
\* the decision does not hang on the last digit
MedianFirm(S) ==
    LET w == TLCEval(W(S)) IN \A k \in 1 .. Len(S) : NLt("1e-10", NAbs(NSub(NSum(SubSeq(w, 1, k)), "0.5")))
Heaviest(S) == {k \in 0 .. Len(S) - 1 : \A j \in 1 .. Len(S) : NLe(NSub(S[j].lw, "1e-12"), S[k + 1].lw)}
Lowest(S) == LET k == CHOOSE i \in 1 .. Len(S) : \A j \in 1 .. Len(S) : NLt(S[i].L, S[j].L) \/ (NEq(S[i].L, S[j].L) /\ i <= j)
             IN  <<S[k].L, k - 1>>
MaxLen(S) == CHOOSE n \in {Len(S[k].p) : k \in 1 .. Len(S)} : \A k \in 1 .. Len(S) : Len(S[k].p) <= n
\* parameters, as many for each sample
Padded(S) == LET m == MaxLen(S) IN [k \in 1 .. Len(S) |-> [i \in 1 .. m |-> IF i <= Len(S[k].p) THEN S[k].p[i] ELSE "0"]]
Column(S, i) == [k \in 1 .. Len(S) |-> Padded(S)[k][i]]

\* polynomial with these coefficients
RECURSIVE Horner(_, _, _)
Horner(p, x, k) == IF k > Len(p) THEN "0" ELSE NAdd(p[k], NMul(x, Horner(p, x, k + 1)))
Results(S, x) == [k \in 1 .. Len(S) |-> Horner(S[k].p, x, 1)]
=============================================================================
