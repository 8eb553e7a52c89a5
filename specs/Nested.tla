------------------------------- MODULE Nested -------------------------------
(***************************************************************************)
(* Nested sampling.                                                        *)
(*                                                                         *)
(* An ensemble W of walkers [L, p]: log likelihood and parameters.  In     *)
(* every iteration the d lowest leave the ensemble and become samples      *)
(* [L, p, lw]; they are replaced by copies of those that remain, which are *)
(* then moved within the region where L >= low, the highest likelihood     *)
(* that was discarded.  The volume of that region is not known; it is      *)
(* taken to shrink by a factor exp(-1/n) for each of the n walkers.        *)
(*                                                                         *)
(* The account a = [z, h, w, last]: log of the evidence ("none" at the     *)
(* start), information, log of the volume that the next sample stands for, *)
(* weight of the last one.                                                 *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC

LnAdd(a, b) ==
    LET t == NMax(a, b)  s == NMin(a, b)
    IN  IF s = "-inf" THEN t ELSE NAdd(t, NLn(NAdd("1", NExp(NSub(s, t)))))

Open(n) == [z |-> "none", h |-> "0", w |-> NLn(NSub("1", NExp(NDiv("-1", NOfInt(n))))), last |-> "none"]

\* one walker with log likelihood L, of n that are left, becomes a sample
Take(a, L, n) ==
    LET lw == NAdd(a.w, L)
        z1 == IF a.z = "none" THEN lw ELSE LnAdd(a.z, lw)
        h1 == IF a.z = "none" THEN NSub(L, z1)
              ELSE NSub(NAdd(NMul(NExp(NSub(lw, z1)), L), NMul(NExp(NSub(a.z, z1)), NAdd(a.h, a.z))), z1)
    IN  [z |-> z1, h |-> h1, w |-> NSub(a.w, NDiv("1", NOfInt(n))), last |-> lw]

\* the walkers of a sequence, in this order, of n
RECURSIVE TakeAll(_, _, _, _)
TakeAll(a, S, ws, n) ==
    IF ws = <<>> THEN [a |-> a, S |-> S]
    ELSE LET b == TLCEval(Take(a, ws[1].L, n))
         IN  TakeAll(b, Append(S, [L |-> ws[1].L, p |-> ws[1].p, lw |-> b.last]), Tail(ws), n - 1)

\* sorted by likelihood; equal ones keep their order
RECURSIVE Insert(_, _)
Insert(s, x) ==
    IF s = <<>> \/ NLe(s[Len(s)].L, x.L) THEN Append(s, x)
    ELSE Append(Insert(SubSeq(s, 1, Len(s) - 1), x), s[Len(s)])
RECURSIVE SortFrom(_, _, _)
SortFrom(s, r, k) == IF k > Len(s) THEN r ELSE SortFrom(s, TLCEval(Insert(r, s[k])), k + 1)
Sorted(s) == SortFrom(s, <<>>, 1)

\* at most max samples are kept (0: all): the one of the two ends with the lower weight goes
RECURSIVE Weed(_, _)
Weed(S, max) ==
    IF max = 0 \/ Len(S) <= max THEN S
    ELSE Weed(IF NLt(S[1].lw, S[Len(S)].lw) THEN Tail(S) ELSE SubSeq(S, 1, Len(S) - 1), max)

\* weights that add up to 1
LnTotal(S) ==
    LET RECURSIVE top(_, _)
        top(k, t) == IF k > Len(S) THEN t ELSE top(k + 1, NMax(t, S[k].lw))
        m == top(1, "-inf")
    IN  NAdd(m, NLn(NSum([k \in 1 .. Len(S) |-> NExp(NSub(S[k].lw, m))])))
Normal(S) == LET t == TLCEval(LnTotal(S)) IN [k \in 1 .. Len(S) |-> [S[k] EXCEPT !.lw = NSub(@, t)]]

Worst(W, d) == SubSeq(Sorted(W), 1, d)
Rest(W, d) == SubSeq(Sorted(W), d + 1, Len(W))
Low(W, d) == Sorted(W)[d].L

\* relative size of the last contribution
LastShare(a) == IF a.last = "none" THEN "0" ELSE NSub(a.last, a.z)
\* whether iteration number it (from 0) is to be done; c = [min, max ("none"), tol, end, n, d]
GoOn(it, a, c) ==
    \/ it < c.min
    \/ /\ ~ NLt(LastShare(a), c.tol)
       /\ c.max = -1 \/ it <= c.max
       /\ NLe(NOfInt(it), NDiv(NMul(NMul(c.end, NOfInt(c.n)), a.h), NOfInt(c.d)))
\* the decision does not hang on the last digits
Firm(it, a, c) ==
    /\ NLt("1e-6", NAbs(NSub(LastShare(a), c.tol)))
    /\ NLt("1e-6", NAbs(NSub(NOfInt(it), NDiv(NMul(NMul(c.end, NOfInt(c.n)), a.h), NOfInt(c.d)))))
=============================================================================
