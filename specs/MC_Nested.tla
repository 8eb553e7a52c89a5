----------------------------- MODULE MC_Nested -----------------------------
(* All runs of a small ensemble over a few levels of likelihood: one        *)
(* parameter p, the likelihood falls with |p|.                              *)
EXTENDS Nested, Json

CONSTANTS N, D, Depth, Levels
Ps == CASE Levels = 3 -> {"2", "1", "0.5"} [] OTHER -> {"2.5", "1.5", "1", "0.25"}

VARIABLES W, a, S, low, it, hist, best
vars == <<W, a, S, low, it, hist, best>>

\* one datum, 0, with a noise of 1
LofP(p) == NSub(NMul("-0.5", NSq(p)), NMul("0.5", Ln2Pi))
At(p) == [L |-> LofP(p), p |-> p]

\* start ensembles, in descending order of p
Down(s) == \A k \in 2 .. Len(s) : NLe(s[k], s[k - 1])
Best(w) == Sorted(w)[Len(w)].L

Init ==
    \E s \in [1 .. N -> Ps] :
        /\ Down(s)
        /\ W = [i \in 1 .. N |-> At(s[i])]
        /\ a = Open(N)
        /\ S = <<>>
        /\ low = "-inf"
        /\ it = 0
        /\ hist = <<s>>
        /\ best = Best(W)

\* the places that became free are filled with walkers that moved to q
Go == \E q \in [1 .. D -> Ps] :
        LET lo == Low(W, D)
            t == TakeAll(a, S, Worst(W, D), N)
        IN  /\ it < Depth
            /\ \A k \in 1 .. D : NLe(lo, LofP(q[k]))
            /\ W' = [k \in 1 .. N |-> IF k <= D THEN At(q[k]) ELSE Sorted(W)[k]]
            /\ a' = t.a
            /\ S' = t.S
            /\ low' = lo
            /\ it' = it + 1
            /\ hist' = Append(hist, q)
            /\ best' = NMax(best, Best(W'))
Finish == /\ it = Depth
          /\ LET t == TakeAll(a, S, Sorted(W), N)
             IN  /\ a' = t.a
                 /\ S' = t.S
          /\ it' = Depth + 1
          /\ UNCHANGED <<W, low, hist, best>>
Next == Go \/ Finish

-----------------------------------------------------------------------------
Total == NSum([k \in 1 .. Len(S) |-> NExp(S[k].lw)])
\* the walkers are where they may be
Inside == \A k \in 1 .. N : NLe(low, W[k].L)
\* the likelihood of the samples does not fall, nor does that of the next ones
Rising == \A k \in 1 .. Len(S) : (k > 1 => NLe(S[k - 1].L, S[k].L)) /\ (NLe(S[k].L, low) \/ it > Depth)
\* evidence and information
Evidence == S = <<>> \/ NClose(a.z, NLn(Total), "1e-10")
Information == S = <<>> \/ NClose(a.h, NSub(NSum([k \in 1 .. Len(S) |-> NMul(NDiv(NExp(S[k].lw), Total), S[k].L)]), a.z), "1e-9")
Positive == S = <<>> \/ NLe("-1e-9", a.h)
\* the parts of the volume are positive, shrink, and are no more than the whole
Width(k) == NSub(S[k].lw, S[k].L)
Widths == /\ \A k \in 2 .. Len(S) : NLt(Width(k), Width(k - 1))
          /\ NLe(NSum([k \in 1 .. Len(S) |-> NExp(Width(k))]), "1")
\* the evidence is an average of likelihoods over a part of the volume
Bounded == S = <<>> \/ (NLe(a.z, best) /\ NLt(NAdd(S[1].L, NLn(NSum([k \in 1 .. Len(S) |-> NExp(Width(k))]))), NAdd(a.z, "1e-9")))
\* nothing that was found is lost: the best one is the last
LastBest == it > Depth => S[Len(S)].L = best
Whole == it > Depth => Len(S) = N + D * Depth
Sums == S = <<>> \/ NClose(NSum([k \in 1 .. Len(S) |-> NExp(Normal(S)[k].lw)]), "1", "1e-12")
\* weeding keeps the order and what is heavier
Heavy == \A m \in {1, 2, 3} : LET R == Weed(S, m) IN
            /\ Len(R) = IF Len(S) < m THEN Len(S) ELSE m
            /\ \E j \in 0 .. Len(S) - Len(R) : R = SubSeq(S, j + 1, j + Len(R))

Emit == it = Depth + 1 => PrintT("GEN|" \o ToJson(hist))
=============================================================================
