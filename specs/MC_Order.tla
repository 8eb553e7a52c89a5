------------------------------ MODULE MC_Order ------------------------------
(***************************************************************************)
(* All tours of a small problem under the moves of the engines.  Checked:  *)
(* tours remain tours; the engines that are used by default lead from any  *)
(* tour to any other (so the ensemble can reach the best one); a loop that *)
(* is uncrossed makes the tour shorter; the behaviours are replayed.       *)
(***************************************************************************)
EXTENDS Order, Json
CONSTANTS N, Depth
VARIABLES v, hist

\* nodes on a grid, none three in a row for N <= 5
X == <<<<"0", "0">>, <<"1", "3">>, <<"3", "1">>, <<"2", "4">>, <<"4", "4">>, <<"5", "1">>>>
Pb == [n |-> N, x |-> SubSeq(X, 1, N), dis |-> "euclid", tab |-> <<>>, ow |-> FALSE, w |-> <<>>, scale |-> "1"]
Tours == {s \in [1 .. N -> 0 .. N - 1] : Ran(s) = 0 .. N - 1}
Outcomes(eng, s) ==
    CASE eng = "MoveEngine" -> Relocated(s)
      [] eng = "ReverseEngine" -> Reversed(s)
      [] eng = "SwitchEngine" -> Switched(s)
      [] eng = "LoopEngine" -> {u \in {ReverseFirst(Rot(s, q[1]), q[2]) : q \in (0 .. N - 1) \X (2 .. N - 1)} : MayBecome(Pb, eng, s, u)}
      [] eng = "NearEngine" -> UNION {Beside(s, q[1], q[2]) : q \in {r \in (0 .. N - 1) \X (0 .. N - 1) : r[1] # r[2] /\ Nearest(Pb, r[1], r[2])}}
Engines == {"MoveEngine", "ReverseEngine", "SwitchEngine", "LoopEngine", "NearEngine"}

Init == v = [i \in 1 .. N |-> i - 1] /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E e \in Engines : \E u \in Outcomes(e, v) : v' = u /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_<<v, hist>>

TourInv == IsTour(v, N)
\* each outcome is allowed by the relation that traces are checked with
Allowed == \A e \in Engines : \A u \in Outcomes(e, v) : MayBecome(Pb, e, v, u)
Shorter == \A u \in Outcomes("LoopEngine", v) : NLe(LogL(Pb, "1", v), NAdd(LogL(Pb, "1", u), "1e-9"))
\* the cost does not depend on where a closed tour starts, nor on its direction
Round == \A k \in 0 .. N - 1 : NClose(LogL(Pb, "1", v), LogL(Pb, "1", Rot(v, k)), "1e-9")
Back == NClose(LogL(Pb, "1", v), LogL(Pb, "1", ReverseFirst(v, N)), "1e-9")
\* moves can be undone
Undo == \A e \in {"MoveEngine", "ReverseEngine", "SwitchEngine"} : \A u \in Outcomes(e, v) : MayBecome(Pb, e, u, v)

RECURSIVE Close(_, _)
Close(S, R) == IF R = {} THEN S ELSE LET T == (UNION {Outcomes("MoveEngine", s) : s \in R}) \ S IN Close(S \cup T, T)
\* with moves alone every tour can be reached
ASSUME N > 5 \/ Close({[i \in 1 .. N |-> i - 1]}, {[i \in 1 .. N |-> i - 1]}) = Tours
View == <<v, Len(hist)>>
==============================================================================
