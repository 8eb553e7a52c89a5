----------------------------- MODULE MC_Samples -----------------------------
(* All histories of a list of samples: adding, copying, replacing, weeding, *)
(* normalising, asking for the median.                                      *)
EXTENDS Samples, Json
CONSTANT Depth
VARIABLES l, hist
vars == <<l, hist>>

Q(L, lw, p) == [p |-> p, h |-> <<"1.5">>, u |-> <<>>, L |-> L, lw |-> lw]
Foreign == {[id |-> i, parent |-> 4, start |-> 2, p |-> x.p, h |-> x.h, u |-> x.u, L |-> x.L, lw |-> x.lw] :
               i \in {0, 7}, x \in {Q("-3", "-1", <<"1", "2">>), Q("-1", "-2.5", <<"-1", "0.5">>)}}
Do(a, m) == l' = m /\ hist' = Append(hist, a)
Init == l = Empty /\ hist = <<>>
First == \E k \in {1, 3} : \E q \in {Q("0", "0", <<"1", "-1">>)} : Do([op |-> "new", n |-> k, q |-> q, dyn |-> FALSE, circ |-> <<>>], New(k, q))
Next ==
    /\ Len(hist) < Depth
    /\ IF hist = <<>> THEN First
       ELSE \/ \E x \in Foreign : Do([op |-> "add", x |-> x], Add(l, x))
            \/ \E k \in {1, 2} : Do([op |-> "weed", max |-> k], Weed(l, k))
            \/ l.s # <<>> /\ Do([op |-> "norm"], Normalize(l))
            \/ \E a, b \in {1, Len(l.s)} : a # b /\ Do([op |-> "copy", a |-> a, b |-> b], Copy(l, a, b))
            \/ \E lw \in {"-0.5", "-4"} : Do([op |-> "weight", k |-> Len(l.s), lw |-> lw], [l EXCEPT !.s[Len(l.s)].lw = lw, !.norm = FALSE])
            \/ Do([op |-> "more", n |-> 1, it |-> 5, q |-> Q("0", "0", <<"3", "4">>)], [More([l EXCEPT !.it = 5], 1, Q("0", "0", <<"3", "4">>)) EXCEPT !.norm = FALSE])

-----------------------------------------------------------------------------
Numbers == \A k \in 1 .. Len(l.s) : l.s[k].id >= 0 /\ l.s[k].id < l.n
Distinct == \A j, k \in 1 .. Len(l.s) : j # k => l.s[j].id # l.s[k].id
Unity == l.norm /\ (hist # <<>> /\ hist[Len(hist)].op \in {"norm"}) => NClose(NSum(W(l.s)), "1", "1e-12")
Between == l.norm /\ l.s # <<>> /\ hist[Len(hist)].op = "norm" =>
    LET m == Mean(W(l.s), Column(l.s, 1)) IN
        /\ \E k \in 1 .. Len(l.s) : NLe(NSub(Column(l.s, 1)[k], "1e-12"), m)
        /\ \E k \in 1 .. Len(l.s) : NLe(m, NAdd(Column(l.s, 1)[k], "1e-12"))
        /\ Median(l.s) \in 0 .. Len(l.s) - 1
        \* a wide circle is a line
        /\ \A i \in {1, 2} : NClose(CircMean(W(l.s), Column(l.s, i), "-5000", "5000"), Mean(W(l.s), Column(l.s, i)), "1e-3")
        /\ \A i \in {1, 2} : NClose(CircDev(W(l.s), Column(l.s, i), "-5000", "5000"), Dev(W(l.s), Column(l.s, i)), "1e-3")
Shorter == \A m \in 1 .. 3 : Len(Weed(l, m).s) = IF Len(l.s) < m THEN Len(l.s) ELSE m
Emit == Len(hist) = Depth => PrintT("GEN|" \o ToJson(hist))
=============================================================================
