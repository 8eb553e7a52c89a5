----------------------------- MODULE MC_Priors -----------------------------
(* All histories of two priors: creating, setting and removing limits,     *)
(* changing scale and center, copying; with the laws of distributions.     *)
EXTENDS Priors, Json

CONSTANT Depth

VARIABLES h, hist
vars == <<h, hist>>

Nolim == <<"none", "none">>
Lims(kind) == IF DomLo(kind) = "0" THEN {<<"0.5", "4">>, <<"none", "3">>} ELSE {<<"-1", "3">>, <<"-0.5", "none">>}
More(kind) == IF DomLo(kind) = "0" THEN {<<"1.5", "2.25">>, <<"3", "1">>, <<"-1", "2">>} ELSE {<<"0.25", "1.5">>, <<"2", "2">>}

Valid(kind, lo, hi) == InOrder(kind, LoOf(kind, lo), HiOf(kind, hi))

New(kind, c, s, lim, circ) ==
    /\ h' = <<Create(kind, c, s, lim[1], lim[2], circ)>>
    /\ hist' = <<[op |-> "new", h |-> 1, kind |-> kind, c |-> c, s |-> s, lo |-> lim[1], hi |-> lim[2], circ |-> circ]>>

Init == h = <<>> /\ hist = <<>>

First ==
    \E kind \in Kinds :
        \/ \E lim \in Lims(kind) \cup {Nolim} :
              kind # "Exponential" /\ kind # "CircularUniform" /\ New(kind, IF kind \in Centered THEN "0.75" ELSE "0", IF kind \in Scaled THEN "1.5" ELSE "1", lim, "no")
        \/ kind = "Exponential" /\ \E lim \in {<<"0", "inf">>, <<"0", "3">>} : New(kind, "0", "1.5", lim, "no")
        \/ kind \in Centered \cup {"Uniform"} /\ New(kind, "0", IF kind \in Scaled THEN "2" ELSE "1", <<"-1.5", "2.5">>, "yes")
        \/ kind \in Centered \cup {"Uniform"} /\ New(kind, IF kind \in Centered THEN "1" ELSE "0", IF kind \in Scaled THEN "2" ELSE "1", Nolim, "3")
        \/ kind = "CircularUniform" /\ \E lim \in {<<"-1.5", "2.5">>, Nolim} : New(kind, "0", "1", lim, "yes")

SetL(i) ==
    \E lim \in Lims(h[i].kind) \cup More(h[i].kind) \cup {Nolim} :
        LET ok == Valid(h[i].kind, lim[1], lim[2])
        IN  /\ h' = IF ok THEN [h EXCEPT ![i] = Limit(@, lim[1], lim[2])] ELSE h
            /\ hist' = Append(hist, [op |-> "limits", h |-> i, lo |-> lim[1], hi |-> lim[2]])
Unset(i) == h' = [h EXCEPT ![i] = Limit(@, "none", "none")] /\ hist' = Append(hist, [op |-> "unset", h |-> i])
Scale(i) == /\ h[i].kind \in Scaled
            /\ \E s \in {"0.5", "0"} :
                /\ h' = IF NLt("0", s) THEN [h EXCEPT ![i].s = s] ELSE h
                /\ hist' = Append(hist, [op |-> "scale", h |-> i, s |-> s])
Center(i) == /\ h[i].kind \in Centered /\ ~ h[i].circ
             /\ h' = [h EXCEPT ![i].c = "-0.25"]
             /\ hist' = Append(hist, [op |-> "center", h |-> i, c |-> "-0.25"])
Copy == Len(h) = 1 /\ h' = Append(h, h[1]) /\ hist' = Append(hist, [op |-> "copy", h |-> 2, a |-> 1])

Next ==
    /\ Len(hist) < Depth
    /\ IF h = <<>> THEN First
       ELSE Copy \/ \E i \in 1 .. Len(h) : SetL(i) \/ Unset(i) \/ Scale(i) \/ Center(i)

-----------------------------------------------------------------------------
At(p, t) == NAdd(p.lo, NMul(t, Range(p)))      \* a point between finite limits
Finite(p) == Tame(p) /\ NIsNum(p.lo) /\ NIsNum(p.hi)
Ts == {"0", "0.125", "0.5", "0.75", "1"}

Edges == \A i \in DOMAIN h : Tame(h[i]) => NEq(Unit(h[i], h[i].lo), "0") /\ NEq(Unit(h[i], h[i].hi), "1")
Monotone ==
    \A i \in DOMAIN h : Finite(h[i]) =>
        \A s, t \in Ts : NLt(s, t) => NLt(Unit(h[i], At(h[i], s)), Unit(h[i], At(h[i], t)))
\* the density is the slope of the map
Slope ==
    \A i \in DOMAIN h : Finite(h[i]) => \A t \in {"0.11", "0.52", "0.93"} :
        LET x == At(h[i], t)  d == "1e-5"
        IN  NClose(NDiv(NSub(Unit(h[i], NAdd(x, d)), Unit(h[i], NSub(x, d))), NMul("2", d)), Density(h[i], x), "1e-5")
LogSlope ==
    \A i \in DOMAIN h : Finite(h[i]) => \A t \in {"0.11", "0.52", "0.93"} :
        LET x == At(h[i], t)  d == "1e-5"
        IN  NClose(NDiv(NSub(NLn(Density(h[i], NAdd(x, d))), NLn(Density(h[i], NSub(x, d)))), NMul("2", d)), PdfLog(h[i], x), "1e-5")
\* it integrates to 1 (trapezium rule in 64 steps)
Normal ==
    \A i \in DOMAIN h : Finite(h[i]) =>
        LET n == 64
            v(k) == Density(h[i], At(h[i], NDiv(NOfInt(k), NOfInt(n))))
        IN  NClose(NMul(NDiv(Range(h[i]), NOfInt(n)),
                        NSub(NSum([k \in 1 .. n + 1 |-> v(k - 1)]), NMul("0.5", NAdd(v(0), v(n))))), "1", "5e-3")
\* the map of a circular domain has a period of 1/3 in u, and is the inverse of the other one in the middle part
Circle == \A i \in DOMAIN h : Finite(h[i]) /\ h[i].circ =>
    \A u \in {"0.01", "0.3", "0.5", "0.6"} : NClose(Place(h[i], u), Place(h[i], NAdd(u, NDiv("1", "3"))), "1e-12")
CircleHas == \A i \in DOMAIN h : h[i].circ => HasLo(h[i]) \/ HasHi(h[i])
Ordered == \A i \in DOMAIN h : InOrder(h[i].kind, h[i].lo, h[i].hi) /\ NLt("0", h[i].s)

Emit == Len(hist) = Depth => PrintT("GEN|" \o ToJson(hist))
=============================================================================
