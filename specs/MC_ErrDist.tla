----------------------------- MODULE MC_ErrDist -----------------------------
(* Laws of the error distributions (normalisation, slopes, the scale with  *)
(* the highest likelihood) over a grid; and all histories of distributions *)
(* with limits, fixed values, mixtures and copies.                         *)
EXTENDS ErrDist, Json, TLC

CONSTANT Depth

VARIABLES E, C, hist      \* distributions, cells, what was done
vars == <<E, C, hist>>

Kinds == {"Gauss", "Laplace", "Exponential", "Poisson"}
Lims == {<<"none", "none">>, <<"0.1", "10">>}

RECURSIVE Cells(_)
Cells(d) == E[d].cells
D(i) == E[i].d

New ==
    \E k \in Kinds, lim \in Lims :
        LET n == NHyp([kind |-> k, sub |-> <<>>])
            i == Len(E) + 1  b == Len(C)
            ok == k # "Poisson" \/ lim[1] = "none"
        IN  /\ ok /\ i <= 2
            /\ E' = Append(E, [d |-> [kind |-> k, sub |-> <<>>], cells |-> [j \in 1 .. n |-> b + j], parts |-> <<>>])
            /\ C' = C \o [j \in 1 .. n |-> Cell(IF j = 1 THEN "1.5" ELSE "2", "none", lim[1], lim[2])]
            /\ hist' = Append(hist, [op |-> "new", h |-> i, kind |-> k, v |-> [j \in 1 .. n |-> IF j = 1 THEN "1.5" ELSE "2"],
                                     lo |-> [j \in 1 .. n |-> lim[1]], hi |-> [j \in 1 .. n |-> lim[2]]])
Mix ==
    /\ Len(E) >= 2 /\ \A i \in 1 .. Len(E) : E[i].d.kind # "Mixed"
    /\ \E lim \in {<<"none", "none">>, <<"0.2", "0.9">>} :
        /\ E' = Append(E, [d |-> [kind |-> "Mixed", sub |-> <<D(1), D(2)>>],
                           cells |-> E[1].cells \o E[2].cells \o <<Len(C) + 1>>, parts |-> <<1, 2>>])
        /\ C' = Append(C, Cell("0.4", "Uniform", lim[1], lim[2]))
        /\ hist' = Append(hist, [op |-> "mix", h |-> Len(E) + 1, a |-> 1, b |-> 2, v |-> "0.4", lo |-> lim[1], hi |-> lim[2]])
Limit(i) ==
    /\ Len(E[i].cells) > 0
    /\ C' = [c \in 1 .. Len(C) |-> IF c \in {E[i].cells[j] : j \in 1 .. Len(E[i].cells)} THEN CellLimit(C[c], "0.3", "0.8") ELSE C[c]]
    /\ UNCHANGED E
    /\ hist' = Append(hist, [op |-> "limits", h |-> i, lo |-> [j \in 1 .. Len(E[i].cells) |-> "0.3"], hi |-> [j \in 1 .. Len(E[i].cells) |-> "0.8"]])
Scale(i) ==
    /\ E[i].d.kind \in ScaleKinds
    /\ C' = [C EXCEPT ![E[i].cells[1]].v = "2.25"] /\ UNCHANGED E
    /\ hist' = Append(hist, [op |-> "scale", h |-> i, v |-> "2.25"])
Keep(i) ==
    /\ Len(E[i].cells) > 0
    /\ \E k \in {1, Len(E[i].cells)} :
        /\ C' = [c \in 1 .. Len(C) |->
                    IF c = E[i].cells[k] THEN [C[c] EXCEPT !.v = "0.6", !.fix = TRUE]
                    ELSE IF c \in {E[i].cells[j] : j \in 1 .. Len(E[i].cells)} THEN [C[c] EXCEPT !.fix = (C[c].pk = "none")]
                    ELSE C[c]]
        /\ hist' = Append(hist, [op |-> "keep", h |-> i, k |-> k - 1, v |-> "0.6"])
    /\ UNCHANGED E
Copy(i) ==
    /\ \A j \in 1 .. Len(hist) : hist[j].op # "copy"
    /\ E' = Append(E, [E[i] EXCEPT !.cells = [j \in 1 .. Len(E[i].cells) |-> Len(C) + j]])
    /\ C' = C \o [j \in 1 .. Len(E[i].cells) |-> C[E[i].cells[j]]]
    /\ hist' = Append(hist, [op |-> "copy", h |-> Len(E) + 1, a |-> i])

Init == E = <<>> /\ C = <<>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ IF E = <<>> THEN New ELSE New \/ Mix \/ \E i \in 1 .. Len(E) : Limit(i) \/ Scale(i) \/ Keep(i) \/ Copy(i)

TypeOK == \A i \in 1 .. Len(E) : Len(E[i].cells) = NHyp(D(i)) /\ Len(Names(D(i))) = NHyp(D(i))
\* a hyperparameter is free only with limits; two distributions share cells only when one is a part of the other
Free == \A c \in 1 .. Len(C) : CellFree(C[c]) => C[c].pk # "none" /\ NLt(C[c].lo, C[c].hi)
CellsOf(i) == {E[i].cells[j] : j \in 1 .. Len(E[i].cells)}
Apart == \A i, j \in 1 .. Len(E) : i < j /\ CellsOf(i) \cap CellsOf(j) # {} => E[j].d.kind = "Mixed" /\ i \in {E[j].parts[1], E[j].parts[2]}
Emit == Len(hist) = Depth => PrintT("GEN|" \o ToJson(hist))

-----------------------------------------------------------------------------
(* Laws, checked once.                                                     *)
L(k) == [kind |-> k, sub |-> <<>>]
Mx(a, b) == [kind |-> "Mixed", sub |-> <<a, b>>]
Cases == {[d |-> L("Gauss"), h |-> <<"0.8">>], [d |-> L("Laplace"), h |-> <<"0.6">>], [d |-> L("Cauchy"), h |-> <<"0.01">>],
          [d |-> L("Exponential"), h |-> <<"0.9", "1.3">>], [d |-> L("Exponential"), h |-> <<"1.2", "3">>], [d |-> L("Uniform"), h |-> <<"1.5">>],
          [d |-> Mx(L("Gauss"), L("Laplace")), h |-> <<"0.8", "0.5", "0.3">>],
          [d |-> Mx(L("Exponential"), L("Uniform")), h |-> <<"0.8", "1.4", "2", "0.7">>],
          [d |-> Mx(L("Laplace"), Mx(L("Gauss"), L("Exponential"))), h |-> <<"0.8", "0.7", "1.1", "1.6", "0.4", "0.55">>]}
Q(r) == [y |-> r, m |-> "0", r |-> r, w |-> "none", a |-> "none"]
Accs == {"none", "0.7"}
\* the likelihood integrates to 1 (midpoints, 400 steps in -10 .. 10)
Normal == \A c \in Cases :
    LET f(k) == LET l == LogDatum(c.d, c.h, Q(NAdd("-9.975", NMul("0.05", NOfInt(k))))) IN IF l = NoLn THEN "0" ELSE NExp(l)
    IN  c.d.kind = "Cauchy" \/ NClose(NMul("0.05", NSum([k \in 1 .. 400 |-> f(k - 1)])), "1", "1e-3")
\* over the counts
Counts == \A m \in {"0.7", "3.2"} :
    NClose(NSum([k \in 1 .. 40 |-> NExp(LogDatum(L("Poisson"), <<>>, [Q("0") EXCEPT !.y = NOfInt(k - 1), !.m = m]))]), "1", "1e-9")
Coins == \A m \in {"0.2", "0.9"} :
    NClose(NAdd(NExp(LogDatum(L("Bernoulli"), <<>>, [Q("0") EXCEPT !.m = m])), NExp(LogDatum(L("Bernoulli"), <<>>, [Q("1") EXCEPT !.m = m]))), "1", "1e-12")
\* slopes are those of the log likelihood
LawSlope == \A c \in Cases, r \in {"-0.9", "0.35"}, a \in Accs, w \in {"none", "1.7"} :
    LET q == [Q(r) EXCEPT !.a = a, !.w = IF c.d.kind \in {"Mixed", "Cauchy"} THEN "none" ELSE w]
        h == "1e-5"
        df(x, y) == NDiv(NSub(x, y), NMul("2", h))
        s == Slope(c.d, c.h, q)
        qm(e) == [q EXCEPT !.m = NAdd(@, e), !.r = NSub(@, e)]
        slopem == NClose(s.m, df(LogDatum(c.d, c.h, qm(h)), LogDatum(c.d, c.h, qm(NNeg(h)))), "1e-5")
        slopeh == \A k \in 1 .. NHyp(c.d) :
                    NClose(s.h[k], df(LogDatum(c.d, Shift(c.h, k, h), q), LogDatum(c.d, Shift(c.h, k, NNeg(h)), q)), "1e-5")
    IN  (c.d.kind = "Uniform" /\ a # "none") \/ (slopem /\ (slopeh \/ (a # "none" /\ c.d.kind # "Gauss")))
\* no scale does better than the best one
LawScale == \A k \in {"Gauss", "Laplace", "Exponential", "Uniform"} :
    LET rs == <<"0.3", "-1.2", "0.8", "2.1", "-0.1">>
        qs == [i \in 1 .. 5 |-> [Q(rs[i]) EXCEPT !.w = IF k = "Uniform" THEN "none" ELSE NOfInt(i)]]
        b == MaxScale(L(k), <<"1", "1.6">>, qs)
        at(f) == LogL(L(k), <<NMul(b, f), "1.6">>, qs)
    IN  \A f \in {"0.9", "0.99", "1.01", "1.1"} :
            IF k = "Uniform" THEN at("1.000001") # NoLn /\ at("0.999999") = NoLn ELSE NLt(at(f), at("1"))
\* the variance (same integral)
LawSigma == \A c \in Cases : c.d.kind \in {"Gauss", "Laplace", "Uniform", "Exponential"} =>
    LET f(k) == LET r == NAdd("-9.975", NMul("0.05", NOfInt(k)))
                    l == LogDatum(c.d, c.h, Q(r)) IN IF l = NoLn THEN "0" ELSE NMul(NSq(r), NExp(l))
    IN  NClose(NSqrt(NMul("0.05", NSum([k \in 1 .. 400 |-> f(k - 1)]))), Sigma(c.d, c.h), "2e-3")
ASSUME Laws == Normal /\ Counts /\ Coins /\ LawSlope /\ LawScale /\ LawSigma
=============================================================================
