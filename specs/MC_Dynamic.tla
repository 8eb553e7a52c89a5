----------------------------- MODULE MC_Dynamic -----------------------------
(* All histories of growing, shrinking and copying models.                 *)
EXTENDS Dynamic, Json
CONSTANTS Depth, Handles, Kinds
VARIABLES heap, hist
vars == <<heap, hist>>

B(z, c) == [k |-> "base", z |-> z, c |-> c, fx |-> <<>>]
Poly(n) == B("Polynomial", [deg |-> n])
Harm(n) == B("Harmonic", [deg |-> n, period |-> "2.5"])
Gauss == B("Gauss", [deg |-> 0])
Exp == B("Exp", [deg |-> 0, decay |-> TRUE])
Power == B("Power", [deg |-> 0, exponent |-> "2"])
Rep(n, t, same) == [k |-> "rep", n |-> n, t |-> t, same |-> same]
Br(ch) == [k |-> "br", ch |-> ch]
U(lo, hi) == [kd |-> "Uniform", lo |-> lo, hi |-> hi]
Lk(op, t, pri) == [op |-> op, t |-> t, pri |-> pri]
NoPri(op, t) == Lk(op, t, <<>>)
PP == <<U("-1", "3"), U("2", "4")>>
GP == <<U("1", "2"), U("-1", "0"), U("0.5", "0.75")>>
Mk(ch, d, mn, mx) == [ch |-> ch, p |-> [k \in 1 .. CPar(ch) |-> NAdd("0.5", NMul("0.25", NOfInt(k)))], d |-> d, mn |-> mn, mx |-> mx, dyn |-> TRUE, md |-> "0"]
All == <<
    Mk(<<NoPri("0", Poly(1))>>, 1, 1, 3),
    Mk(<<Lk("0", Poly(0), <<U("5", "6")>>), Lk("+", Poly(1), PP)>>, 2, 2, -1),
    Mk(<<Lk("0", Harm(1), PP), Lk("*", Poly(0), <<U("5", "6")>>)>>, 1, 1, 2),
    Mk(<<Lk("0", Rep(1, Gauss, <<2>>), GP)>>, 1, 0, 2),
    Mk(<<Lk("0", Poly(0), <<U("5", "6")>>), Lk("-", Rep(0, Exp, <<>>), PP), Lk("+", Power, <<U("7", "8")>>)>>, 2, 0, -1),
    Mk(<<NoPri("0", Power), NoPri("+", Rep(2, Br(<<NoPri("0", Exp), NoPri("+", Poly(0))>>), <<1>>))>>, 2, 1, 3),
    Mk(<<Lk("0", Rep(1, Gauss, <<>>), GP), Lk("+", Poly(1), <<U("5", "6")>>)>>, 1, 1, 3),
    [Mk(<<NoPri("0", Rep(2, Exp, <<>>))>>, 1, 0, 3) EXCEPT !.dyn = FALSE],
    Mk(<<NoPri("0", Poly(0)), NoPri("+", Harm(2))>>, 2, 2, -1) >>

HasPri(e) == \A i \in 1 .. Len(e.ch) : e.ch[i].pri # <<>>
\* units for the new parameters: enough for any of them
Us == <<"0.25", "0.75", "0.125", "0.5">>
Do(a) == hist' = Append(hist, a)
Init == \E k \in Kinds : heap = <<All[k]>> /\ hist = <<[op |-> "new", m |-> All[k]]>>
GrowA(a, r) ==
    LET u == IF r THEN Us ELSE <<>>
    IN  /\ (r => HasPri(heap[a]))
        /\ heap' = IF CanGrow(heap[a]) THEN [heap EXCEPT ![a] = Grow(@, u)] ELSE heap
        /\ Do([op |-> "grow", a |-> a, u |-> u])
ShrinkA(a) ==
    /\ heap' = IF CanShrink(heap[a]) THEN [heap EXCEPT ![a] = Shrink(@)] ELSE heap
    /\ Do([op |-> "shrink", a |-> a])
CopyA(a) == Len(heap) < Handles /\ heap' = Append(heap, heap[a]) /\ Do([op |-> "copy", a |-> a])
SetA(a) ==
    LET p == [k \in 1 .. Len(heap[a].p) |-> NAdd(NOfInt(Len(hist)), NMul("0.125", NOfInt(k)))]
    IN  /\ hist[Len(hist)].op # "setp" /\ Len(p) > 0
        /\ heap' = [heap EXCEPT ![a].p = p]
        /\ Do([op |-> "setp", a |-> a, p |-> p])
Next ==
    /\ Len(hist) < Depth
    /\ \E a \in 1 .. Len(heap) : GrowA(a, TRUE) \/ GrowA(a, FALSE) \/ ShrinkA(a) \/ CopyA(a) \/ SetA(a)

-----------------------------------------------------------------------------
Lengths == \A a \in 1 .. Len(heap) : Len(heap[a].p) = CPar(heap[a].ch) /\ Len(Names(heap[a].ch)) = Len(heap[a].p)
Bounded == \A a \in 1 .. Len(heap) : heap[a].mn <= Comp(Tm(heap[a])) /\ (heap[a].mx = -1 \/ Comp(Tm(heap[a])) <= heap[a].mx)
\* to shrink undoes to grow, whatever the new parameters are
Undo == \A a \in 1 .. Len(heap) : CanGrow(heap[a]) => Shrink(Grow(heap[a], <<>>)) = heap[a]
\* the fit index of all parameters stays that of all
Indices == \A a \in 1 .. Len(heap) :
    LET e == heap[a]
        n == Len(e.p)
        at == Offset(e.ch, e.d) + TPar(Tm(e))
        d == TPar(Grown(Tm(e))) - TPar(Tm(e))
        all == [i \in 1 .. n |-> i - 1] \o <<-2, -1>>
    IN  /\ FitIdx(all, at, d) = [i \in 1 .. n + d |-> i - 1] \o <<-2, -1>>
        /\ FitIdx(FitIdx(all, at, d), at + d, -d) = all
\* what a model grew for a larger number of components is the same as one made that large (the others are shared)
Firsts == \A a \in 1 .. Len(heap) : CanGrow(heap[a]) =>
            LET g == Grow(heap[a], <<>>) IN
            /\ \A k \in 1 .. Offset(g.ch, g.d) : g.p[k] = heap[a].p[k]
            /\ Len(g.p) > Len(heap[a].p) \/ Len(Tm(g).same) = TPar(Tm(g).t)
\* a component that was made with units has its parameters within the limits
InLims == \A a \in 1 .. Len(heap) : (HasPri(heap[a]) /\ CanGrow(heap[a])) =>
            LET e == heap[a]  v == NewVals(e, Us)
                k0 == Offset(e.ch, e.d) + TPar(Tm(e))
                pr == DPriors(GrowTo(e).ch)
            IN  \A k \in 1 .. Len(v) : NLe(pr[k0 + k].lo, v[k]) /\ NLe(v[k], pr[k0 + k].hi)
Emit == Len(hist) = Depth => PrintT("GEN|" \o ToJson(hist))
=============================================================================
