------------------------------ MODULE MC_Tree -------------------------------
(* All histories of a decision tree and its copy.                          *)
EXTENDS Tree, TLC, Json
CONSTANTS Depth, Kinds
VARIABLES ms, hist
vars == <<ms, hist>>

Mk(nd, it, off, mn, mx) == [tr |-> Leaf, p |-> [k \in 1 .. off + 1 |-> NOfInt(k)], off |-> off, nd |-> nd, it |-> it, dyn |-> TRUE, mn |-> mn, mx |-> mx]
All == << Mk(3, <<0, 1, 2>>, 0, -1, -1), Mk(1, <<0>>, 1, 0, 2), Mk(2, <<2, 0>>, 0, 1, 3), Mk(2, <<0>>, 0, 0, -1) >>
X == << <<"0.25", "1", "2">>, <<"nan", "0", "3">>, <<"0.5", "1", "0">>, <<"1", "0", "1">>, <<"0.75", "0", "2">> >>
\* columns of the right type
Data(m) == [i \in 1 .. Len(X) |-> [j \in 1 .. m.nd |-> X[i][IF TypeOf(m.it, j - 1) = 0 THEN 1 ELSE 3]]]

Do(a) == hist' = Append(hist, a)
Ss == {"0.25", "0.75"}
Init == \E k \in Kinds : ms = <<All[k]>> /\ hist = <<[op |-> "new", m |-> All[k]]>>
GrowA(a) == \E n \in 0 .. Leaves(ms[a].tr) - 1 : \E d \in 0 .. ms[a].nd - 1 : \E s \in Ss :
    /\ ms' = IF CanGrow(ms[a]) THEN [ms EXCEPT ![a] = Grow(@, n, NewBranch(@, d, s), "0")] ELSE ms
    /\ Do([op |-> "grow", a |-> a, at |-> n, dim |-> d, s |-> s])
ShrinkA(a) == \E n \in 0 .. Leaves(ms[a].tr) - 1 :
    /\ ms' = IF Branches(ms[a].tr) > 0 /\ CanShrink(ms[a], n) THEN [ms EXCEPT ![a] = Shrink(@, n, 1)] ELSE ms
    /\ Do([op |-> "shrink", a |-> a, at |-> n])
VaryA(a) == \E n \in 0 .. Branches(ms[a].tr) - 1 : \E d \in 0 .. ms[a].nd - 1 : \E s \in Ss :
    /\ ms' = [ms EXCEPT ![a] = Vary(@, n, d, s)]
    /\ Do([op |-> "vary", a |-> a, at |-> n, dim |-> d, s |-> s])
CopyA == Len(ms) < 2 /\ ms' = Append(ms, ms[1]) /\ Do([op |-> "copy", a |-> 1])
Next == Len(hist) < Depth /\ ((\E a \in 1 .. Len(ms) : GrowA(a) \/ ShrinkA(a) \/ VaryA(a)) \/ CopyA)

-----------------------------------------------------------------------------
Sound == \A a \in 1 .. Len(ms) : Valid(ms[a].tr, ms[a].nd, ms[a].it) /\ Len(ms[a].p) = ms[a].off + Leaves(ms[a].tr)
            /\ Leaves(ms[a].tr) = 1 + Branches(ms[a].tr)
\* every datum is in just one leaf
Parted == \A a \in 1 .. Len(ms) :
            LET f == Flat(Parts(ms[a].tr, Data(ms[a]), [i \in 1 .. Len(X) |-> i]))
            IN  Len(f) = Len(X) /\ {f[i] : i \in 1 .. Len(f)} = 1 .. Len(X)
Undo == \A a \in 1 .. Len(ms) : \A n \in 0 .. Leaves(ms[a].tr) - 1 :
            LET g == Grow(ms[a], n, NewBranch(ms[a], 0, "0.25"), "9") IN Shrink(g, n, 2) = ms[a] /\ n \in GrowAt(ms[a].tr, g.tr)
Codes == \A a \in 1 .. Len(ms) : Len(Dims(ms[a].tr)) = Branches(ms[a].tr) /\ Len(Splits(ms[a].tr)) = Branches(ms[a].tr)
Emit == Len(hist) = Depth => PrintT("GEN|" \o ToJson(hist))
=============================================================================
