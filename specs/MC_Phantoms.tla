---------------------------- MODULE MC_Phantoms ----------------------------
(* All histories of a list of walkers, and of a collection of phantoms.    *)
EXTENDS Phantoms, Json
CONSTANTS Depth, Dyn
VARIABLES l, c, hist, all
vars == <<l, c, hist, all>>

Wk(L, p) == [id |-> 3, L |-> L, p |-> p, parent |-> -1, start |-> 0]
Ps == {<<"1", "4">>, <<"-2", "5">>} \cup (IF Dyn THEN {<<"7">>} ELSE {})
\* the dynamic collection wants six before it gives a range: store them at once
Bulk == <<Wk("1", <<"1", "4">>), Wk("2", <<"0", "6">>), Wk("3", <<"2", "5">>), Wk("4", <<"1.5", "3">>), Wk("5", <<"1.25", "4.5">>), Wk("6", <<"1.75", "4.25">>)>>
RECURSIVE StoreAll(_, _)
StoreAll(d, ws) == IF ws = <<>> THEN d ELSE StoreAll(Store(d, Len(ws[1].p), ws[1]), Tail(ws))

Do(a) == hist' = Append(hist, a)
Init == l = [s |-> <<>>, n |-> 0] /\ c = NewColl(Dyn) /\ hist = <<>> /\ all = {}
StoreA == \E L \in {"1", "2.5", "3"} : \E p \in Ps :
             c' = Store(c, Len(p), Wk(L, p)) /\ Do([op |-> "store", x |-> Wk(L, p)]) /\ all' = all \cup {Wk(L, p)} /\ UNCHANGED l
BulkA == c' = StoreAll(c, Bulk) /\ Do([op |-> "bulk", xs |-> Bulk]) /\ all' = all \cup {Bulk[k] : k \in 1 .. Len(Bulk)} /\ UNCHANGED l
\* the limit never falls
AskA == \E low \in {x \in {"0", "1", "2.5"} : \A k \in 1 .. Len(hist) : hist[k].op = "ask" => NLe(hist[k].low, x)} : \E np \in {Len(p) : p \in Ps} :
             c' = Ask(c, np, low) /\ Do([op |-> "ask", np |-> np, low |-> low]) /\ UNCHANGED <<l, all>>
ListA == \/ \E L \in {"1", "2"} : l' = [s |-> Insert(l.s, Wk(L, <<"1", "4">>)), n |-> l.n + 1] /\ Do([op |-> "insert", x |-> Wk(L, <<"1", "4">>)]) /\ Ordered(l.s)
         \/ \E low \in {"1", "1.5"} : l' = [l EXCEPT !.s = Crop(@, low)] /\ Do([op |-> "crop", low |-> low]) /\ Ordered(l.s)
         \/ \E k \in {1, Len(l.s) + 1} : l' = Put(l, k, Wk("1.5", <<"0", "2">>)) /\ Do([op |-> "put", k |-> k, x |-> Wk("1.5", <<"0", "2">>)])
         \/ l' = AddN(l, 2, Wk("0", <<"3", "3">>)) /\ Do([op |-> "addn", n |-> 2, x |-> Wk("0", <<"3", "3">>)])
         \/ Len(l.s) > 1 /\ l' = Copy(l, 1, Len(l.s), 6, l.s) /\ Do([op |-> "copy", a |-> 1, b |-> Len(l.s), start |-> 6])
Next ==
    /\ Len(hist) < Depth
    /\ \/ ListA /\ UNCHANGED <<c, all>> /\ (hist = <<>> \/ hist[1].op \in {"insert", "crop", "put", "addn", "copy"})
       \/ (StoreA \/ BulkA \/ AskA) /\ (hist = <<>> \/ hist[1].op \in {"store", "bulk", "ask"})

-----------------------------------------------------------------------------
InOrder == \A k \in DOMAIN c.c : Ordered(c.c[k].s)
Apart == Dyn => \A k \in DOMAIN c.c : \A j \in 1 .. Len(c.c[k].s) : Len(c.c[k].s[j].p) = k
\* after asking: what is left is above the limit, and it is all that ever came above it, unless the limit had been higher
Complete == \A k \in DOMAIN c.c : \A w \in all :
                (KeyOf(c, Len(w.p)) = k /\ NLt(c.c[k].low, w.L)) => \E j \in 1 .. Len(c.c[k].s) : c.c[k].s[j] = w
\* a range holds all those it was made of
Holds == \A k \in DOMAIN c.c : c.c[k].rng.has =>
            \A i \in 1 .. Len(c.c[k].rng.min) : NLe(c.c[k].rng.min[i], c.c[k].rng.max[i])
Just == hist # <<>> /\ hist[Len(hist)].op = "ask"
Emit == Len(hist) = Depth => PrintT("GEN|" \o ToJson(hist))
=============================================================================
