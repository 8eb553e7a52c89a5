------------------------------ MODULE Tr_Tree -------------------------------
(* Trace validation of decision trees (Tree.tla).                          *)
EXTENDS Tree, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, heap
tvars == <<l, heap>>

V(clause, info) == [prop |-> {"C28"}, clause |-> clause, info |-> info]
Nums(s, t) == Len(s) = Len(t) /\ \A i \in 1 .. Len(s) : NClose(s[i], t[i], "1e-9")
Range(s) == {s[i] : i \in 1 .. Len(s)}
View(e, h) == CHOOSE w \in Range(e.views) : w.h = h
\* the same tree, numbers compared as numbers
RECURSIVE SameTree(_, _)
SameTree(t, u) ==
    /\ t.k = u.k
    /\ t.k = "br" => /\ t.dim = u.dim /\ t.mask = u.mask
                     /\ (t.split = "" \/ u.split = "") => t.split = u.split
                     /\ (t.split # "" /\ u.split # "") => NClose(t.split, u.split, "1e-12")
                     /\ SameTree(t.l, u.l) /\ SameTree(t.r, u.r)

ViewOk(w, m) ==
    LET n == Leaves(m.tr)
    IN  IF w.exc # "" THEN {V("a tree can not be read", w.exc)}
        ELSE
        (IF SameTree(w.tr, m.tr) THEN {} ELSE {V("the tree", ToString(<<w.tr, m.tr>>))})
        \cup (IF Nums(w.p, m.p) THEN {} ELSE {V("parameters", ToString(<<w.p, m.p>>))})
        \cup (IF w.np = Len(m.p) /\ w.npb = n /\ w.cnt = <<n, n - 1>> /\ w.comp = n - 1 THEN {}
              ELSE {V("numbers of parameters, leaves or branches", ToString(<<w.np, w.npb, w.cnt, w.comp, n>>))})
        \cup (IF w.par THEN {} ELSE {V("the parents of the branches", "")})
        \cup (IF w.check THEN {} ELSE {V("check", "")})
        \cup (IF w.names = [k \in 1 .. n |-> "parameter_" \o ToString(k - 1)] THEN {} ELSE {V("names of the parameters", ToString(w.names))})
        \cup (IF Len(w.pri) = n /\ \A k \in 1 .. n : w.pri[k].kd = "Uniform" /\ w.pri[k].lo = "0" /\ w.pri[k].hi = "1" THEN {}
              ELSE {V("priors of the parameters", ToString(w.pri))})
        \cup (IF w.dyn = <<m.dyn, TRUE>> THEN {} ELSE {V("isDynamic, isModifiable", ToString(w.dyn))})
CheckViews(ws, hp) == UNION {ViewOk(w, hp[w.h]) : w \in Range(ws)}
Put(h, m) == [x \in DOMAIN heap \cup {h} |-> IF x = h THEN m ELSE heap[x]]
Res(hp, bad) == [heap |-> hp, bad |-> bad]

All(e) == [i \in 1 .. Len(e.x) |-> i]
CheckEval(e, m) ==
    LET parts == TLCEval(Parts(m.tr, e.x, All(e)))
        n == Leaves(m.tr)
        \* in a chain: a constant more
        pre == IF m.off = 0 THEN "0" ELSE m.p[1]
        Ok(i) ==
            LET q == LeafOf(parts, i)
            IN  IF e.op = "result" THEN NClose(e.v[i], NAdd(pre, m.p[m.off + q]), "1e-9")
                ELSE e.v[i] = [k \in 1 .. m.off |-> "1"] \o [k \in 1 .. n |-> IF k = q THEN "1" ELSE "0"]
    IN  IF e.exc # "" THEN {V(e.op \o " raises", e.exc)}
        ELSE IF e.op = "sort" THEN IF [i \in 1 .. Len(e.v) |-> e.v[i] + 1] = Flat(parts) THEN {} ELSE {V("sortXdata", ToString(<<e.v, parts>>))}
        ELSE IF Len(e.v) # Len(e.x) THEN {V(e.op \o " has the wrong length", ToString(Len(e.v)))}
        ELSE IF \A i \in 1 .. Len(e.x) : Ok(i) THEN {}
        ELSE {V(e.op \o " of data in the leaves", ToString(<<parts, e.v>>))}

\* a random change, as seen
Random(e) ==
    LET m == heap[e.a]
        w == View(e, e.a)
        n == Leaves(m.tr)
        u == w.tr
        new == [m EXCEPT !.tr = u, !.p = w.p]
        ok == CASE e.op = "rgrow" ->
                    /\ CanGrow(m)
                    /\ \E q \in GrowAt(m.tr, u) : /\ Len(w.p) = Len(m.p) + 1
                                                  /\ LET v == w.p[m.off + q + 1] IN Nums(w.p, Grow(m, q, Leaf, v).p) /\ NLe("0", v) /\ NLe(v, "1")
                [] e.op = "rshrink" -> \E q \in ShrinkAt(m.tr, u) : CanShrink(m, q) /\ \E j \in 1 .. CutSize(m.tr, q) : Nums(w.p, Shrink(m, q, j).p)
                [] e.op = "rvary" -> SameShape(m.tr, u) /\ Differ(m.tr, u) <= 1 /\ w.p = m.p
        never == CASE e.op = "rgrow" -> ~ CanGrow(m)
                   [] e.op = "rshrink" -> m.tr.k = "leaf" \/ \E q \in 0 .. n - 1 : ~ CanShrink(m, q)
                   [] e.op = "rvary" -> m.tr.k = "leaf"
    IN  IF e.exc # "" \/ w.exc # "" THEN Res(heap, {V(e.op \o " raises", e.exc \o w.exc)})
        ELSE IF ~ e.ok THEN Res(heap, CheckViews(e.views, heap) \cup IF never THEN {} ELSE {V(e.op \o " is refused", "")})
        ELSE IF m.tr.k = "leaf" /\ e.op # "rgrow" THEN Res(heap, {V(e.op \o " of a tree without branches", "")})
        ELSE IF ~ ok THEN Res(heap, {V(e.op \o ": the tree or its parameters", ToString(<<m.tr, u, m.p, w.p>>))})
        ELSE Res(Put(e.a, new), CheckViews(e.views, Put(e.a, new)) \cup IF Valid(u, m.nd, m.it) THEN {} ELSE {V(e.op \o " makes an invalid branch", ToString(u))})

Given(e) ==
    LET m == heap[e.a]
        w == View(e, e.a)
        may == CASE e.op = "grow" -> CanGrow(m)
                 [] e.op = "shrink" -> Branches(m.tr) > 0 /\ CanShrink(m, e.at)
                 [] e.op = "vary" -> Branches(m.tr) > 0
        new == CASE e.op = "grow" -> Grow(m, e.at, NewBranch(m, e.dim, e.s), "0")
                 [] e.op = "shrink" ->
                     LET qs == {q \in 1 .. CutSize(m.tr, e.at) : Nums(w.p, Shrink(m, e.at, q).p)}
                     IN  Shrink(m, e.at, IF qs = {} THEN 1 ELSE CHOOSE q \in qs : TRUE)
                 [] e.op = "vary" -> Vary(m, e.at, e.dim, e.s)
        hp == IF may THEN Put(e.a, new) ELSE heap
    IN  IF e.exc # "" THEN Res(heap, {V(e.op \o " raises", e.exc)})
        ELSE IF e.ok # may THEN Res(heap, {V(e.op \o (IF e.ok THEN " beyond the bounds" ELSE " is refused"), "")})
        ELSE Res(hp, CheckViews(e.views, hp))

Step(e) ==
    CASE e.op = "reset" -> Res(<<>>, {})
      [] e.op = "crash" -> Res(heap, {V("driver stopped", e.exc)})
      [] e.op \in {"result", "partial", "sort"} -> Res(heap, CheckEval(e, heap[e.a]))
      [] e.op = "new" -> LET m == IF e.m.tr.k = "full" THEN [e.m EXCEPT !.tr = Full(e.m.tr.depth, e.m.it, e.m.tr.dims, e.m.tr.ss)] ELSE e.m
                         IN  Res(Put(e.h, m), CheckViews(e.views, Put(e.h, m)))
      [] e.op = "copy" -> Res(Put(e.h, heap[e.a]), CheckViews(e.views, Put(e.h, heap[e.a])))
      [] e.op = "setp" -> LET hp == Put(e.a, [heap[e.a] EXCEPT !.p = e.p]) IN Res(hp, CheckViews(e.views, hp))
      [] e.op = "code" ->
            LET t == heap[e.a].tr
            IN  Res(heap, IF e.exc # "" THEN {V("encode or decode raises", e.exc)}
                          ELSE (IF e.code = CodeStr(t) /\ e.dims = Dims(t)
                                     /\ Len(e.splits) = Branches(t)
                                     /\ \A i \in 1 .. Branches(t) : e.splits[i].m = Splits(t)[i].m
                                          /\ (IF Splits(t)[i].s = "" THEN e.splits[i].s = "" ELSE e.splits[i].s # "" /\ NClose(e.splits[i].s, Splits(t)[i].s, "1e-12"))
                                THEN {} ELSE {V("the code of a tree", ToString(<<e.code, e.dims, e.splits, t>>))})
                               \cup (IF SameTree(e.tr, t) /\ e.np = Leaves(t) THEN {} ELSE {V("the tree made from the code", ToString(<<e.tr, t, e.np>>))}))
      [] e.op \in {"rgrow", "rshrink", "rvary"} -> Random(e)
      [] e.op \in {"grow", "shrink", "vary"} -> Given(e)

TInit == l = 0 /\ heap = <<>>
TNext ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET r == Step(Trace[l + 1])
       IN  /\ heap' = r.heap
           /\ \A b \in r.bad : PrintT("V|" \o ToJson([ln |-> l + 1, prop |-> b.prop, clause |-> b.clause, info |-> b.info]))
=============================================================================
