-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* Decision trees.                                                         *)
(*                                                                         *)
(* A tree is a leaf [k |-> "leaf"] or a branch [k |-> "br", dim, split,    *)
(* mask, l, r]: it parts the data by their values in dimension dim (from   *)
(* 0).  Values are floats (type 0) and split is a fraction of their range; *)
(* or they are booleans (1) or categories (t > 1), an integer with a bit   *)
(* for each, and mask says which of them.  The one that is not there is "" *)
(* (split) or 0 (mask).  The result for data in the i-th leaf from the     *)
(* left is parameter i.                                                    *)
(*                                                                         *)
(* A model is [tr, p, off, nd, it, dyn, mn, mx]: the tree, all parameters  *)
(* of the chain, of which those of the tree come after off others, the     *)
(* number of dimensions, their types (the last one serves the rest), and   *)
(* the bounds to the number of branches (-1: none).                        *)
(***************************************************************************)
EXTENDS Num, FiniteSets, Bitwise

Leaf == [k |-> "leaf"]
Br(dim, split, mask, l, r) == [k |-> "br", dim |-> dim, split |-> split, mask |-> mask, l |-> l, r |-> r]

RECURSIVE Leaves(_), Branches(_)
Leaves(t) == IF t.k = "leaf" THEN 1 ELSE Leaves(t.l) + Leaves(t.r)
Branches(t) == IF t.k = "leaf" THEN 0 ELSE 1 + Branches(t.l) + Branches(t.r)

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
TypeOf(it, dim) == it[IF dim + 1 < Len(it) THEN dim + 1 ELSE Len(it)]
\* split or mask of a number between 0 and 1
SplitOf(it, dim, s) == IF TypeOf(it, dim) = 0 THEN s ELSE ""
MaskOf(it, dim, s) ==
    IF TypeOf(it, dim) = 0 THEN 0 ELSE NToInt(NFloor(NAdd(NMul(s, NOfInt(Pow2(TypeOf(it, dim)))), "1")))
RECURSIVE Valid(_, _, _)
Valid(t, nd, it) ==
    t.k = "leaf" \/
    ( /\ 0 <= t.dim /\ t.dim < nd
      /\ IF TypeOf(it, t.dim) = 0 THEN t.mask = 0 /\ t.split # "" /\ NLt("0", t.split) /\ NLt(t.split, "1")
         ELSE t.split = "" /\ 0 < t.mask /\ t.mask < Pow2(TypeOf(it, t.dim) + 1)
      /\ Valid(t.l, nd, it) /\ Valid(t.r, nd, it) )

-----------------------------------------------------------------------------
(* Where the data go.  X is a sequence of data, each one a sequence of     *)
(* numbers (strings), "nan" when unknown.                                  *)
RECURSIVE MinOf(_), MaxOf(_)
MinOf(s) == IF Len(s) = 1 THEN s[1] ELSE NMin(s[1], MinOf(Tail(s)))
MaxOf(s) == IF Len(s) = 1 THEN s[1] ELSE NMax(s[1], MaxOf(Tail(s)))
\* of the data with indices idx (increasing): those that go left
ToLeft(t, X, idx) ==
    LET V(i) == X[i][t.dim + 1]
        known == SelectSeq(idx, LAMBDA i : ~ NIsNan(V(i)))
        vals == [j \in 1 .. Len(known) |-> V(known[j])]
        lo == MinOf(vals)
        at == NAdd(lo, NMul(t.split, NSub(MaxOf(vals), lo)))
        low == NLt(t.split, "0.5")
        \* unknown values go to the smaller part of the range
        Left(i) == IF t.split # "" THEN IF NIsNan(V(i)) THEN ~ low ELSE NLt(at, V(i))
                   ELSE IF t.mask = 1 THEN NEq(V(i), "1")
                   ELSE (NToInt(V(i)) & t.mask) # 0
    IN  IF idx = <<>> THEN <<>> ELSE SelectSeq(idx, Left)
RECURSIVE Parts(_, _, _)
\* the indices that end in each of the leaves
Parts(t, X, idx) ==
    IF t.k = "leaf" THEN <<idx>>
    ELSE LET a == ToLeft(t, X, idx)
             b == SelectSeq(idx, LAMBDA i : \A j \in 1 .. Len(a) : a[j] # i)
         IN  Parts(t.l, X, a) \o Parts(t.r, X, b)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
LeafOf(parts, i) == CHOOSE q \in 1 .. Len(parts) : \E j \in 1 .. Len(parts[q]) : parts[q][j] = i

-----------------------------------------------------------------------------
\* leaf number n (from 0) becomes a branch b; branch number n (in preorder) becomes what f makes of it
RECURSIVE PutLeaf(_, _, _)
PutLeaf(t, n, b) ==
    IF t.k = "leaf" THEN b
    ELSE IF n < Leaves(t.l) THEN [t EXCEPT !.l = PutLeaf(@, n, b)]
    ELSE [t EXCEPT !.r = PutLeaf(@, n - Leaves(t.l), b)]
RECURSIVE SetBranch(_, _, _, _, _)
SetBranch(t, n, dim, split, mask) ==
    IF n = 0 THEN [t EXCEPT !.dim = dim, !.split = split, !.mask = mask]
    ELSE IF n - 1 < Branches(t.l) THEN [t EXCEPT !.l = SetBranch(@, n - 1, dim, split, mask)]
    ELSE [t EXCEPT !.r = SetBranch(@, n - 1 - Branches(t.l), dim, split, mask)]
\* the branch right above leaf n is taken away, with all that is below it
RECURSIVE CutLeaf(_, _)
CutLeaf(t, n) ==
    LET nl == Leaves(t.l)
    IN  IF n < nl THEN IF t.l.k = "leaf" THEN Leaf ELSE [t EXCEPT !.l = CutLeaf(@, n)]
        ELSE IF t.r.k = "leaf" THEN Leaf ELSE [t EXCEPT !.r = CutLeaf(@, n - nl)]
RECURSIVE CutFirst(_, _), CutSize(_, _)
\* the first of the leaves below that branch, and how many there are
CutFirst(t, n) ==
    LET nl == Leaves(t.l)
    IN  IF n < nl THEN IF t.l.k = "leaf" THEN 0 ELSE CutFirst(t.l, n)
        ELSE IF t.r.k = "leaf" THEN 0 ELSE nl + CutFirst(t.r, n - nl)
CutSize(t, n) ==
    LET nl == Leaves(t.l)
    IN  IF n < nl THEN IF t.l.k = "leaf" THEN Leaves(t) ELSE CutSize(t.l, n)
        ELSE IF t.r.k = "leaf" THEN Leaves(t) ELSE CutSize(t.r, n - nl)

CanGrow(m) == m.dyn /\ (m.mx = -1 \/ Branches(m.tr) < m.mx)
NewBranch(m, dim, s) == Br(dim, SplitOf(m.it, dim, s), MaskOf(m.it, dim, s), Leaf, Leaf)
\* a new parameter v for the left one, the other keeps the value of the leaf
Grow(m, n, b, v) == [m EXCEPT !.tr = PutLeaf(@, n, b), !.p = SubSeq(@, 1, m.off + n) \o <<v>> \o SubSeq(@, m.off + n + 1, Len(@))]
CanShrink(m, n) == Branches(m.tr) > 0 /\ (m.mn = -1 \/ (Branches(m.tr) > m.mn /\ Branches(m.tr) - (CutSize(m.tr, n) - 1) >= m.mn))
\* one of the parameters below the branch remains: number q of them
Shrink(m, n, q) ==
    LET a == m.off + CutFirst(m.tr, n)
    IN  [m EXCEPT !.tr = CutLeaf(@, n), !.p = SubSeq(@, 1, a) \o <<@[a + q]>> \o SubSeq(@, a + CutSize(m.tr, n) + 1, Len(@))]
Vary(m, n, dim, s) == [m EXCEPT !.tr = SetBranch(@, n, dim, SplitOf(m.it, dim, s), MaskOf(m.it, dim, s))]

-----------------------------------------------------------------------------
\* the tree as a code: the shape, and the dimensions and splits or masks in preorder
RECURSIVE CodeStr(_), Dims(_), Splits(_)
CodeStr(t) == IF t.k = "leaf" THEN "1"
              ELSE IF t.l.k = "leaf" /\ t.r.k = "leaf" THEN "2"
              ELSE "[" \o CodeStr(t.l) \o ", " \o CodeStr(t.r) \o "]"
Dims(t) == IF t.k = "leaf" THEN <<>> ELSE <<t.dim>> \o Dims(t.l) \o Dims(t.r)
Splits(t) == IF t.k = "leaf" THEN <<>> ELSE <<[s |-> t.split, m |-> t.mask]>> \o Splits(t.l) \o Splits(t.r)
\* a full tree of some depth, its dimensions and numbers between 0 and 1 in preorder
RECURSIVE Full(_, _, _, _)
Full(depth, it, dims, ss) ==
    IF depth = 0 THEN Leaf
    ELSE LET n == Pow2(depth - 1) - 1
         IN  Br(dims[1], SplitOf(it, dims[1], ss[1]), MaskOf(it, dims[1], ss[1]),
                Full(depth - 1, it, SubSeq(dims, 2, n + 1), SubSeq(ss, 2, n + 1)),
                Full(depth - 1, it, SubSeq(dims, n + 2, 2 * n + 1), SubSeq(ss, n + 2, 2 * n + 1)))

-----------------------------------------------------------------------------
\* random changes, as a relation between trees
GrowAt(t, u) == {n \in 0 .. Leaves(t) - 1 : \E b \in {u} : b # t /\ Leaves(u) = Leaves(t) + 1 /\ CutLeaf(u, n) = t /\ CutFirst(u, n) = n}
ShrinkAt(t, u) == {n \in 0 .. Leaves(t) - 1 : CutLeaf(t, n) = u}
RECURSIVE SameShape(_, _)
SameShape(t, u) == t.k = u.k /\ (t.k = "leaf" \/ (SameShape(t.l, u.l) /\ SameShape(t.r, u.r)))
RECURSIVE Differ(_, _)
\* the number of branches that are not the same
Differ(t, u) ==
    IF t.k = "leaf" THEN 0
    ELSE (IF t.dim = u.dim /\ t.split = u.split /\ t.mask = u.mask THEN 0 ELSE 1) + Differ(t.l, u.l) + Differ(t.r, u.r)
=============================================================================
