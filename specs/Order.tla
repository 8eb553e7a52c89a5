-------------------------------- MODULE Order --------------------------------
(***************************************************************************)
(* Ordering problems: tours over nodes 0 .. n-1, their cost, and what the  *)
(* engines of NestedSolver may do to them.                                 *)
(*                                                                         *)
(* A problem is [n, x, dis, tab, ow, w, scale]: coordinates of the nodes,  *)
(* kind of distance, table of distances, whether the tour is open, weights *)
(* of the nodes (<<>>: none), scale.  A tour is a sequence of nodes.       *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets, TLC

Ran(s) == {s[i] : i \in 1 .. Len(s)}
IsTour(v, n) == Len(v) = n /\ Ran(v) = 0 .. n - 1
Rot(v, k) == [i \in 1 .. Len(v) |-> v[((i + k - 1) % Len(v)) + 1]]
\* the same tour, starting at node 0
Canon(v) == IF 0 \in Ran(v) THEN LET k == CHOOSE i \in 1 .. Len(v) : v[i] = 0 IN Rot(v, k - 1) ELSE v

-----------------------------------------------------------------------------
Deg == NDiv("3.14159265358979323846", "180")
Dist(pb, a, b) ==
    LET x == pb.x[a + 1]
        y == pb.x[b + 1]
        d == [i \in 1 .. Len(x) |-> NAbs(NSub(x[i], y[i]))]
    IN  CASE pb.dis = "manhattan" -> NSum(d)
          [] pb.dis = "euclid" -> NSqrt(NSum([i \in 1 .. Len(d) |-> NMul(d[i], d[i])]))
          [] pb.dis = "spherical" ->
                LET s(u) == NSq(NSin(NMul(NDiv(u, "2"), Deg)))
                    h == NAdd(s(d[2]), NMul(NMul(NCos(NMul(x[2], Deg)), NCos(NMul(y[2], Deg))), s(d[1])))
                    g == NMin(h, "1")
                IN  NMul("2", NAtan2(NSqrt(g), NSqrt(NSub("1", g))))
          [] pb.dis = "table" -> pb.tab[a + 1][b + 1]
          [] pb.dis = "max" -> LET RECURSIVE mx(_) mx(i) == IF i = 1 THEN d[1] ELSE NMax(d[i], mx(i - 1)) IN mx(Len(d))

RECURSIVE Least(_, _)
Least(S, m) == IF S = {} THEN m ELSE LET x == CHOOSE y \in S : TRUE IN Least(S \ {x}, IF m = "none" THEN x ELSE NMin(x, m))
MinDist(pb) == Least({Dist(pb, a, b) : <<a, b>> \in {q \in (0 .. pb.n - 1) \X (0 .. pb.n - 1) : q[1] # q[2]}}, "none")
Scale(pb) == IF pb.scale # "none" THEN pb.scale ELSE LET m == MinDist(pb) IN IF NLt(m, "1e-10") THEN "1" ELSE m

\* the steps of a tour: step k leaves node v[k]
Steps(pb, scale, v) ==
    [k \in 1 .. Len(v) |->
        IF pb.ow /\ k = Len(v) THEN "0"
        ELSE NMul(NDiv(Dist(pb, v[k], v[(k % Len(v)) + 1]), scale), IF pb.w = <<>> THEN "1" ELSE pb.w[v[k] + 1])]
LogL(pb, scale, v) == NNeg(NSum(Steps(pb, scale, v)))

-----------------------------------------------------------------------------
(* What the engines may make of a tour.                                    *)
ReverseFirst(v, t) == [i \in 1 .. Len(v) |-> IF i <= t THEN v[t + 1 - i] ELSE v[i]]
Reversed(v) == {ReverseFirst(Rot(v, q[1]), q[2]) : q \in (0 .. Len(v) - 1) \X (2 .. Len(v))}
Switched(v) == {[v EXCEPT ![q[1]] = v[q[2]], ![q[2]] = v[q[1]]] : q \in {r \in (1 .. Len(v)) \X (1 .. Len(v)) : r[1] < r[2]}}
\* t nodes from position k on are put after the j-th of the others
PutAt(u, t, j) == SubSeq(u, t + 1, t + j) \o SubSeq(u, 1, t) \o SubSeq(u, t + j + 1, Len(u))
Relocated(v) == {PutAt(Rot(v, q[1]), q[2], q[3]) : q \in {r \in (0 .. Len(v) - 1) \X (1 .. Len(v) - 1) \X (1 .. Len(v) - 1) : r[2] + r[3] <= Len(v)}}
Cut(v, x) == SelectSeq(v, LAMBDA y : y # x)
\* x is put just before or just after a
Beside(v, a, x) ==
    LET u == Cut(v, x)
        k == CHOOSE i \in 1 .. Len(u) : u[i] = a
    IN  {SubSeq(u, 1, k - 1) \o <<x>> \o SubSeq(u, k, Len(u)), SubSeq(u, 1, k) \o <<x>> \o SubSeq(u, k + 1, Len(u))}

Up(p, q, r) == NSub(NMul(NSub(q[1], p[1]), NSub(r[2], p[2])), NMul(NSub(q[2], p[2]), NSub(r[1], p[1])))
Between(a, x, b) == NLe(NMul(NSub(x, a), NSub(x, b)), "1e-9")
\* two sections have a point in common
Cross(p, q, r, s) ==
    /\ NLe(NMul(Up(p, q, r), Up(p, q, s)), "1e-9")
    /\ NLe(NMul(Up(r, s, p), Up(r, s, q)), "1e-9")
Nearest(pb, a, x) == \A y \in (0 .. pb.n - 1) \ {a, x} : NLe(Dist(pb, a, x), NAdd(Dist(pb, a, y), "1e-9"))

MayBecome(pb, eng, v, w) ==
    CASE eng = "SwitchEngine" -> w \in Switched(v)
      [] eng = "ReverseEngine" -> Canon(w) \in {Canon(u) : u \in Reversed(v)}
      [] eng = "MoveEngine" -> Canon(w) \in {Canon(u) : u \in Relocated(v)}
      [] eng = "NearEngine" ->
            \E a \in 0 .. pb.n - 1 : \E x \in (0 .. pb.n - 1) \ {a} :
                Canon(w) \in {Canon(u) : u \in Beside(v, a, x)} /\ Nearest(pb, a, x)
      [] eng = "LoopEngine" ->
            \E k \in 0 .. Len(v) - 1 : \E t \in 2 .. Len(v) - 1 :
                LET u == Rot(v, k)
                    X(i) == pb.x[u[i] + 1]
                IN  Canon(ReverseFirst(u, t)) = Canon(w) /\ Cross(X(Len(u)), X(1), X(t), X(t + 1))
      [] OTHER -> TRUE
==============================================================================
