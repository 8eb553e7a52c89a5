------------------------------ MODULE Phantoms ------------------------------
(***************************************************************************)
(* Lists of walkers, and the collection of phantoms: all walkers that were *)
(* tried, in order of likelihood, for each number of parameters apart if   *)
(* the model is dynamic.  It tells the engines the range of the parameters *)
(* within the present limit.                                               *)
(*                                                                         *)
(* walker [id, L, p, parent, start];  list [s, n]: walkers, next number.   *)
(* collection [dyn, n, c]: number of calls; c maps a key (the number of    *)
(* parameters; 0 for all if static) to [s, low, rng]: walkers, limit for   *)
(* which the range was found, range (has: FALSE if there are too few).                     *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC

Lowest == "-inf"

\* place of the first with a higher likelihood, from 0; the length if there is none
First(s, low) == IF \E k \in 1 .. Len(s) : NLt(low, s[k].L) THEN (CHOOSE k \in 1 .. Len(s) : NLt(low, s[k].L) /\ \A j \in 1 .. k - 1 : ~ NLt(low, s[j].L)) - 1
                 ELSE Len(s)
InsertAt(s, k, x) == SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
\* a list in order stays in order; the one that comes in is after its equals
Insert(s, x) == InsertAt(s, First(s, x.L), x)
Crop(s, low) == SubSeq(s, First(s, low) + 1, Len(s))
Ordered(s) == \A k \in 2 .. Len(s) : NLe(s[k - 1].L, s[k].L)

Put(l, k, x) == IF k <= Len(l.s) THEN [l EXCEPT !.s[k] = x] ELSE [s |-> Append(l.s, [x EXCEPT !.id = l.n]), n |-> l.n + 1]
\* copies of x, numbered on
RECURSIVE AddN(_, _, _)
AddN(l, k, x) == IF k = 0 THEN l ELSE AddN([s |-> Append(l.s, [x EXCEPT !.id = l.n]), n |-> l.n + 1], k - 1, x)
Copy(l, a, b, start, from) == [l EXCEPT !.s[b] = [from[a] EXCEPT !.id = l.s[b].id, !.parent = a - 1, !.start = start]]

MaxLen(s) == CHOOSE n \in {Len(s[k].p) : k \in 1 .. Len(s)} : \A k \in 1 .. Len(s) : Len(s[k].p) <= n
Padded(s) == LET m == MaxLen(s) IN [k \in 1 .. Len(s) |-> [i \in 1 .. m |-> IF i <= Len(s[k].p) THEN s[k].p[i] ELSE "0"]]
LowestL(s) == LET k == CHOOSE i \in 1 .. Len(s) : \A j \in 1 .. Len(s) : NLt(s[i].L, s[j].L) \/ (NEq(s[i].L, s[j].L) /\ i <= j) IN <<s[k].L, k - 1>>

\* parameters, nuisance parameters and hyperparameters of a walker, when it becomes a sample
Parts(p, np, nn) == [p |-> SubSeq(p, 1, np), u |-> SubSeq(p, np + 1, np + nn), h |-> SubSeq(p, np + nn + 1, Len(p))]

-----------------------------------------------------------------------------
MinStatic == 2
MinDynamic == 6
None == [has |-> FALSE, min |-> <<>>, max |-> <<>>]
Nothing == [s |-> <<>>, low |-> Lowest, rng |-> None]
NewColl(dyn) == [dyn |-> dyn, n |-> 0, c |-> IF dyn THEN [k \in {} |-> Nothing] ELSE [k \in {0} |-> Nothing]]
KeyOf(c, np) == IF c.dyn THEN np ELSE 0
At(c, k) == IF k \in DOMAIN c.c THEN c.c[k] ELSE Nothing
Set(c, k, v) == [c EXCEPT !.c = [j \in DOMAIN c.c \cup {k} |-> IF j = k THEN v ELSE c.c[j]]]
Store(c, np, x) == LET k == KeyOf(c, np)  v == At(c, k) IN [Set(c, k, [v EXCEPT !.s = Insert(v.s, x)]) EXCEPT !.n = c.n + 1]
Extreme(s, i, Op(_, _)) ==
    LET RECURSIVE f(_, _)
        f(k, t) == IF k > Len(s) THEN t ELSE f(k + 1, Op(t, s[k].p[i]))
    IN  f(2, s[1].p[i])
Range(dyn, s) ==
    IF Len(s) < (IF dyn THEN MinDynamic ELSE MinStatic) THEN None
    ELSE [has |-> TRUE, min |-> [i \in 1 .. Len(s[1].p) |-> Extreme(s, i, NMin)], max |-> [i \in 1 .. Len(s[1].p) |-> Extreme(s, i, NMax)]]
\* the range is found anew when the limit has risen, or when there was none yet for this number of parameters
Ask(c, np, low) ==
    LET k == KeyOf(c, np)  v == At(c, k)
        t == Crop(v.s, low)
    IN  IF NLt(v.low, low) \/ (c.dyn /\ ~ v.rng.has)
        THEN Set(c, k, [s |-> t, low |-> low, rng |-> Range(c.dyn, t)]) ELSE c
Count(c) == LET RECURSIVE f(_)
                f(ks) == IF ks = {} THEN 0 ELSE LET k == CHOOSE j \in ks : TRUE IN Len(c.c[k].s) + f(ks \ {k})
            IN  f(DOMAIN c.c)
=============================================================================
