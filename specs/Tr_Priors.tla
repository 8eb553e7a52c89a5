----------------------------- MODULE Tr_Priors -----------------------------
(* Trace validation of priors: after every action all live priors are read *)
(* and compared with what Priors.tla says of them.                         *)
EXTENDS Priors, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, heap, old
tvars == <<l, heap, old>>

V(props, clause, info) == [prop |-> props, clause |-> clause, info |-> info]
Rel(a, b, tol) == (NIsNum(a) /\ NIsNum(b) /\ NLe(NAbs(NSub(a, b)), NAdd(NMul(tol, NMax(NAbs(a), NAbs(b))), "1e-290"))) \/ (a = b /\ ~ NIsNan(a))

\* more than created: what goes wrong is (also) a matter of its history
Hist(i, props) == IF i \in old \cup {Trace[l + 1].h : z \in {z \in {0} : Trace[l + 1].op \notin {"new"}}} THEN props \cup {"C09"} ELSE props

PointBad(i, p, a) ==
    LET out == Outside(p, a.x)
    IN  (IF a.out = out THEN {} ELSE {V({"C09"}, "isOutOfLimits", ToString(<<p, a.x, a.out>>))})
        \cup (IF NEq(a.stay, Stay(p, a.x)) THEN {} ELSE {V({"C09"}, "stayInLimits", ToString(<<p, a.x, a.stay>>))})
        \cup (IF a.check = (IF out THEN "ValueError" ELSE "") THEN {} ELSE {V({"C09"}, "checkLimit", ToString(<<p, a.x, a.check>>))})
        \cup (IF ~ Tame(p) THEN {}
              ELSE (IF Rel(a.r, Density(p, a.x), "1e-7") THEN {} ELSE {V(Hist(i, {"C08"}), "density", ToString(<<p, a.x, a.r, Density(p, a.x)>>))})
              \cup (IF Rel(a.rv, a.r, "1e-12") THEN {} ELSE {V({"C08"}, "density of a list of values", ToString(<<p, a.x, a.rv, a.r>>))})
              \cup (IF (IF out THEN a.lr = "-inf" ELSE NClose(a.lr, NLn(Density(p, a.x)), "1e-7")) THEN {}
                    ELSE {V(Hist(i, {"C08"}), "log of the density", ToString(<<p, a.x, a.lr>>))})
              \cup (IF out \/ NClose(a.pl, PdfLog(p, a.x), "1e-9") THEN {}
                    ELSE {V({"C08"}, "slope of the log of the density", ToString(<<p, a.x, a.pl>>))})
              \cup (IF out \/ NClose(a.u, ToUnit(p, a.x), "1e-8") THEN {}
                    ELSE {V(Hist(i, {"C07"}), "domain2Unit", ToString(<<p, a.x, a.u, ToUnit(p, a.x)>>))})
              \cup (IF out \/ NClose(a.uv, a.u, "1e-12") THEN {} ELSE {V({"C07"}, "domain2Unit of a list of values", ToString(<<p, a.x, a.uv, a.u>>))})
              \* back again, unless on the fold
              \cup (IF out \/ NClose(Unit(p, a.xx), Unit(p, a.x), "1e-8")
                       \/ (p.circ /\ (NClose(Unit(p, a.x), "0", "1e-8") \/ NClose(Unit(p, a.x), "1", "1e-8"))) THEN {}
                    ELSE {V(Hist(i, {"C07"}), "unit2Domain is not the inverse of domain2Unit", ToString(<<p, a.x, a.xx>>))}))

\* the tail between the limit and x is too thin to be seen in the unit interval
Flat(p, x) == p.kind \in Scaled /\ NLt(NMul(NAbs(NSub(x, Stay(p, x))), Pdf(p, Stay(p, x))), "1e-13")

UnitBad(i, p, a) ==
    LET u == Place(p, a.u)
    IN  IF ~ Tame(p) THEN {}
        ELSE IF ~ NIsNum(a.d) THEN {V(Hist(i, {"C07"}), "unit2Domain is not a number", ToString(<<p, a.u, a.d>>))}
        ELSE (IF NClose(a.d, Stay(p, a.d), "1e-9") \/ Flat(p, a.d) THEN {} ELSE {V(Hist(i, {"C07"}), "unit2Domain is outside the limits", ToString(<<p, a.u, a.d>>))})
             \cup (IF NClose(Unit(p, a.d), u, "1e-8") THEN {} ELSE {V(Hist(i, {"C07"}), "unit2Domain", ToString(<<p, a.u, a.d, Unit(p, a.d)>>))})
             \cup (IF NClose(a.dv, a.d, "1e-12") THEN {} ELSE {V({"C07"}, "unit2Domain of a list of values", ToString(<<p, a.u, a.dv, a.d>>))})

ViewBad(v, p) ==
    LET lims == NEq(v.lo, p.lo) /\ NEq(v.hi, p.hi) /\ Len(v.lim) = 2 /\ NEq(v.lim[1], p.lo) /\ NEq(v.lim[2], p.hi)
    IN  IF ~ lims THEN {V({"C07", "C08", "C09"}, "limits", ToString(<<v.lo, v.hi, v.lim, p>>))}
        ELSE (IF v.has = <<HasLo(p), HasHi(p), HasLo(p) \/ HasHi(p)>> THEN {} ELSE {V({"C09"}, "presence of limits", ToString(<<v.has, p>>))})
        \cup (IF NEq(v.rng, Range(p)) \/ NClose(v.rng, Range(p), "1e-14") THEN {} ELSE {V({"C09"}, "range", ToString(<<v.rng, p>>))})
        \cup (IF v.circ = p.circ THEN {} ELSE {V({"C09"}, "circularity", ToString(<<v.circ, p>>))})
        \cup (IF p.circ /\ ~ Rel(v.period, Range(p), "1e-12") THEN {V({"C09"}, "period", ToString(<<v.period, p>>))} ELSE {})
        \cup (IF v.bound = IsBound(p) THEN {} ELSE {V({"C09"}, "isBound", ToString(<<v.bound, p>>))})
        \cup (IF v.c = "none" \/ (Rel(v.c, p.c, "1e-14") /\ v.s = p.s) THEN {} ELSE {V({"C09"}, "center or scale", ToString(<<v.c, v.s, p>>))})
        \cup (IF IsBound(p) /\ ~ Rel(v.int, Integral(p), "1e-9") THEN {V(Hist(v.h, {"C08"}), "integral", ToString(<<v.int, p>>))} ELSE {})
        \cup (IF ~ IsBound(p) /\ v.rexc # "AttributeError" THEN {V({"C08"}, "density of a prior without limits", ToString(<<v.rexc, p>>))} ELSE {})
        \cup UNION {PointBad(v.h, p, v.at[k]) : k \in 1 .. Len(v.at)}
        \cup UNION {UnitBad(v.h, p, v.un[k]) : k \in 1 .. Len(v.un)}

After(e) ==
    CASE e.op = "new" ->
            IF e.circ \in {"no", "yes"} /\ ~ InOrder(e.kind, LoOf(e.kind, e.lo), HiOf(e.kind, e.hi)) THEN [h |-> heap, exc |-> "ValueError"]
            ELSE [h |-> (e.h :> Create(e.kind, e.c, e.s, e.lo, e.hi, e.circ)) @@ heap, exc |-> ""]
      [] e.op = "limits" ->
            IF InOrder(heap[e.h].kind, LoOf(heap[e.h].kind, e.lo), HiOf(heap[e.h].kind, e.hi))
            THEN [h |-> [heap EXCEPT ![e.h] = Limit(@, e.lo, e.hi)], exc |-> ""] ELSE [h |-> heap, exc |-> "ValueError"]
      [] e.op = "unset" -> [h |-> [heap EXCEPT ![e.h] = Limit(@, "none", "none")], exc |-> ""]
      [] e.op = "scale" -> IF NLt("0", e.s) THEN [h |-> [heap EXCEPT ![e.h].s = e.s], exc |-> ""] ELSE [h |-> heap, exc |-> "ValueError"]
      [] e.op = "center" -> [h |-> [heap EXCEPT ![e.h].c = e.c], exc |-> ""]
      [] e.op = "copy" -> [h |-> (e.h :> heap[e.a]) @@ heap, exc |-> ""]

Step(e) ==
    CASE e.op = "reset" -> [heap |-> <<>>, old |-> {}, bad |-> {}]
      [] e.op = "crash" -> [heap |-> heap, old |-> old, bad |-> {V({"C07", "C08", "C09"}, "driver stopped", e.exc)}]
      [] OTHER ->
            LET a == TLCEval(After(e))
            IN  IF e.exc # a.exc THEN [heap |-> heap, old |-> old, bad |-> {V({"C09"}, e.op \o (IF a.exc = "" THEN " raises" ELSE " does not raise " \o a.exc), e.exc)}]
                ELSE [heap |-> a.h, old |-> old,
                      bad |-> IF {v.h : v \in {e.views[k] : k \in 1 .. Len(e.views)}} # DOMAIN a.h THEN {V({"C09"}, "priors are missing", "")}
                              ELSE UNION {ViewBad(e.views[k], a.h[e.views[k].h]) : k \in 1 .. Len(e.views)}]

TInit == l = 0 /\ heap = <<>> /\ old = {}
TNext ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET r == Step(Trace[l + 1])
           e == Trace[l + 1]
       IN  /\ heap' = r.heap
           /\ old' = IF e.op = "reset" THEN {} ELSE IF e.op \in {"new", "crash"} THEN old ELSE old \cup {e.h}
           /\ \A b \in r.bad : PrintT("V|" \o ToJson([ln |-> l + 1, prop |-> b.prop, clause |-> b.clause, info |-> b.info]))
=============================================================================
