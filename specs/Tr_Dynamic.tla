----------------------------- MODULE Tr_Dynamic -----------------------------
(* Trace validation of models that grow and shrink (Dynamic.tla).          *)
EXTENDS Dynamic, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, heap
tvars == <<l, heap>>

V(props, clause, info) == [prop |-> props, clause |-> clause, info |-> info]
Nums(s, t) == Len(s) = Len(t) /\ \A i \in 1 .. Len(s) : NClose(s[i], t[i], "1e-9")

\* ----- evaluation
Tame(d) == NIsNum(d.v) /\ NLt(NAbs(d.v), "1e6") /\ \A i \in 1 .. Len(d.g) : NIsNum(d.g[i]) /\ NLt(NAbs(d.g[i]), "1e6")
CheckEval(e, m) ==
    LET np == CPar(m.ch)
        Bad(i) ==
            LET d == Eval(m.ch, m.p, e.x[i])[1]
            IN  Tame(d) /\ ~ (IF e.op = "result" THEN NClose(d.v, e.v[i][1], "1e-7")
                              ELSE Len(e.v[i][1]) = np /\ \A k \in 1 .. np : NClose(d.g[k], e.v[i][1][k], "2e-5"))
    IN  IF e.exc # "" THEN {V({"C27"}, e.op \o " of a model that changed raises", e.exc)}
        ELSE IF Len(e.v) # Len(e.x) THEN {V({"C27"}, e.op \o " has the wrong length", "")}
        ELSE IF \A i \in 1 .. Len(e.x) : ~ Bad(i) THEN {}
        ELSE {V({"C27"}, e.op \o " is not that of a model made with the components",
                LET i == CHOOSE i \in 1 .. Len(e.x) : Bad(i) IN ToString(<<e.x[i], e.v[i], Eval(m.ch, m.p, e.x[i])>>))}

\* ----- views
ViewOk(w, m, own) ==
    LET pr == DPriors(m.ch)
        P == IF own THEN {"C26"} ELSE {"C27"}
    IN  IF w.exc # "" THEN {V(P, "a model can not be read", w.exc)}
        ELSE
         (IF Nums(w.p, m.p) THEN {} ELSE {V(P, IF own THEN "parameters after the change" ELSE "parameters of another model", ToString(<<w.p, m.p>>))})
         \cup (IF w.np = CPar(m.ch) /\ w.nph = w.np /\ w.npb = [i \in 1 .. Len(m.ch) |-> TPar(m.ch[i].t)] THEN {}
               ELSE {V(P, "numbers of parameters", ToString(<<w.np, w.nph, w.npb, CPar(m.ch)>>))})
         \cup (IF w.comp = Comp(Tm(m)) THEN {} ELSE {V(P, "number of components", ToString(<<w.comp, Comp(Tm(m))>>))})
         \cup (IF w.names = Names(m.ch) THEN {} ELSE {V({"C27"}, "names of the parameters", ToString(<<w.names, Names(m.ch)>>))})
         \cup (IF w.kn = <<>> \/ SeqEq(w.kn, Knots(m)) THEN {} ELSE {V(P, "knots of another model", ToString(<<w.kn, Knots(m)>>))})
         \cup (IF Len(w.pri) = Len(pr) /\ \A k \in 1 .. Len(pr) : w.pri[k].kd = pr[k].kd /\ NEq(w.pri[k].lo, pr[k].lo) /\ NEq(w.pri[k].hi, pr[k].hi)
               THEN {} ELSE {V({"C27"}, "priors of the parameters", ToString(<<w.pri, pr>>))})
         \cup (IF w.dyn = m.dyn THEN {} ELSE {V(P, "isDynamic", "")})
CheckViews(ws, hp, a) == UNION {ViewOk(w, hp[w.h], w.h = a) : w \in Range(ws)}
View(e, h) == CHOOSE w \in Range(e.views) : w.h = h

Spline(m) == Is(Tm(m), "BSpl")
Put(h, m) == [x \in DOMAIN heap \cup {h} |-> IF x = h THEN m ELSE heap[x]]

\* a change of splines is found in the view
SplineStep(e) ==
    LET m == heap[e.a]
        w == View(e, e.a)
        may == CASE e.op = "grow" -> CanGrow(m) /\ Room(m)
                 [] e.op = "shrink" -> CanShrink(m) /\ Len(Knots(m)) > 2
                 [] e.op = "vary" -> Len(Knots(m)) > 2
        new == WithKnots(m, w.kn, w.p)
        holds == CASE e.op = "grow" -> SplineGrows(m, w.kn, w.p)
                   [] e.op = "shrink" -> SplineShrinks(m, w.kn, w.p)
                   [] e.op = "vary" -> SplineVaries(m, w.kn, w.p)
    IN  IF e.exc # "" \/ w.exc # "" THEN [heap |-> heap, bad |-> {V({"C26"}, e.op \o " raises", e.exc \o w.exc)}]
        ELSE IF e.ok /\ ~ may THEN [heap |-> heap, bad |-> {V({"C26"}, e.op \o " beyond the bounds", "")}]
        ELSE IF ~ e.ok /\ may /\ (e.op = "vary" => Roomy(m)) THEN [heap |-> heap, bad |-> {V({"C26"}, "does not " \o e.op, "")}]
        ELSE IF ~ e.ok THEN [heap |-> heap, bad |-> CheckViews(e.views, heap, e.a)]
        ELSE IF ~ holds THEN [heap |-> heap, bad |-> {V({"C26"}, e.op \o " of splines: the knots or the other parameters",
                                    ToString(<<Knots(m), w.kn, m.p, w.p>>))}]
        ELSE [heap |-> Put(e.a, new), bad |-> CheckViews(e.views, Put(e.a, new), e.a)
                \cup (IF InLimits(m.ch, m.p) => InLimits(new.ch, new.p) THEN {} ELSE {V({"C26"}, "parameters out of their limits", ToString(<<m.p, new.p>>))})]

Step(e) ==
    CASE e.op = "reset" -> [heap |-> <<>>, bad |-> {}]
      [] e.op = "crash" -> [heap |-> heap, bad |-> {V({"C26", "C27"}, "driver stopped", e.exc)}]
      [] e.op \in {"result", "partial"} -> [heap |-> heap, bad |-> CheckEval(e, heap[e.a])]
      [] e.op = "new" -> [heap |-> Put(e.h, e.m), bad |-> CheckViews(e.views, Put(e.h, e.m), e.h)]
      [] e.op = "copy" -> [heap |-> Put(e.h, heap[e.a]), bad |-> CheckViews(e.views, Put(e.h, heap[e.a]), 0)]
      [] e.op = "setp" -> LET hp == Put(e.a, [heap[e.a] EXCEPT !.p = e.p]) IN [heap |-> hp, bad |-> CheckViews(e.views, hp, e.a)]
      [] e.op = "fidx" -> [heap |-> heap, bad |-> IF e.exc # "" THEN {V({"C27"}, "alterFitindex raises", e.exc)}
                                                 ELSE IF e.v = FitIdx(e.fi, e.at, e.dnp) THEN {}
                                                 ELSE {V({"C27"}, "alterFitindex", ToString(<<e.fi, e.at, e.dnp, e.v>>))}]
      [] e.op = "shuffle" -> [heap |-> heap, bad |-> IF e.exc # "" THEN {V({"C27"}, "shuffle raises", e.exc)}
                                                    ELSE IF Shuffled(heap[e.a].ch, heap[e.a].d, e.p, e.v) THEN {}
                                                    ELSE {V({"C27"}, "shuffle does not permute whole components", ToString(<<e.p, e.v>>))}]
      [] e.op \in {"grow", "shrink", "vary"} /\ Spline(heap[e.a]) -> SplineStep(e)
      [] e.op \in {"grow", "shrink"} ->
            LET m == heap[e.a]
                may == IF e.op = "grow" THEN CanGrow(m) ELSE CanShrink(m)
                hp == IF ~ may THEN heap ELSE Put(e.a, IF e.op = "grow" THEN Grow(m, e.u) ELSE Shrink(m))
            IN  IF e.exc # "" THEN [heap |-> hp, bad |-> {V({"C26"}, e.op \o " raises", e.exc)}]
                ELSE IF e.ok # may THEN [heap |-> heap, bad |-> {V({"C26"}, e.op \o (IF e.ok THEN " beyond the bounds" ELSE " is refused"), "")}]
                ELSE [heap |-> hp, bad |-> CheckViews(e.views, hp, e.a)]

TInit == l = 0 /\ heap = <<>>
TNext ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET r == Step(Trace[l + 1])
       IN  /\ heap' = r.heap
           /\ \A b \in r.bad : PrintT("V|" \o ToJson([ln |-> l + 1, prop |-> b.prop, clause |-> b.clause, info |-> b.info]))
=============================================================================
