----------------------------- MODULE Tr_ErrDist -----------------------------
(* Trace validation of error distributions and problems.                   *)
EXTENDS ErrDist, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st      \* st = [P |-> problems, E |-> distributions, C |-> cells]
tvars == <<l, st>>

Fresh == [P |-> <<>>, E |-> <<>>, C |-> <<>>]
V(props, clause, info) == [prop |-> props, clause |-> clause, info |-> info]
Set(s) == {s[k] : k \in 1 .. Len(s)}

\* values agree to tol, on a scale of their own
Rel(a, b, size, tol) == IF NIsNum(a) /\ NIsNum(b) THEN NLe(NAbs(NSub(a, b)), NMul(tol, NAdd("1", size))) ELSE a = b /\ ~ NIsNan(a)
Size(s) == NSum([k \in 1 .. Len(s) |-> IF NIsNum(s[k]) THEN NAbs(s[k]) ELSE "0"])

-----------------------------------------------------------------------------
Where(e) == ToString(<<st.P[e.pb].kind, st.E[e.h].d, [w |-> st.P[e.pb].w # <<>>, acc |-> Len(st.P[e.pb].acc), cyc |-> st.P[e.pb].cyc], e.hyp>>)

\* the noise that is modelled is positive, the predicted chances are chances
Sound(pb, d, qs) == d.kind = "Bernoulli" => \A k \in 1 .. Len(qs) : NLt("0", qs[k].m) /\ NLt(qs[k].m, "1")

Constrained(e, ll) ==
    LET c == st.E[e.h].con IN IF c = <<>> THEN ll ELSE IF NLt(c[1], e.p[1]) THEN ll ELSE c[2]

LikeBad(e) ==
    LET pb == st.P[e.pb]  d == st.E[e.h].d
    IN  IF pb.kind = "xy"
        THEN LET ls == XYLogs(pb, e.p, e.hyp)
                 ll == Total(ls)
             IN  (IF Len(e.data) = Len(ls) /\ \A k \in 1 .. Len(ls) : Rel(e.data[k], ls[k], NAbs(ls[k]), "1e-9") THEN {}
                  ELSE {V({"C16"}, "log likelihood of the data, errors in x and y", ToString(<<e.data, ls>>))})
                 \cup (IF Rel(e.L, Constrained(e, ll), Size(ls), "1e-9") THEN {} ELSE {V({"C16"}, "logLikelihood, errors in x and y", ToString(<<e.L, ll>>))})
                 \cup (IF Rel(e.alt, ll, Size(ls), "1e-9") THEN {} ELSE {V({"C16"}, "logLikelihood_alt, errors in x and y", ToString(<<e.alt, ll>>))})
        ELSE LET qs == Data(pb, Says(pb, e.p))
                 ls == TLCEval([k \in 1 .. Len(qs) |-> LogDatum(d, e.hyp, qs[k])])
                 ll == Total(ls)
             IN  IF ~ Sound(pb, d, qs) THEN {}
                 ELSE (IF Len(e.data) = Len(ls) /\ \A k \in 1 .. Len(ls) : Rel(e.data[k], ls[k], IF NIsNum(ls[k]) THEN NAbs(ls[k]) ELSE "0", "1e-8") THEN {}
                       ELSE {V({"C16"}, "log likelihood of the data", Where(e) \o ToString(<<e.data, ls>>))})
                      \cup (IF Rel(e.L, Constrained(e, ll), Size(ls), "1e-8") THEN {} ELSE {V({"C16"}, "logLikelihood", Where(e) \o ToString(<<e.L, Constrained(e, ll)>>))})
                      \cup (IF Rel(e.mock, ll, Size(ls), "1e-8") THEN {} ELSE {V({"C16"}, "log likelihood with the result of the model given", Where(e) \o ToString(<<e.mock, ll>>))})
                      \cup (IF e.alt = "none" \/ Rel(e.alt, ll, Size(ls), "1e-8") THEN {} ELSE {V({"C16"}, "logLikelihood_alt", Where(e) \o ToString(<<e.alt, ll>>))})

\* no slope at a kink or an edge
RECURSIVE Smooth(_, _, _)
Smooth(d, hyp, q) ==
    CASE d.kind = "Laplace" -> NLt("1e-4", NAbs(q.r))
      [] d.kind = "Exponential" -> NLt("1e-4", NAbs(q.r)) \/ (NLt("1.01", hyp[2]) /\ NEq(q.r, "0"))
      [] d.kind = "Uniform" -> NLt(NAbs(q.r), NMul("0.999", Sc(hyp, q)))
      [] d.kind = "Poisson" -> NLt("1e-3", q.m)
      [] d.kind = "Mixed" ->
            /\ d.sub[1].kind = "Uniform" => NLt("1e-3", NAbs(NSub(NAbs(q.r), Sc(Hyp1(d, hyp), q))))
            /\ d.sub[2].kind = "Uniform" => NLt("1e-3", NAbs(NSub(NAbs(q.r), Sc(Hyp2(d, hyp), q))))
            /\ d.sub[1].kind = "Uniform" \/ Smooth(d.sub[1], Hyp1(d, hyp), q)
            /\ d.sub[2].kind = "Uniform" \/ Smooth(d.sub[2], Hyp2(d, hyp), q)
      [] OTHER -> TRUE
Even(pb, qs) == pb.cyc = "none" \/ \A k \in 1 .. Len(qs) : NLt("1e-3", NAbs(NSub(NAbs(qs[k].r), NDiv(pb.cyc, "2"))))

\* hyperparameters are counted back from the end
At(i, n) == IF i >= 0 THEN i + 1 ELSE n + i + 1

PartBad(e) ==
    LET pb == st.P[e.pb]  d == st.E[e.h].d  np == Len(e.p)  n == np + NHyp(d)
    IN  IF pb.kind = "xy"
        THEN LET ls == XYLogs(pb, e.p, e.hyp)
                 s == TLCEval([j \in 1 .. Len(e.idx) |-> XYSlope(pb, e.p, e.hyp, At(e.idx[j], n))])
             IN  IF Len(e.g) = Len(s) /\ \A j \in 1 .. Len(s) : Rel(e.g[j], s[j], NAdd(Size(s), Size(ls)), "1e-6") THEN {}
                 ELSE {V({"C17"}, "partialLogL, errors in x and y", ToString(<<e.idx, e.g, s>>))}
        ELSE LET sy == Says(pb, e.p)  qs == Data(pb, sy)
             IN  IF ~ (Sound(pb, d, qs) /\ Even(pb, qs) /\ \A k \in 1 .. Len(qs) : Smooth(d, e.hyp, qs[k]) /\ NIsNum(LogDatum(d, e.hyp, qs[k]))) THEN {}
                 ELSE LET sl == Slopes(d, e.hyp, np, sy, qs)
                          s == [j \in 1 .. Len(e.idx) |-> sl[At(e.idx[j], n)]]
                          ok(g, tol) == Len(g) = Len(s) /\ \A j \in 1 .. Len(s) : Rel(g[j], s[j][1], s[j][2], tol)
                          Info(g) == Where(e) \o ToString(<<e.idx, g, [j \in 1 .. Len(s) |-> s[j][1]]>>)
                      IN  (IF ok(e.g, "1e-7") THEN {} ELSE {V({"C17"}, "partialLogL", Info(e.g))})
                          \cup (IF e.alt = <<>> \/ ok(e.alt, IF d.kind = "Mixed" THEN "2e-4" ELSE "1e-7") THEN {} ELSE {V({"C17"}, "partialLogL_alt", Info(e.alt))})
                          \cup (IF e.num = <<>> \/ ok(e.num, "2e-4") THEN {} ELSE {V({"C17"}, "numPartialLogL", Info(e.num))})

\* second derivatives of the Gaussian likelihood of a model that is linear
HessBad(e) ==
    LET pb == st.P[e.pb]  np == Len(e.p)  n == np + 1
        sy == Says(pb, e.p)  qs == Data(pb, sy)
        h == "1e-5"
        at(i, x) == IF i <= np THEN "0" ELSE x
        grad(hyp, q2) == Slopes([kind |-> "Gauss", sub |-> <<>>], hyp, np, sy, q2)
        up == grad(<<NAdd(e.hyp[1], h)>>, qs)  dn == grad(<<NSub(e.hyp[1], h)>>, qs)
        curv(a, b) == NNeg(NSum([k \in 1 .. Len(qs) |->
                        NDiv(NMul(Wt(qs[k]), NMul(sy[k].g[a], sy[k].g[b])),
                             NAdd(NSq(e.hyp[1]), IF qs[k].a = "none" THEN "0" ELSE NSq(qs[k].a)))]))
        H(a, b) == IF a <= np /\ b <= np THEN curv(a, b)
                   ELSE LET c == IF a <= np THEN a ELSE b IN NDiv(NSub(up[c][1], dn[c][1]), NMul("2", h))
        idx == [j \in 1 .. Len(e.idx) |-> At(e.idx[j], n)]
        m == TLCEval([a \in 1 .. Len(idx) |-> [b \in 1 .. Len(idx) |-> H(idx[a], idx[b])]])
    IN  IF \A a, b \in 1 .. Len(idx) : Rel(e.m[a][b], m[a][b], NAbs(m[a][b]), "1e-6") THEN {}
        ELSE {V({"C17"}, "hessianLogL", ToString(<<e.idx, e.m, m>>))}

ScaleBad(e) ==
    LET pb == st.P[e.pb]  d == st.E[e.h].d
        qs == Data(pb, Says(pb, e.p))
        b == MaxScale(d, e.hyp, qs)
    IN  (IF e.s = "none" \/ NClose(e.s, b, "1e-9") THEN {} ELSE {V({"C16"}, "getScale", Where(e) \o ToString(<<e.s, b>>))})
        \cup (IF e.sig = "none" \/ NClose(e.sig, Sigma(d, e.hyp), "1e-9") THEN {} ELSE {V({"C16"}, "toSigma", Where(e) \o ToString(<<e.sig, Sigma(d, e.hyp)>>))})

ProblemBad(e) ==
    LET pb == st.P[e.pb]
    IN  (IF e.npars = NPar(pb) THEN {} ELSE {V({"C19"}, "number of parameters", ToString(<<e.npars, NPar(pb)>>))})
        \cup (IF e.hasw = (pb.w # <<>>) /\ e.hasa = (pb.acc # <<>>) THEN {} ELSE {V({"C19"}, "presence of weights or accuracies", "")})
        \cup IF pb.kind = "xy"
             THEN LET r(i) == <<NSub(pb.y[i], Eval(pb.ch, SubSeq(e.p, 1, CPar(pb.ch)), <<e.p[CPar(pb.ch) + i]>>)[1].v), NSub(pb.x[i][1], e.p[CPar(pb.ch) + i])>>
                      n == Len(pb.x)
                      var(i, j) == IF pb.acc = <<>> THEN "0" ELSE IF Len(pb.acc) = 1 THEN pb.acc[1][j] ELSE pb.acc[i][j]
                  IN  (IF \A i \in 1 .. Len(pb.x) : NClose(e.res[i], r(i)[1], "1e-9") /\ NClose(e.xres[i], r(i)[2], "1e-9") THEN {}
                       ELSE {V({"C19"}, "residuals in x and y", ToString(<<e.res, e.xres>>))})
                      \cup (IF \A i \in 1 .. n : \A j \in 1 .. 3 : NClose(e.var[j][i], var(i, j), "1e-9") THEN {}
                            ELSE {V({"C19"}, "variances in x and y", ToString(<<pb.acc, e.var>>))})
             ELSE LET sy == Says(pb, e.p)  qs == Data(pb, sy)
                  IN  (IF Len(e.res) = Len(qs) /\ \A k \in 1 .. Len(qs) : NClose(e.res[k], qs[k].r, "1e-9") THEN {}
                       ELSE {V({"C19"}, "residuals", ToString(<<pb.kind, pb.cyc, e.res, [k \in 1 .. Len(qs) |-> qs[k].r]>>))})
                      \cup (IF Len(e.rsq) = Len(qs) /\ \A k \in 1 .. Len(qs) : NClose(e.rsq[k], NMul(Wt(qs[k]), NSq(qs[k].r)), "1e-9") THEN {}
                            ELSE {V({"C19"}, "weighted squares of the residuals", ToString(<<pb.kind, pb.w, e.rsq>>))})
                      \cup (IF NClose(e.sumw, SumW(qs), "1e-9") THEN {} ELSE {V({"C19"}, "sum of the weights", ToString(<<pb.kind, pb.w, e.sumw>>))})
                      \cup (IF Len(e.par) = Len(qs) /\ \A k \in 1 .. Len(qs) : \A i \in 1 .. Len(e.p) : NClose(e.par[k][i], sy[k].g[i], "1e-7") THEN {}
                            ELSE {V({"C19"}, "partials of a problem", ToString(<<pb.kind, e.par>>))})
                      \cup (IF pb.kind = "class" \/ \A k \in 1 .. Len(qs) : NClose(e.var[1][k], IF qs[k].a = "none" THEN "0" ELSE NSq(qs[k].a), "1e-9") THEN {}
                            ELSE {V({"C19"}, "variances from the accuracies", ToString(<<pb.kind, pb.acc, e.var>>))})

-----------------------------------------------------------------------------
CellsOf(s, i) == Set(s.E[i].cells)
Act(s, e) ==
    CASE e.op = "new" ->
            LET b == Len(s.C)  n == Len(e.v)
            IN  [s EXCEPT !.E = (e.h :> [d |-> [kind |-> e.kind, sub |-> <<>>], cells |-> [j \in 1 .. n |-> b + j], con |-> <<>>]) @@ @,
                          !.C = @ \o [j \in 1 .. n |-> Cell(e.v[j], "none", e.lo[j], e.hi[j])]]
      [] e.op = "mix" ->
            [s EXCEPT !.E = (e.h :> [d |-> [kind |-> "Mixed", sub |-> <<s.E[e.a].d, s.E[e.b].d>>],
                                     cells |-> s.E[e.a].cells \o s.E[e.b].cells \o <<Len(s.C) + 1>>, con |-> <<>>]) @@ @,
                      !.C = Append(@, Cell(e.v, "Uniform", e.lo, e.hi))]
      [] e.op \in {"limits", "priors"} ->
            LET cs == s.E[e.h].cells
            IN  [s EXCEPT !.C = [c \in 1 .. Len(s.C) |->
                    IF c \in Set(cs)
                    THEN LET j == CHOOSE k \in 1 .. Len(cs) : cs[k] = c
                         IN  IF j > Len(e.lo) THEN s.C[c]
                             ELSE CellLimit(IF e.op = "priors" THEN [s.C[c] EXCEPT !.pk = e.pk] ELSE s.C[c], e.lo[j], e.hi[j])
                    ELSE s.C[c]]]
      [] e.op = "scale" -> [s EXCEPT !.C[s.E[e.h].cells[1]].v = e.v]
      [] e.op = "keep" ->
            LET mine == CellsOf(s, e.h)
                the == IF e.k < 0 THEN 0 ELSE s.E[e.h].cells[e.k + 1]
            IN  [s EXCEPT !.C = [c \in 1 .. Len(s.C) |->
                    IF c = the THEN [s.C[c] EXCEPT !.v = e.v, !.fix = TRUE]
                    ELSE IF c \in mine THEN [s.C[c] EXCEPT !.fix = (s.C[c].pk = "none")] ELSE s.C[c]]]
      [] e.op = "copy" ->
            LET b == Len(s.C)  cs == s.E[e.a].cells
            IN  [s EXCEPT !.E = (e.h :> [s.E[e.a] EXCEPT !.cells = [j \in 1 .. Len(cs) |-> b + j]]) @@ @,
                          !.C = @ \o [j \in 1 .. Len(cs) |-> s.C[cs[j]]]]
      [] e.op = "constrain" -> [s EXCEPT !.E[e.h].con = e.con]
      [] e.op = "problem" -> [s EXCEPT !.P = (e.pb :> [kind |-> e.kind, ch |-> e.ch, x |-> e.x, y |-> e.y, w |-> e.w, acc |-> e.acc, cyc |-> e.cyc]) @@ @]
      [] e.op = "pcopy" -> [s EXCEPT !.P = (e.pb :> s.P[e.a]) @@ @]
      [] e.op = "weights" -> [s EXCEPT !.P[e.pb].w = e.w]
      [] e.op = "accuracy" -> [s EXCEPT !.P[e.pb].acc = e.acc]
      [] OTHER -> s

ViewBad(v, s) ==
    LET d == s.E[v.h].d
        cs == [j \in 1 .. Len(s.E[v.h].cells) |-> s.C[s.E[v.h].cells[j]]]
        n == Len(cs)
    IN  IF v.n # n \/ Len(v.v) # n THEN {V({"C18"}, "number of hyperparameters", ToString(<<d, v.v>>))}
        ELSE (IF \A j \in 1 .. n : NEq(v.v[j], cs[j].v) THEN {} ELSE {V({"C18"}, "values of the hyperparameters", ToString(<<d, v.v, cs>>))})
        \cup (IF \A j \in 1 .. n : v.free[j] = CellFree(cs[j]) THEN {} ELSE {V({"C18"}, "which hyperparameters are to be fitted", ToString(<<d, v.free, cs>>))})
        \cup (IF \A j \in 1 .. n : cs[j].lo = "none" \/ (NEq(v.lo[j], cs[j].lo) /\ NEq(v.hi[j], cs[j].hi)) THEN {}
              ELSE {V({"C18"}, "limits of the hyperparameters", ToString(<<d, v.lo, v.hi, cs>>))})
        \cup (IF v.names = Names(d) THEN {} ELSE {V({"C18"}, "names of the hyperparameters", ToString(<<d, v.names>>))})
        \cup UNION {LET a == v.map[k]  c == cs[a.j]
                    IN  IF c.lo = "none" THEN {}
                        ELSE (IF NClose(PR!Unit(CellPrior(c), a.d), a.u, "1e-8") THEN {}
                              ELSE {V({"C18"}, "unit2Domain of a hyperparameter", ToString(<<d, a, c>>))})
                             \cup (IF NClose(a.uu, a.u, "1e-8") THEN {} ELSE {V({"C18"}, "domain2Unit of a hyperparameter", ToString(<<d, a, c>>))})
                    : k \in 1 .. Len(v.map)}
        \cup (IF v.bound = "none" \/ (v.bound = "yes") = (\A j \in 1 .. n : cs[j].lo # "none") THEN {} ELSE {V({"C18"}, "isBound", ToString(<<d, v.bound, cs>>))})

Props(e) == IF e.op \in {"like", "scl"} THEN {"C16"} ELSE IF e.op \in {"part", "hess"} THEN {"C17"}
            ELSE IF e.op \in {"look", "problem", "pcopy", "weights", "accuracy"} THEN {"C19"}
            ELSE IF e.op = "crash" THEN {"C16", "C17", "C18", "C19"} ELSE {"C18"}

Step(e) ==
    CASE e.op = "reset" -> [st |-> Fresh, bad |-> {}]
      [] e.op = "crash" -> [st |-> st, bad |-> {V(Props(e), "driver stopped", e.exc)}]
      [] e.exc # "" -> [st |-> st, bad |-> {V(Props(e), e.op \o " raises", e.exc)}]
      [] e.op = "like" -> [st |-> st, bad |-> LikeBad(e)]
      [] e.op = "part" -> [st |-> st, bad |-> PartBad(e)]
      [] e.op = "hess" -> [st |-> st, bad |-> HessBad(e)]
      [] e.op = "scl" -> [st |-> st, bad |-> ScaleBad(e)]
      [] e.op = "look" -> [st |-> st, bad |-> ProblemBad(e)]
      [] OTHER ->
            LET s == TLCEval(Act(st, e))
            IN  [st |-> s, bad |-> UNION {ViewBad(e.views[k], s) : k \in 1 .. Len(e.views)}]

TInit == l = 0 /\ st = Fresh
TNext ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET r == Step(Trace[l + 1])
       IN  /\ st' = r.st
           /\ \A b \in r.bad : PrintT("V|" \o ToJson([ln |-> l + 1, prop |-> b.prop, clause |-> b.clause, info |-> b.info]))
=============================================================================
