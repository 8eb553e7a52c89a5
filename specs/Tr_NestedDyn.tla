---------------------------- MODULE Tr_NestedDyn ----------------------------
(***************************************************************************)
(* Trace validation of nested sampling with models that grow and shrink,   *)
(* seen through the engines.  A walker is [L, p, fi, t]: likelihood, all   *)
(* parameters, indices of those to be found, and the structure of its      *)
(* model: t = [n, kn, tr], the number of components, knots, tree.          *)
(***************************************************************************)
EXTENDS ErrDist, Json, IOUtils

NS == INSTANCE Nested
DY == INSTANCE Dynamic
TR == INSTANCE Tree
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st      \* st = [c, W, a, S, low, it]
tvars == <<l, st>>

P == {"C29"}
V(clause, info) == [prop |-> P, clause |-> clause, info |-> info]
If(ok, clause, info) == IF ok THEN {} ELSE {V(clause, ToString(info))}
Rel(a, b, size, tol) == IF NIsNum(a) /\ NIsNum(b) THEN NLe(NAbs(NSub(a, b)), NMul(tol, NAdd("1", size))) ELSE a = b /\ ~ NIsNan(a)
Size(s) == NSum([k \in 1 .. Len(s) |-> IF NIsNum(s[k]) THEN NAbs(s[k]) ELSE "0"])
Fresh == [c |-> <<>>, W |-> <<>>, a |-> <<>>, S |-> <<>>, low |-> "-inf", it |-> 0]

-----------------------------------------------------------------------------
IsTree(c) == c.kind = "tree"
SetTerm(t, q) ==
    CASE t.k = "rep" -> [t EXCEPT !.n = q.n]
      [] t.k = "base" /\ t.z = "Polynomial" -> [t EXCEPT !.c.deg = q.n - 1]
      [] t.k = "base" /\ t.z = "Harmonic" -> [t EXCEPT !.c.deg = q.n]
      [] OTHER -> [t EXCEPT !.c.knots = q.kn]
Ch(c, w) == [c.pb.ch EXCEPT ![c.dl].t = SetTerm(@, w.t)]
NM(c, w) == IF IsTree(c) THEN c.off + TR!Leaves(w.t.tr) ELSE CPar(Ch(c, w))
Entry(c, w, p) == [ch |-> Ch(c, w), p |-> p, d |-> c.dl, mn |-> c.mn, mx |-> c.mx, dyn |-> TRUE, md |-> c.md]
Model(c, w) == SubSeq(w.p, 1, NM(c, w))
Hypers(c, w) == SubSeq(w.p, NM(c, w) + 1, Len(w.p))

\* the priors of the parameters of the model
TreePriors(c, w) == [i \in 1 .. NM(c, w) |-> [kd |-> "Uniform", lo |-> IF i <= c.off THEN c.plo ELSE "0", hi |-> IF i <= c.off THEN c.phi ELSE "1"]]
Priors_(c, w) == IF IsTree(c) THEN TreePriors(c, w) ELSE DY!DPriors(Ch(c, w))

\* indices of the parameters to be found: hyperparameters are counted from the end.  A kept parameter belongs to a
\* link of the chain
FirstOf(c, w, i) == IF IsTree(c) THEN IF i = 1 THEN 0 ELSE c.off ELSE SumInts([q \in 1 .. i - 1 |-> TPar(Ch(c, w)[q].t)])
KeptPos(c, w) == {FirstOf(c, w, c.keep[j].l) + c.keep[j].k : j \in 1 .. Len(c.keep)}
FreeHyp(c, j) == c.hyp[j].lo # "none"
Fit(c, w) ==
    SelectSeq([k \in 1 .. NM(c, w) |-> k - 1], LAMBDA k : k \notin KeptPos(c, w))
    \o SelectSeq([j \in 1 .. c.nh |-> j - 1 - c.nh], LAMBDA j : FreeHyp(c, j + 1 + c.nh))

SaysTree(c, w) ==
    LET X == c.pb.x
        parts == TLCEval(TR!Parts(w.t.tr, X, [i \in 1 .. Len(X) |-> i]))
        pre == IF c.off = 0 THEN "0" ELSE w.p[1]
    IN  [i \in 1 .. Len(X) |-> [v |-> NAdd(pre, w.p[c.off + TR!LeafOf(parts, i)]), g |-> <<>>]]
Like(c, w) ==
    LET pb == IF IsTree(c) THEN c.pb ELSE [c.pb EXCEPT !.ch = Ch(c, w)]
        sy == IF IsTree(c) THEN SaysTree(c, w) ELSE Says(pb, Model(c, w))
        qs == Data(IF IsTree(c) THEN [pb EXCEPT !.kind = "classic"] ELSE pb, sy)
        ls == TLCEval([k \in 1 .. Len(qs) |-> LogDatum(c.ed, Hypers(c, w), qs[k])])
    IN  [L |-> Total(ls), size |-> Size(ls)]

Nearly(a, b) == NClose(a, b, "1e-9")
Between(lo, x, hi) == NIsNum(x) /\ (NLe(lo, x) \/ Nearly(lo, x)) /\ (NLe(x, hi) \/ Nearly(hi, x))

\* a walker as it should be, whatever happened to it
WalkerBad(c, w, it) ==
    LET n == NM(c, w)
        pr == Priors_(c, w)
        size == IF IsTree(c) THEN TR!Branches(w.t.tr) ELSE w.t.n
    IN  IF Len(w.p) # n + c.nh \/ w.np # n THEN {V("number of parameters of a walker", ToString(<<Len(w.p), n, c.nh, w.np>>))}
        ELSE LET k == TLCEval(Like(c, w))
             IN  If(w.fi = Fit(c, w), "list of parameters to be found of a walker", <<w.fi, Fit(c, w), n, c.nh>>)
                 \cup If(size >= c.mn /\ (c.mx = -1 \/ size <= c.mx), "number of components of a walker", <<size, c.mn, c.mx>>)
                 \cup If(c.kind # "spl" \/ (DY!Increasing(w.t.kn) /\ Len(w.t.kn) = w.t.n /\ w.t.kn[1] = c.kn0 /\ w.t.kn[Len(w.t.kn)] = c.kn1),
                         "knots of a walker", w.t)
                 \cup If(~ IsTree(c) \/ TR!Valid(w.t.tr, c.nd, c.itp), "the tree of a walker", w.t)
                 \cup If(\A i \in 1 .. n : (i - 1) \in KeptPos(c, w) \/ Between(pr[i].lo, w.p[i], pr[i].hi), "a walker is outside the limits of its priors", <<w.p, pr>>)
                 \cup If(\A j \in 1 .. c.nh : ~ FreeHyp(c, j) \/ Between(c.hyp[j].lo, w.p[n + j], c.hyp[j].hi), "a hyperparameter of a walker is outside its limits", <<w.p, c.hyp>>)
                 \cup If(\A j \in 1 .. c.nh : FreeHyp(c, j) \/ NEq(w.p[n + j], IF c.pb.acc # <<>> /\ j = 1 THEN "0" ELSE c.hyp[j].v), "a hyperparameter that is fixed has changed", <<w.p, c.hyp>>)
                 \cup If(\A j \in 1 .. Len(c.keep) : NEq(w.p[FirstOf(c, w, c.keep[j].l) + c.keep[j].k + 1], c.keep[j].v), "a parameter that is kept has changed", <<w.p, c.keep>>)
                 \cup If(Rel(w.L, k.L, k.size, "1e-8"), "the likelihood of a walker is not that of its model and parameters", <<w, k.L>>)

-----------------------------------------------------------------------------
(* What each engine may do to the walker v; the outcome is w.              *)
Out(c, v) == FirstOf(c, v, c.dl)
Len_(c, v) == IF IsTree(c) THEN TR!Leaves(v.t.tr) ELSE TPar(Ch(c, v)[c.dl].t)
DLink(c, v) == SubSeq(v.p, Out(c, v) + 1, Out(c, v) + Len_(c, v))
\* other links and hyperparameters have the parameters they had
Others(c, v, w) ==
    /\ SubSeq(v.p, 1, Out(c, v)) = SubSeq(w.p, 1, Out(c, w))
    /\ SubSeq(v.p, Out(c, v) + Len_(c, v) + 1, Len(v.p)) = SubSeq(w.p, Out(c, w) + Len_(c, w) + 1, Len(w.p))
\* blocks of a repeated term that are left over
SubBag(s, t) == \A x \in Range(s) : Cardinality({i \in 1 .. Len(s) : s[i] = x}) <= Cardinality({i \in 1 .. Len(t) : t[i] = x})

Born(c, v, w) ==
    /\ Others(c, v, w)
    /\ CASE c.kind = "spl" -> LET e == Entry(c, v, v.p) IN DY!Increasing(w.t.kn) /\ Len(w.t.kn) = Len(v.t.kn) + 1
                                  /\ (\E i \in 2 .. Len(w.t.kn) - 1 : DY!Without(w.t.kn, i) = v.t.kn /\ DY!Apart(w.t.kn, i, c.md))
         [] IsTree(c) -> TR!GrowAt(v.t.tr, w.t.tr) # {}
         [] OTHER -> w.t.n = v.t.n + 1 /\ SubSeq(DLink(c, w), 1, Len_(c, v)) = DLink(c, v)
Died(c, v, w) ==
    /\ Others(c, v, w)
    /\ CASE c.kind = "spl" -> \E i \in 2 .. Len(v.t.kn) - 1 : DY!Without(v.t.kn, i) = w.t.kn
         [] IsTree(c) -> TR!Leaves(w.t.tr) < TR!Leaves(v.t.tr)
         [] c.kind = "rep" ->
                LET t == Ch(c, v)[c.dl].t  u == Ch(c, w)[c.dl].t
                    s == DY!Blocks(t, DLink(c, v))  r == DY!Blocks(u, DLink(c, w))
                IN  w.t.n = v.t.n - 1 /\ SubBag(r, s) /\ (w.t.n > 0 => \A i \in Range(t.same) : DLink(c, v)[i + 1] = DLink(c, w)[i + 1])
         [] OTHER -> w.t.n = v.t.n - 1 /\ DLink(c, w) = SubSeq(DLink(c, v), 1, Len_(c, w))
Restructured(c, v, w) ==
    /\ v.p = w.p
    /\ IF IsTree(c) THEN TR!SameShape(v.t.tr, w.t.tr)
       ELSE Len(v.t.kn) = Len(w.t.kn) /\ \A i \in 2 .. Len(w.t.kn) - 1 : w.t.kn[i] = v.t.kn[i] \/ DY!Apart(w.t.kn, i, c.md)
MayBe(c, eng, v, w) ==
    CASE eng = "BirthEngine" -> Born(c, v, w)
      [] eng = "DeathEngine" -> Died(c, v, w)
      [] eng = "StructureEngine" -> Restructured(c, v, w)
      [] OTHER -> v.t = w.t

\* walkers that need not be checked again are not in the trace
Walker(x) == [L |-> x.L, p |-> x.p, fi |-> x.fi, t |-> x.t, np |-> x.np]
Q(x) == [L |-> x.L, p |-> Walker(x)]      \* as Nested.tla has them
Qs(s) == [k \in 1 .. Len(s) |-> Q(s[k])]
SameList(s, t) == Len(s) = Len(t) /\ \A k \in 1 .. Len(s) : s[k] = t[k]

-----------------------------------------------------------------------------
StartBad(e) ==
    If(Len(e.W) = e.n, "size of the ensemble", <<Len(e.W), e.n>>)
    \cup If(e.shared = 0, "walkers have a model together", e.shared)
    \cup UNION {WalkerBad(e, Walker(e.W[k]), 0) : k \in 1 .. Len(e.W)}

Discard(e) ==
    LET c == st.c
        d == c.disc
        srt == TLCEval(NS!Sorted(Qs(st.W)))
        t == TLCEval(NS!TakeAll(st.a, st.S, SubSeq(srt, 1, d), c.n))
        low == srt[d].L
        pre == IF e.same THEN st.W ELSE [k \in 1 .. Len(e.pre) |-> Walker(e.pre[k])]
        rest == [k \in 1 .. Len(srt) - d |-> srt[d + k].p]
    IN  [st |-> [st EXCEPT !.W = pre, !.a = t.a, !.S = t.S, !.low = low, !.it = e.it],
         bad |-> If(e.it = st.it + 1, "number of the iteration", <<st.it, e.it>>)
                 \cup If(NEq(e.low, low), "the limit on the likelihood is not that of the walkers that are discarded", <<e.low, low>>)
                 \cup If(SameList(SubSeq(pre, d + 1, Len(pre)), rest), "walkers that remain in the ensemble", <<Len(pre), Len(srt)>>)
                 \cup If(\A k \in 1 .. d : k <= Len(pre) /\ \E i \in 1 .. Len(rest) : rest[i] = pre[k], "a walker is not replaced by a copy of one that remains", <<e.it>>)]

Moved(s, e) ==
    LET c == s.c
        W1 == [k \in 1 .. e.n |->
                  LET j == {i \in 1 .. Len(e.chg) : e.chg[i].k = k}
                  IN  IF j = {} THEN s.W[k] ELSE Walker(e.chg[CHOOSE i \in j : TRUE])]
        low == IF s.it = 0 THEN e.low ELSE s.low
    IN  IF e.n # Len(s.W) THEN [st |-> s, bad |-> {V("an engine changed the size of the ensemble", e.eng)}]
        ELSE
        [st |-> [s EXCEPT !.W = W1],
         bad |-> If(\A i \in 1 .. Len(e.chg) : e.chg[i].k = e.kw, "an engine changed another walker than its own", <<e.eng, e.kw>>)
                 \cup If(e.shared = 0, "walkers have a model together", <<e.eng, e.shared>>)
                 \cup If(\A i \in 1 .. Len(e.chg) : NLe(low, e.chg[i].L), "an engine moved a walker below the limit on the likelihood", <<e.eng, low, e.chg>>)
                 \cup If(e.ret >= 0 /\ (e.ret = 0 => e.chg = <<>>), "number of moves that an engine reports", <<e.eng, e.ret, Len(e.chg)>>)
                 \cup If(\A i \in 1 .. Len(e.chg) : MayBe(c, e.eng, s.W[e.chg[i].k], Walker(e.chg[i])), "an engine changed what it should not", <<e.eng, s.W[e.kw], e.chg>>)
                 \cup UNION {WalkerBad(c, Walker(e.chg[i]), e.it) : i \in 1 .. Len(e.chg)}]

ExecBad(e) ==
    IF e.it > st.it
    THEN LET r == TLCEval(Discard(e))
             m == TLCEval(Moved(r.st, e))
         IN  [st |-> m.st, bad |-> r.bad \cup m.bad]
    ELSE LET m == TLCEval(Moved(st, e))
         IN  [st |-> m.st, bad |-> m.bad \cup If(e.same, "the ensemble changed between two moves", e.it)]

\* a sample keeps the model it was made of
SampleOk(x, y) == x.p = y.p /\ NClose(x.L, y.L, "1e-12") /\ x.t = y.t /\ x.np = y.np /\ x.fi = y.fi
EndBad(e) ==
    LET c == st.c
        srt == NS!Sorted(Qs(st.W))
        t == TLCEval(NS!TakeAll(st.a, st.S, srt, c.n))
        S == TLCEval(NS!Normal(t.S))
        a == t.a
        ln10 == NLn("10")
    IN  If(Len(e.smp) = Len(S), "number of samples", <<Len(e.smp), Len(S)>>)
        \cup If(Len(e.smp) # Len(S) \/ \A k \in 1 .. Len(S) : SampleOk(e.smp[k], S[k].p), "samples that were taken",
                IF Len(e.smp) # Len(S) \/ \A k \in 1 .. Len(S) : SampleOk(e.smp[k], S[k].p) THEN ""
                ELSE LET k == CHOOSE i \in 1 .. Len(S) : ~ SampleOk(e.smp[i], S[i].p) IN <<k, e.smp[k], S[k].p>>)
        \cup If(\A k \in 1 .. Len(S) : k > Len(e.smp) \/ NClose(e.smp[k].lw, S[k].lw, "1e-8"), "weights of the samples", "")
        \cup If(NClose(e.z, a.z, "1e-8") /\ NClose(e.ret, NDiv(a.z, ln10), "1e-8"), "evidence", <<e.z, e.ret, a.z>>)
        \cup If(NClose(e.info, a.h, "1e-7"), "information", <<e.info, a.h>>)

-----------------------------------------------------------------------------
Step(e) ==
    CASE e.op = "reset" -> [st |-> Fresh, bad |-> {}]
      [] e.op = "start" -> [st |-> [c |-> e, W |-> [k \in 1 .. Len(e.W) |-> Walker(e.W[k])], a |-> NS!Open(e.n), S |-> <<>>, low |-> "-inf", it |-> 0], bad |-> StartBad(e)]
      [] e.op = "crash" -> [st |-> st, bad |-> {V("exception", e.exc)}]
      [] e.op = "exec" -> ExecBad(e)
      [] e.op = "end" -> [st |-> st, bad |-> EndBad(e)]

TInit == l = 0 /\ st = Fresh
TNext ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET r == Step(Trace[l + 1])
       IN  /\ st' = r.st
           /\ \A b \in r.bad : PrintT("V|" \o ToJson([ln |-> l + 1, prop |-> b.prop, clause |-> b.clause, info |-> b.info]))
=============================================================================
