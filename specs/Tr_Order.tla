------------------------------ MODULE Tr_Order ------------------------------
(***************************************************************************)
(* Trace validation of ordering problems: their costs, their engines, and  *)
(* runs of NestedSolver.  A walker is its likelihood and its tour.         *)
(***************************************************************************)
EXTENDS Order, Json, IOUtils

NS == INSTANCE Nested
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st      \* st = [c, sc, W, a, S, low, it]
tvars == <<l, st>>

P == {"C30"}
V(clause, info) == [prop |-> P, clause |-> clause, info |-> info]
If(ok, clause, info) == IF ok THEN {} ELSE {V(clause, ToString(info))}
Fresh == [c |-> <<>>, sc |-> "1", W |-> <<>>, a |-> <<>>, S |-> <<>>, low |-> "-inf", it |-> 0]
Near(a, b) == NIsNum(a) /\ NIsNum(b) /\ NLe(NAbs(NSub(a, b)), NMul("1e-9", NAdd("1", NAbs(b))))
SameList(s, t) == Len(s) = Len(t) /\ \A k \in 1 .. Len(s) : s[k] = t[k]

WalkerBad(s, w) ==
    IF ~ IsTour(w.p, s.c.n) THEN {V("a walker does not visit each node once", ToString(w))}
    ELSE LET L == LogL(s.c, s.sc, w.p)
         IN  If(Near(w.L, L), "the likelihood of a walker is not that of its tour", <<w, L>>)
Q(x) == [L |-> x.L, p |-> [L |-> x.L, p |-> x.p]]
Qs(s) == [k \in 1 .. Len(s) |-> Q(s[k])]
Wk(x) == [L |-> x.L, p |-> x.p]

-----------------------------------------------------------------------------
Problem(e) ==
    LET sc == TLCEval(Scale(e))
    IN  [st |-> [Fresh EXCEPT !.c = e, !.sc = sc],
         bad |-> If(Near(e.rscale, sc), "scale of the distances", <<e.rscale, sc>>)
                 \cup If(e.dis = "max" \/ Near(e.rmin, MinDist(e)) \/ NLt(MinDist(e), "1e-10"), "smallest distance", <<e.rmin, MinDist(e)>>)
                 \cup If(e.npars = e.n /\ e.start = [k \in 1 .. e.n |-> k - 1], "parameters of a new problem", <<e.npars, e.start>>)]
CostBad(e) ==
    LET r == Steps(st.c, st.sc, e.p)
        L == NNeg(NSum(r))
    IN  If(Len(e.r) = Len(r) /\ \A k \in 1 .. Len(r) : k > Len(e.r) \/ Near(e.r[k], r[k]), "steps of a tour", <<e.r, r>>)
        \cup If(Near(e.L, L) /\ Near(e.L2, L), "cost of a tour", <<e.L, e.L2, L>>)

-----------------------------------------------------------------------------
StartBad(s, e) ==
    If(Len(e.W) = e.m, "size of the ensemble", <<Len(e.W), e.m>>)
    \cup UNION {WalkerBad(s, Wk(e.W[k])) : k \in 1 .. Len(e.W)}

Discard(e) ==
    LET d == st.d
        srt == TLCEval(NS!Sorted(Qs(st.W)))
        t == TLCEval(NS!TakeAll(st.a, st.S, SubSeq(srt, 1, d), st.m))
        low == srt[d].L
        pre == IF e.same THEN st.W ELSE [k \in 1 .. Len(e.pre) |-> Wk(e.pre[k])]
        rest == [k \in 1 .. Len(srt) - d |-> srt[d + k].p]
    IN  [st |-> [st EXCEPT !.W = pre, !.a = t.a, !.S = t.S, !.low = low, !.it = e.it],
         bad |-> If(e.it = st.it + 1, "number of the iteration", <<st.it, e.it>>)
                 \cup If(NEq(e.low, low), "the limit on the likelihood is not that of the walkers that are discarded", <<e.low, low>>)
                 \cup If(SameList(SubSeq(pre, d + 1, Len(pre)), rest), "walkers that remain in the ensemble", <<Len(pre), Len(srt)>>)
                 \cup If(\A k \in 1 .. d : k <= Len(pre) /\ \E i \in 1 .. Len(rest) : rest[i] = pre[k], "a walker is not replaced by a copy of one that remains", <<e.it>>)]

Moved(s, e) ==
    LET W1 == [k \in 1 .. e.n |->
                  LET j == {i \in 1 .. Len(e.chg) : e.chg[i].k = k}
                  IN  IF j = {} THEN s.W[k] ELSE Wk(e.chg[CHOOSE i \in j : TRUE])]
        low == IF s.it = 0 THEN e.low ELSE s.low
    IN  IF e.n # Len(s.W) THEN [st |-> s, bad |-> {V("an engine changed the size of the ensemble", e.eng)}]
        ELSE
        [st |-> [s EXCEPT !.W = W1],
         bad |-> If(\A i \in 1 .. Len(e.chg) : e.chg[i].k = e.kw, "an engine changed another walker than its own", <<e.eng, e.kw, e.chg>>)
                 \cup If(\A i \in 1 .. Len(e.chg) : NLe(low, e.chg[i].L), "an engine moved a walker below the limit on the likelihood", <<e.eng, low, e.chg>>)
                 \cup If(e.ret >= 0 /\ (e.ret = 0 => e.chg = <<>>) /\ (e.ret > 0 /\ e.eng \notin {"ShuffleEngine", "MoveEngine"} => e.chg # <<>>),
                         "number of moves that an engine reports", <<e.eng, e.ret, Len(e.chg)>>)
                 \cup UNION {WalkerBad(s, Wk(e.chg[i])) : i \in 1 .. Len(e.chg)}
                 \cup If(\A i \in 1 .. Len(e.chg) : ~ IsTour(e.chg[i].p, s.c.n) \/ ~ IsTour(s.W[e.chg[i].k].p, s.c.n)
                                                   \/ MayBecome(s.c, e.eng, s.W[e.chg[i].k].p, e.chg[i].p),
                         "an engine does not do what it is for", <<e.eng, s.W[e.kw], e.chg>>)]

ExecBad(e) ==
    IF e.it > st.it
    THEN LET r == TLCEval(Discard(e))
             m == TLCEval(Moved(r.st, e))
         IN  [st |-> m.st, bad |-> r.bad \cup m.bad]
    ELSE LET m == TLCEval(Moved(st, e))
         IN  [st |-> m.st, bad |-> m.bad \cup If(e.same, "the ensemble changed between two moves", e.it)]

EndBad(e) ==
    LET srt == NS!Sorted(Qs(st.W))
        t == TLCEval(NS!TakeAll(st.a, st.S, srt, st.m))
        S == TLCEval(NS!Normal(t.S))
        a == t.a
    IN  If(Len(e.smp) = Len(S), "number of samples", <<Len(e.smp), Len(S)>>)
        \cup If(Len(e.smp) # Len(S) \/ \A k \in 1 .. Len(S) : e.smp[k].p = S[k].p.p /\ NClose(e.smp[k].L, S[k].p.L, "1e-12"), "samples that were taken", Len(S))
        \cup If(\A k \in 1 .. Len(S) : k > Len(e.smp) \/ NClose(e.smp[k].lw, S[k].lw, "1e-8"), "weights of the samples", "")
        \cup If(NClose(e.z, a.z, "1e-8"), "evidence", <<e.z, a.z>>)
        \cup If(e.best.p = S[Len(S)].p.p /\ \A k \in 1 .. Len(S) : NLe(S[k].p.L, e.best.L), "the solution is not the best tour that was found", <<e.best, S[Len(S)]>>)
        \cup If(e.again, "another run with the same seed has another outcome", "")

Step(e) ==
    CASE e.op = "reset" -> [st |-> Fresh, bad |-> {}]
      [] e.op = "problem" -> Problem(e)
      [] e.op = "cost" -> [st |-> st, bad |-> CostBad(e)]
      [] e.op = "start" ->
            LET s == [c |-> st.c, sc |-> st.sc, W |-> [k \in 1 .. Len(e.W) |-> Wk(e.W[k])], a |-> NS!Open(e.m), S |-> <<>>, low |-> "-inf", it |-> 0,
                      m |-> e.m, d |-> e.d]
            IN  [st |-> s, bad |-> StartBad(s, e)]
      [] e.op = "crash" -> [st |-> st, bad |-> {V("exception", e.exc)}]
      [] e.op = "exec" -> ExecBad(e)
      [] e.op = "end" -> [st |-> st, bad |-> EndBad(e)]

TInit == l = 0 /\ st = Fresh
TNext ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET r == Step(Trace[l + 1])
       IN  /\ st' = r.st
           /\ \A b \in r.bad : PrintT("V|" \o ToJson([ln |-> l + 1, prop |-> b.prop, clause |-> b.clause, info |-> b.info]))
=============================================================================
