------------------------------ MODULE Tr_Nested ------------------------------
(* Trace validation of runs of NestedSampler and PhantomSampler, seen        *)
(* through their engines.                                                    *)
EXTENDS ErrDist, Json, IOUtils

NS == INSTANCE Nested
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st      \* st = [c, W, a, S, low, it]: configuration, ensemble, account, samples
tvars == <<l, st>>

V(props, clause, info) == [prop |-> props, clause |-> clause, info |-> info]
If(ok, props, clause, info) == IF ok THEN {} ELSE {V(props, clause, ToString(info))}
Rel(a, b, size, tol) == IF NIsNum(a) /\ NIsNum(b) THEN NLe(NAbs(NSub(a, b)), NMul(tol, NAdd("1", size))) ELSE a = b /\ ~ NIsNan(a)
Size(s) == NSum([k \in 1 .. Len(s) |-> IF NIsNum(s[k]) THEN NAbs(s[k]) ELSE "0"])
Fresh == [c |-> <<>>, W |-> <<>>, a |-> <<>>, S |-> <<>>, low |-> "-inf", it |-> 0]

-----------------------------------------------------------------------------
(* Which parameters are to be found.                                       *)
NP(c) == NPar(c.pb)
Pos(c, k) == IF k >= 0 THEN k + 1 ELSE NP(c) + c.nh + k + 1     \* index from 0, or counted back, to place
Kept(c) == {Pos(c, c.keep[j].k) : j \in 1 .. Len(c.keep)}
KeptAt(c, i) == (CHOOSE j \in 1 .. Len(c.keep) : Pos(c, c.keep[j].k) = i)
FreeHyp(c, j) == c.hyp[j].lo # "none"
Fitted(c) == {i \in 1 .. NP(c) : i \notin Kept(c)} \cup {NP(c) + j : j \in {k \in 1 .. c.nh : FreeHyp(c, k) /\ (NP(c) + k) \notin Kept(c)}}
\* the values of the others
Held(c, i) ==
    IF i \in Kept(c) THEN c.keep[KeptAt(c, i)].v
    ELSE IF c.pb.acc # <<>> /\ i = NP(c) + 1 THEN "0"
    ELSE c.hyp[i - NP(c)].v
Prior(c, i) ==
    IF i <= NP(c) THEN LET q == c.pri[i] IN PR!Create(q.kind, q.c, q.s, q.lo, q.hi, q.circ)
    ELSE LET q == c.hyp[i - NP(c)] IN PR!Create("Jeffreys", "0", "1", q.lo, q.hi, "no")
Nearly(a, b) == NClose(a, b, "1e-9")
In(pr, x) == ~ PR!Outside(pr, x) \/ Nearly(x, pr.lo) \/ Nearly(x, pr.hi)

Like(c, p) ==
    LET np == NP(c)  pars == SubSeq(p, 1, np)  hyp == SubSeq(p, np + 1, np + c.nh)
    IN  IF c.pb.kind = "xy" THEN LET ls == XYLogs(c.pb, pars, hyp) IN [ok |-> TRUE, L |-> Total(ls), size |-> Size(ls)]
        ELSE LET qs == Data(c.pb, Says(c.pb, pars))
                 ls == TLCEval([k \in 1 .. Len(qs) |-> LogDatum(c.d, hyp, qs[k])])
             IN  [ok |-> c.d.kind = "Bernoulli" => \A k \in 1 .. Len(qs) : NLt("0", qs[k].m) /\ NLt(qs[k].m, "1"),
                  L |-> Total(ls), size |-> Size(ls)]

\* a walker that was put somewhere by an engine
WalkerBad(c, w, props) ==
    LET n == NP(c) + c.nh
    IN  IF Len(w.p) # n THEN {V(props, "number of parameters of a walker", ToString(<<Len(w.p), n>>))}
        ELSE LET k == TLCEval(Like(c, w.p))
             IN  If(\A i \in 1 .. n : i \in Fitted(c) => NIsNum(w.p[i]) /\ In(Prior(c, i), w.p[i]), props, "a walker is outside the limits of its priors", <<w.p, c.pri, c.hyp>>)
                 \cup If(~ k.ok \/ Rel(w.L, k.L, k.size, "1e-8"), props, "the likelihood of a walker is not that of its parameters", <<c.d, w, k.L>>)
                 \cup If(\A i \in 1 .. n : i \in Fitted(c) \/ NEq(w.p[i], Held(c, i)), props \cup {"C23"}, "a parameter that is kept or fixed has changed", <<w.p, c.keep, c.hyp>>)

FiOf(c, fi) == {Pos(c, fi[j]) : j \in 1 .. Len(fi)}

StartBad(e) ==
    If(FiOf(e, e.fi) = Fitted(e) /\ Len(e.fi) = Cardinality(Fitted(e)), {"C23"}, "list of parameters to be fitted", <<e.fi, e.keep, e.hyp, e.pb.acc>>)
    \cup If(Len(e.W) = e.n, {"C20"}, "size of the ensemble", <<Len(e.W), e.n>>)
    \cup UNION {WalkerBad(e, e.W[k], {"C21"}) : k \in 1 .. Len(e.W)}

-----------------------------------------------------------------------------
(* One iteration: the lowest leave, the rest stays.                        *)
Same(v, w) == v.L = w.L /\ v.p = w.p
SameList(s, t) == Len(s) = Len(t) /\ \A k \in 1 .. Len(s) : Same(s[k], t[k])
IsIn(w, s) == \E k \in 1 .. Len(s) : Same(w, s[k])

SampleBad(s, t, props) ==
    If(Len(s) = Len(t), props, "number of samples", <<Len(s), Len(t)>>)
    \cup If(Len(s) # Len(t) \/ \A k \in 1 .. Len(s) : s[k].p = t[k].p /\ NClose(s[k].L, t[k].L, "1e-12"), props, "samples that were taken", "")
    \cup LET bad == {k \in 1 .. Len(s) : k <= Len(t) /\ ~ NClose(s[k].lw, t[k].lw, "1e-8")}
         IN  If(bad = {}, props, "weights of the samples", IF bad = {} THEN "" ELSE LET k == CHOOSE i \in bad : TRUE IN <<k, s[k].lw, t[k].lw>>)

\* st with the lowest taken out; the ensemble as the code has it: e.pre
Discard(e) ==
    LET c == st.c
        d == c.disc
        srt == TLCEval(NS!Sorted(st.W))
        t == TLCEval(NS!TakeAll(st.a, st.S, SubSeq(srt, 1, d), c.n))
        low == srt[d].L
        pre == IF e.same THEN st.W ELSE e.pre
        dec == [c.c EXCEPT !.d = d]
    IN  [st |-> [st EXCEPT !.W = pre, !.a = t.a, !.S = NS!Weed(t.S, c.max), !.low = low, !.it = e.it],
         bad |-> If(e.it = st.it + 1, {"C20"}, "number of the iteration", <<st.it, e.it>>)
                 \cup If(NEq(e.low, low), {"C20"}, "the limit on the likelihood is not that of the walkers that are discarded", <<e.low, low>>)
                 \cup If(NS!GoOn(st.it, st.a, dec) \/ ~ NS!Firm(st.it, st.a, dec), {"C20"}, "the run goes on after it should have ended", <<st.it, st.a, c.c>>)
                 \cup If(SameList(SubSeq(pre, d + 1, Len(pre)), SubSeq(srt, d + 1, Len(srt))), {"C20"}, "walkers that remain in the ensemble", <<Len(pre), Len(srt)>>)
                 \cup If(\A k \in 1 .. d : k <= Len(pre) /\ IsIn(pre[k], SubSeq(srt, d + 1, Len(srt))), {"C20"}, "a walker is not replaced by a copy of one that remains", <<e.it>>)]

\* the ensemble of a PhantomSampler: a choice of n of the walkers; the d lowest of them become samples
DiscardPhantom(e) ==
    LET c == st.c  d == c.disc
        out == [k \in 1 .. Len(e.smp) |-> [L |-> e.smp[k].L, p |-> e.smp[k].p]]
        pre == IF e.same THEN st.W ELSE e.pre
        all == out \o pre
        t == TLCEval(NS!TakeAll(st.a, <<>>, out, c.n))
        dec == [c.c EXCEPT !.d = d]
        Count(w, s) == Cardinality({k \in 1 .. Len(s) : Same(s[k], w)})
    IN  [st |-> [st EXCEPT !.W = pre, !.a = t.a, !.S = @ \o t.S, !.low = e.low, !.it = e.it],
         bad |-> If(e.it = st.it + 1, {"C20"}, "number of the iteration", <<st.it, e.it>>)
                 \cup If(Len(out) = d /\ Len(pre) = c.n - d, {"C20"}, "number of walkers that are discarded or remain", <<Len(out), Len(pre), d, c.n>>)
                 \cup If(\A k \in 1 .. Len(all) : Count(all[k], all) <= Count(all[k], st.W), {"C20"}, "walkers or samples that were not in the ensemble", e.it)
                 \cup If(out # <<>> /\ NEq(e.low, out[Len(out)].L) /\ \A k \in 1 .. Len(pre) : NLe(e.low, pre[k].L), {"C20"}, "the limit on the likelihood is not that of the walkers that are discarded", e.low)
                 \cup If(\A k \in 2 .. Len(out) : NLe(out[k - 1].L, out[k].L), {"C20"}, "samples in order of their likelihood", "")
                 \cup If(NS!GoOn(st.it, st.a, dec) \/ ~ NS!Firm(st.it, st.a, dec), {"C20"}, "the run goes on after it should have ended", <<st.it, st.a, c.c>>)
                 \cup SampleBad(e.smp, t.S, {"C20"})]

\* an engine moved walker e.kw, or added walkers to the ensemble
Moved(s, e) ==
    LET c == s.c
        W1 == [k \in 1 .. e.n |->
                  LET j == {i \in 1 .. Len(e.chg) : e.chg[i].k = k}
                  IN  IF j = {} THEN s.W[k] ELSE LET x == e.chg[CHOOSE i \in j : TRUE] IN [L |-> x.L, p |-> x.p]]
        low == IF s.it = 0 THEN e.low ELSE s.low
    IN  IF e.n < Len(s.W) THEN [st |-> s, bad |-> {V({"C21"}, "an engine made the ensemble smaller", e.eng)}]
        ELSE
        [st |-> [s EXCEPT !.W = W1],
         bad |-> If(\A i \in 1 .. Len(e.chg) : IF e.app THEN e.chg[i].k > Len(s.W) ELSE e.chg[i].k = e.kw, {"C21"}, "an engine changed another walker than its own", <<e.eng, e.kw, e.app>>)
                 \cup If(e.app \/ e.n = Len(s.W), {"C21"}, "an engine changed the size of the ensemble", <<e.eng, e.n>>)
                 \cup If(\A i \in 1 .. Len(e.chg) : NLe(low, e.chg[i].L), {"C21"}, "an engine moved a walker below the limit on the likelihood", <<e.eng, low, e.chg>>)
                 \cup If(e.ret >= 0 /\ (e.ret = 0 => e.chg = <<>>), {"C21"}, "number of moves that an engine reports", <<e.eng, e.ret, Len(e.chg)>>)
                 \cup If(e.ret > 0 /\ e.eng # "Script" => e.chg # <<>>, {"C21"}, "an engine reports moves, and nothing has moved", <<e.eng, e.ret>>)
                 \cup If(\A i \in 1 .. Len(e.fi) : FiOf(c, e.fi[i]) = Fitted(c), {"C23"}, "list of parameters to be fitted, of a walker that moved", <<e.eng, e.fi>>)
                 \cup UNION {WalkerBad(c, e.chg[i], {"C21"}) : i \in 1 .. Len(e.chg)}]

ExecBad(e) ==
    IF e.it > st.it
    THEN LET r == TLCEval(IF st.c.step > 0 THEN DiscardPhantom(e) ELSE Discard(e))
             m == TLCEval(Moved(r.st, e))
         IN  [st |-> m.st, bad |-> r.bad \cup m.bad]
    ELSE LET m == TLCEval(Moved(st, e))
         IN  [st |-> m.st, bad |-> m.bad \cup If(e.same, {"C20"}, "the ensemble changed between two moves", e.it)
                                     \cup If(e.it = st.it, {"C20"}, "number of the iteration", <<st.it, e.it>>)
                                     \cup If(e.it = 0 \/ NEq(e.low, st.low), {"C20"}, "limit on the likelihood within an iteration", <<e.low, st.low>>)]

-----------------------------------------------------------------------------
Weighted(S, i) == NSum([k \in 1 .. Len(S) |-> NMul(NExp(S[k].lw), S[k].p[i])])
Spread(S, i) == LET m == Weighted(S, i) IN NSqrt(NMax("0", NSum([k \in 1 .. Len(S) |-> NMul(NExp(S[k].lw), NSq(NSub(S[k].p[i], m)))])))

EndBad(e) ==
    LET c == st.c  d == c.disc
        srt == IF c.step > 0 THEN NS!Sorted(e.pre) ELSE NS!Sorted(st.W)
        \* walkers of a PhantomSampler: those that the samples say were chosen
        fin == IF c.step = 0 THEN srt ELSE LET m == Len(e.smp) - Len(st.S) IN [k \in 1 .. m |-> LET x == e.smp[Len(st.S) + k] IN [L |-> x.L, p |-> x.p]]
        t == TLCEval(NS!TakeAll(st.a, st.S, fin, c.n))
        S == TLCEval(NS!Normal(NS!Weed(t.S, c.max)))
        a == t.a
        dec == [c.c EXCEPT !.d = d]
        ln10 == NLn("10")
        prec == NSqrt(NDiv(NMax("0", a.h), NOfInt(c.n)))
        circ(i) == Prior(c, i).circ
        scale(i) == NAdd(NAbs(Weighted(S, i)), Spread(S, i))
        Avg(i, v, s, clause) ==
            If(Rel(v, Weighted(S, i), scale(i), "1e-7"), {"C20"}, clause, <<i, v, Weighted(S, i)>>)
            \cup If(Rel(s, Spread(S, i), scale(i), "1e-6"), {"C20"}, clause \o ", standard deviations", <<i, s, Spread(S, i)>>)
        anycirc == \E i \in 1 .. c.nm : circ(i)
    IN  If(e.it = st.it /\ (~ NS!GoOn(st.it, st.a, dec) \/ ~ NS!Firm(st.it, st.a, dec)), {"C20"}, "the run ends before it should", <<st.it, e.it, st.a, c.c>>)
        \cup If(c.step = 0 \/ Len(fin) = c.n, {"C20"}, "number of walkers at the end", <<Len(fin), c.n>>)
        \cup If(\A k \in 2 .. Len(e.smp) : NLe(e.smp[k - 1].L, e.smp[k].L), {"C20"}, "samples in order of their likelihood", "")
        \cup If(c.max = 0 \/ Len(e.smp) <= c.max, {"C20"}, "more samples than the maximum", <<Len(e.smp), c.max>>)
        \cup If(\A k \in 2 .. Len(e.smp) : e.smp[k - 1].id < e.smp[k].id, {"C20"}, "samples have numbers of their own", "")
        \cup SampleBad(e.smp, S, {"C20"})
        \cup If(e.norm, {"C20"}, "the weights are normalised", "")
        \cup If(NClose(e.z, a.z, "1e-8"), {"C20"}, "logZ", <<e.z, a.z>>)
        \cup If(NClose(e.info, a.h, "1e-7") /\ e.inf2 = e.info, {"C20"}, "information", <<e.info, a.h>>)
        \cup If(NClose(e.ev, NDiv(a.z, ln10), "1e-8") /\ NClose(e.ret, e.ev, "1e-12"), {"C20"}, "evidence", <<e.ev, e.ret, NDiv(a.z, ln10)>>)
        \cup If(NClose(e.zp, prec, "1e-6") /\ NClose(e.prec, NDiv(prec, ln10), "1e-6"), {"C20"}, "precision of the evidence", <<e.zp, e.prec, prec>>)
        \cup If(NClose(e.sz, a.z, "1e-8") /\ NClose(e.sinfo, a.h, "1e-7") /\ NClose(e.sev, NDiv(a.z, ln10), "1e-8"), {"C20"}, "evidence in the list of samples", <<e.sz, e.sinfo, e.sev, a.z>>)
        \cup If(Len(e.par) = c.nm /\ Len(e.std) = c.nm /\ Len(e.npar) = c.nm /\ Len(e.nstd) = c.nm, {"C20"}, "number of parameters", <<Len(e.par), c.nm>>)
        \cup (IF anycirc \/ Len(e.par) # c.nm THEN {} ELSE UNION {Avg(i, e.par[i], e.std[i], "parameters of the model after a run") \cup Avg(i, e.npar[i], e.nstd[i], "parameters of the sampler") : i \in 1 .. c.nm})
        \cup UNION {Avg(NP(c) + j, e.hyp[j], e.shyp[j], "hyperparameters of the sampler") : j \in 1 .. c.nh}

-----------------------------------------------------------------------------
Step(e) ==
    CASE e.op = "reset" -> [st |-> Fresh, bad |-> {}]
      [] e.op = "start" -> [st |-> [c |-> e, W |-> e.W, a |-> NS!Open(e.n), S |-> <<>>, low |-> "-inf", it |-> 0], bad |-> StartBad(e)]
      [] e.op = "crash" -> [st |-> st, bad |-> {V({"C20", "C21", "C23"}, "exception", e.exc)}]
      [] e.op = "exec" -> ExecBad(e)
      [] e.op = "end" -> [st |-> st, bad |-> EndBad(e)]

TInit == l = 0 /\ st = Fresh
TNext ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET r == Step(Trace[l + 1])
       IN  /\ st' = r.st
           /\ \A b \in r.bad : PrintT("V|" \o ToJson([ln |-> l + 1, prop |-> b.prop, clause |-> b.clause, info |-> b.info]))
=============================================================================
