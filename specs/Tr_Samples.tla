----------------------------- MODULE Tr_Samples -----------------------------
(* Trace validation of SampleList (Samples) and of WalkerList and           *)
(* PhantomCollection (Phantoms).                                            *)
EXTENDS Samples, Json, IOUtils

PH == INSTANCE Phantoms
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st     \* st = [l, dyn, circ, w, c]: samples, kind of model, circles; list of walkers, collection

V(props, clause, info) == [prop |-> props, clause |-> clause, info |-> info]
If(ok, props, clause, info) == IF ok THEN {} ELSE {V(props, clause, ToString(info))}
Fresh == [l |-> Empty, dyn |-> FALSE, circ |-> <<>>, w |-> [s |-> <<>>, n |-> 0], c |-> PH!NewColl(FALSE)]
C22 == {"C22"}
C25 == {"C25"}

-----------------------------------------------------------------------------
SameSample(a, b) ==
    /\ a.id = b.id /\ a.parent = b.parent /\ a.start = b.start
    /\ a.p = b.p /\ a.h = b.h /\ a.u = b.u
    /\ NEq(a.L, b.L) /\ NClose(a.lw, b.lw, "1e-9")
Ints(S, F(_)) == [k \in 1 .. Len(S) |-> F(S[k])]

\* the list and its evolutions: always
LookBad(s, e) ==
    LET S == s.l.s
    IN  IF Len(e.s) # Len(S) THEN {V(C22, "number of samples", ToString(<<Len(e.s), Len(S)>>))}
        ELSE IF S = <<>> THEN {}
        ELSE If(\A k \in 1 .. Len(S) : SameSample(e.s[k], S[k]), C22, "samples in the list", LET k == CHOOSE j \in 1 .. Len(S) : ~ SameSample(e.s[j], S[j]) IN <<k, e.s[k], S[k]>>)
        \cup If(e.norm = s.l.norm, C22, "whether the weights are normalised", <<e.norm, s.l.norm>>)
        \cup If(e.gen = Ints(S, LAMBDA x : x.id), C22, "evolution of the numbers", <<e.gen>>)
        \cup If(e.parent = Ints(S, LAMBDA x : x.parent), C22, "evolution of the parents", <<e.parent>>)
        \cup If(e.start = Ints(S, LAMBDA x : x.start), C22, "evolution of the starts", <<e.start>>)
        \cup If(e.np = Ints(S, LAMBDA x : Len(x.p)), C22, "evolution of the number of parameters", <<e.np>>)
        \cup If(e.maxnp = MaxLen(S), C22, "largest number of parameters", <<e.maxnp, MaxLen(S)>>)
        \cup If(SeqClose(e.L, [k \in 1 .. Len(S) |-> S[k].L], "1e-12"), C22, "evolution of the likelihood", <<e.L>>)
        \cup If(SeqClose(e.lw, Lw(S), "1e-9"), C22, "evolution of the log weights", <<e.lw, Lw(S)>>)
        \cup If(SeqClose(e.w, W(S), "1e-9"), C22, "evolution of the weights", <<e.w>>)
        \cup If(e.pe = Padded(S), C22, "evolution of the parameters", <<e.pe, Padded(S)>>)
        \cup If(e.kpe = Column(S, e.kp), C22, "evolution of a parameter", <<e.kp, e.kpe>>)
        \cup If(e.pw.p = Padded(S) /\ SeqClose(e.pw.w, W(S), "1e-9"), C22, "evolution of parameters and weights", <<e.pw>>)
        \cup If(S[1].h = <<>> \/ e.he = [k \in 1 .. Len(S) |-> S[k].h], C22, "evolution of the hyperparameters", <<e.he>>)
        \cup If(NEq(e.low[1], Lowest(S)[1]) /\ NToInt(e.low[2]) = Lowest(S)[2], C22, "lowest likelihood", <<e.low, Lowest(S)>>)
        \cup If(e.mlp = S[Len(S)].p /\ (S[1].h = <<>> \/ e.mls = S[Len(S)].h[1]), C22, "parameters of the largest likelihood", <<e.mlp, e.mls>>)

Rel(a, b, size, tol) == IF NIsNum(a) /\ NIsNum(b) THEN NLe(NAbs(NSub(a, b)), NMul(tol, NAdd("1", size))) ELSE a = b /\ ~ NIsNan(a)
\* differences of squares of these sizes cost digits
DevOk(s, v, w, d) == LET z == Top([k \in 1 .. Len(v) |-> NAbs(v[k])]) IN NLe(NAbs(NSub(NSq(s), NSq(d))), NMul("1e-11", NAdd("1", NSq(z))))
Avg(w, v, m, s, clause) ==
    If(NIsNum(m) /\ NIsNum(s) /\ Rel(m, Mean(w, v), Top([k \in 1 .. Len(v) |-> NAbs(v[k])]), "1e-10"), C22, clause, <<m, Mean(w, v)>>)
    \cup If(NIsNum(s) /\ DevOk(s, v, w, Dev(w, v)), C22, clause \o ": deviation", <<s, Dev(w, v)>>)
CircAvg(w, v, lo, hi, m, s, clause) ==
    LET t == CircSums(w, v, lo, hi)  cm == CircMean(w, v, lo, hi)
        apart == NAbs(Wrap(NSub(m, cm), NNeg(NDiv(NSub(hi, lo), "2")), NDiv(NSub(hi, lo), "2")))
        firm == NLt("1e-4", NAdd(NSq(t.s), NSq(t.c)))
        \* a sample opposite to the average may count on either side
        half == NDiv(NSub(hi, lo), "2")
    IN  IF ~ firm THEN {}
        ELSE If(NLe(apart, NMul("1e-8", NSub(hi, lo))) /\ NLe(lo, m) /\ NLe(m, hi), C22, clause, <<m, cm, lo, hi>>)
             \cup If(NLe(NAbs(NSub(s, CircDev(w, v, lo, hi))), NMul("1e-6", NSub(hi, lo)))
                     \/ \E k \in 1 .. Len(v) : NLt(NAbs(NSub(NAbs(Wrap(NSub(v[k], cm), NNeg(half), half)), half)), NMul("1e-6", half)), C22, clause \o ": deviation", <<s, CircDev(w, v, lo, hi)>>)

ErrOk(s, v, w) == NIsNum(s) /\ DevOk(s, v, w, Dev(w, v))
\* averages: if the weights add up to 1
StatBad(s, e) ==
    LET S == s.l.s
        w == TLCEval(W(S))
        same == \A k \in 2 .. Len(S) : Len(S[k].p) = Len(S[1].p)
        circ(i) == i <= Len(s.circ) /\ s.circ[i] # <<>>
    IN  (IF s.dyn \/ ~ same THEN {}
         ELSE If(Len(e.par) = Len(S[1].p) /\ Len(e.std) = Len(S[1].p) /\ e.std = e.std2, C22, "number of averages and deviations", <<e.par, e.std, e.std2>>)
              \cup UNION {IF i > Len(e.par) \/ i > Len(e.std) THEN {}
                          ELSE IF circ(i) THEN CircAvg(w, Column(S, i), s.circ[i][1], s.circ[i][2], e.par[i], e.std[i], "average of a circular parameter")
                          ELSE Avg(w, Column(S, i), e.par[i], e.std[i], "average of a parameter") : i \in 1 .. Len(S[1].p)})
        \cup UNION {Avg(w, [k \in 1 .. Len(S) |-> S[k].h[i]], e.hyp[i], e.shyp[i], "average of a hyperparameter") : i \in 1 .. Len(S[1].h)}
        \cup If(S[1].h = <<>> \/ (NClose(e.scale, e.hyp[1], "1e-12") /\ NClose(e.sscale, e.shyp[1], "1e-12")), C22, "scale and its deviation", <<e.scale, e.sscale, e.hyp, e.shyp>>)
        \cup UNION {Avg(w, [k \in 1 .. Len(S) |-> S[k].u[i]], e.nui[i], e.snui[i], "average of a nuisance parameter") : i \in 1 .. Len(S[1].u)}
        \cup UNION {Avg(w, Results(S, e.x[j]), e.avg[j], e.avg2[j], "average of the results") : j \in 1 .. Len(e.x)}
        \cup UNION {If(ErrOk(e.err[j], Results(S, e.y[j]), w), C22, "monte carlo error of the results", <<e.err[j], Dev(w, Results(S, e.y[j]))>>) : j \in 1 .. Len(e.y)}

MedBad(s, e) ==
    LET S == s.l.s  k == IF s.l.med >= 0 THEN s.l.med ELSE Median(S)
    IN  If(e.med = k \/ (s.l.med < 0 /\ ~ MedianFirm(S)), C22, "median", <<e.med, k>>)
        \cup If(e.med < 0 \/ e.med >= Len(S) \/ (e.medp = S[e.med + 1].p /\ (S[1].h = <<>> \/ e.meds = S[e.med + 1].h[1])), C22, "parameters of the median", <<e.medp, e.meds>>)
        \cup If(s.l.med >= 0 \/ e.mod \in Heaviest(S), C22, "modus", <<e.mod, Heaviest(S)>>)
        \cup If(e.mod < 0 \/ e.mod >= Len(S) \/ (e.modp = S[e.mod + 1].p /\ (S[1].h = <<>> \/ e.mods = S[e.mod + 1].h[1])), C22, "parameters of the modus", <<e.modp, e.mods>>)

-----------------------------------------------------------------------------
SameWalker(a, b) == a.id = b.id /\ a.parent = b.parent /\ a.start = b.start /\ a.p = b.p /\ NEq(a.L, b.L)
ListBad(w, e) ==
    IF Len(e.s) # Len(w.s) THEN {V(C25, "number of walkers", ToString(<<Len(e.s), Len(w.s)>>))}
    ELSE If(\A k \in 1 .. Len(w.s) : SameWalker(e.s[k], w.s[k]), C25, "walkers in the list", <<e.s, w.s>>)
         \cup If(w.s = <<>> \/ (e.ap = PH!Padded(w.s) /\ e.pe = [k \in 1 .. Len(w.s) |-> w.s[k].p]), C25, "parameters of all walkers", <<e.ap, e.pe>>)
         \cup If(w.s = <<>> \/ (SeqEq(e.L, [k \in 1 .. Len(w.s) |-> w.s[k].L]) /\ NEq(e.low[1], PH!LowestL(w.s)[1]) /\ NToInt(e.low[2]) = PH!LowestL(w.s)[2]), C25, "likelihoods of the walkers", <<e.L, e.low>>)
         \cup UNION {If(IF w.s = <<>> THEN e.first[j].k = -1 ELSE e.first[j].k = PH!First(w.s, e.first[j].low), C25, "first walker above a limit", <<e.first[j], w.s>>) : j \in 1 .. Len(e.first)}

SameP(a, b) == a.p = b.p /\ NEq(a.L, b.L)
CollBad(c, e) ==
    LET keys == DOMAIN c.c
    IN  If(e.n = c.n, C25, "number of calls", <<e.n, c.n>>)
        \cup If(\A k \in keys : Len(c.c[k].s) > 0 => \E j \in 1 .. Len(e.l) : e.l[j].k = k, C25, "lists of phantoms", <<keys>>)
        \cup UNION {LET x == e.l[j]  v == PH!At(c, x.k).s
                    IN  If(Len(x.s) = Len(v) /\ x.len = Len(v) /\ \A i \in 1 .. Len(v) : SameP(x.s[i], v[i]), C25, "phantoms", <<x.k, Len(x.s), Len(v), x.len>>) : j \in 1 .. Len(e.l)}
        \cup If(e.total = PH!Count(c), C25, "number of phantoms", <<e.total, PH!Count(c)>>)

ToSampleBad(e) ==
    LET q == PH!Parts(e.p, e.np, e.nn)  x == e.s
    IN  If(x.id = e.id /\ x.parent = e.parent /\ x.start = e.start, C25, "history of a sample from a walker", <<x, e>>)
        \cup If(x.p = q.p /\ x.u = q.u /\ x.h = q.h, C25, "parameters of a sample from a walker", <<x, q>>)
        \cup If(NEq(x.L, e.L) /\ NEq(x.lw, e.lw), C25, "likelihood and weight of a sample from a walker", <<x, e>>)
        \cup If(e.wp = q.p /\ e.wh = q.h, C25, "parameters of a walker", <<e.wp, e.wh, q>>)
        \cup If(x.all = e.p, C25, "all parameters of a sample", <<x.all, e.p>>)
        \cup If(e.c = e.s, C25, "copy of a sample", <<e.c, e.s>>)

Step(e) ==
    CASE e.op = "new" -> LET n == [st EXCEPT !.l = New(e.n, e.q), !.dyn = e.dyn, !.circ = e.circ] IN [st |-> n, bad |-> LookBad(n, e.look)]
      [] e.op = "more" -> LET n == [st EXCEPT !.l = [More([@ EXCEPT !.it = e.it], e.n, e.q) EXCEPT !.norm = e.look.norm]] IN [st |-> n, bad |-> LookBad(n, e.look)]
      [] e.op = "add" -> LET n == [st EXCEPT !.l = Add(@, e.x)] IN [st |-> n, bad |-> LookBad(n, e.look)]
      [] e.op = "weed" -> LET n == [st EXCEPT !.l = Weed(@, e.max)] IN [st |-> n, bad |-> LookBad(n, e.look)]
      [] e.op = "weednone" -> [st |-> st, bad |-> LookBad(st, e.look)]
      [] e.op = "norm" -> LET n == [st EXCEPT !.l = Normalize(@)] IN [st |-> n, bad |-> LookBad(n, e.look)]
      [] e.op = "copy" -> LET n == [st EXCEPT !.l = Copy(@, e.a, e.b)] IN [st |-> n, bad |-> LookBad(n, e.look)]
      [] e.op = "weight" -> LET n == [st EXCEPT !.l = [@ EXCEPT !.s[e.k].lw = e.lw, !.norm = FALSE]] IN [st |-> n, bad |-> LookBad(n, e.look)]
      [] e.op = "put" -> LET n == [st EXCEPT !.l = Put(@, e.k, e.x)] IN [st |-> n, bad |-> LookBad(n, e.look)]
      [] e.op = "stat" -> [st |-> st, bad |-> StatBad(st, e)]
      [] e.op = "med" -> [st |-> [st EXCEPT !.l.med = e.med], bad |-> MedBad(st, e)]
      [] e.op = "insert" -> LET n == [st EXCEPT !.w = [s |-> PH!Insert(@.s, IF @.s = <<>> THEN [e.x EXCEPT !.id = st.w.n] ELSE e.x), n |-> @.n + 1]] IN [st |-> n, bad |-> ListBad(n.w, e.look)]
      [] e.op = "crop" -> LET n == [st EXCEPT !.w.s = PH!Crop(@, e.low)] IN [st |-> n, bad |-> ListBad(n.w, e.look)]
      [] e.op = "wput" -> LET n == [st EXCEPT !.w = PH!Put(@, e.k, e.x)] IN [st |-> n, bad |-> ListBad(n.w, e.look)]
      [] e.op = "addn" -> LET n == [st EXCEPT !.w = PH!AddN(@, e.n, e.x)] IN [st |-> n, bad |-> ListBad(n.w, e.look)]
      [] e.op = "wcopy" -> LET n == [st EXCEPT !.w = PH!Copy(@, e.a, e.b, e.start, IF e.from = <<>> THEN st.w.s ELSE e.from)] IN [st |-> n, bad |-> ListBad(n.w, e.look)]
      [] e.op = "tosample" -> [st |-> st, bad |-> ToSampleBad(e)]
      [] e.op = "coll" -> [st |-> [st EXCEPT !.c = PH!NewColl(e.dyn)], bad |-> {}]
      [] e.op = "store" -> LET n == [st EXCEPT !.c = PH!Store(@, Len(e.x.p), e.x)] IN [st |-> n, bad |-> CollBad(n.c, e.look)]
      [] e.op = "ask" -> LET n == [st EXCEPT !.c = PH!Ask(@, e.np, e.low)]
                             r == PH!At(n.c, PH!KeyOf(n.c, e.np)).rng
                         IN  [st |-> n, bad |-> CollBad(n.c, e.look) \cup If(e.has = r.has /\ (r.has => SeqEq(e.min, r.min) /\ SeqEq(e.max, r.max)), C25, "range of the parameters", <<e.np, e.low, e.has, e.min, e.max, r>>)]
      [] e.op = "reset" -> [st |-> Fresh, bad |-> {}]
      [] e.op = "crash" -> [st |-> st, bad |-> {V({"C22", "C25"}, "the code stopped with an error", e.exc)}]

TInit == l = 0 /\ st = Fresh
TNext ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET r == Step(Trace[l + 1])
       IN  /\ st' = r.st
           /\ \A b \in r.bad : PrintT("V|" \o ToJson([ln |-> l + 1, prop |-> b.prop, clause |-> b.clause, info |-> b.info]))
=============================================================================
