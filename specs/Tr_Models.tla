----------------------------- MODULE Tr_Models ------------------------------
(* Trace validation of the model algebra: every recorded call has to be    *)
(* explained by Models.tla.                                                *)
EXTENDS Models, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, heap
tvars == <<l, heap>>

TolR == "1e-7"
TolP == "2e-5"
TolN == "1e-3"      \* of numeric differentiation
Big == "1e5"

\* ----- verdicts of one event: a set of [prop, clause, info]
V(props, clause, info) == [prop |-> props, clause |-> clause, info |-> info]

Handles == DOMAIN heap

\* the expected gradient is fit for comparison
Tame(d) == NIsNum(d.v) /\ NLt(NAbs(d.v), Big) /\ \A i \in 1 .. Len(d.g) : NIsNum(d.g[i]) /\ NLt(NAbs(d.g[i]), Big)

CheckEval(e, m) ==
    LET ch == m.ch
        p == IF e.own THEN m.p ELSE e.p
        np == CPar(ch)
        fx == IF HasFixed(ch) THEN {"C04"} ELSE {}
        what == CASE e.op = "result" -> {"C01"} \cup fx
                  [] e.op \in {"partial", "numpartial"} -> {"C02"} \cup fx
                  [] OTHER -> {"C02"} \cup fx
        base == IF Len(ch) = 1 /\ ch[1].t.k = "base" THEN {"C06"} ELSE {}
        props == IF e.op = "result" THEN what \cup base ELSE what
        tol == IF e.op \in {"numpartial", "numderiv"} \/ CNumeric(ch) THEN TolN ELSE TolP
        Bad(i) ==
            LET d == Eval(ch, p, e.x[i])
                no == Len(d)
                Ok(q) ==
                    CASE e.op = "result" -> NClose(d[q].v, e.v[i][q], TolR)
                      [] e.op \in {"partial", "numpartial"} ->
                            /\ Len(e.v[i][q]) = np
                            /\ \A k \in 1 .. np : NClose(d[q].g[k], e.v[i][q][k], tol)
                      [] OTHER ->
                            /\ Len(e.v[i][q]) = Len(e.x[i])
                            /\ \A k \in 1 .. Len(e.x[i]) : NClose(d[q].g[np + k], e.v[i][q][k], tol)
            IN  IF \E q \in 1 .. no : ~Tame(d[q]) THEN {}
                ELSE IF Len(e.v[i]) # no THEN {<<"outputs", Len(e.v[i]), no>>}
                ELSE {<<i, q, [v |-> d[q].v, g |-> d[q].g], e.v[i][q]>> : q \in {q \in 1 .. no : ~Ok(q)}}
        all == UNION {Bad(i) : i \in 1 .. Len(e.x)}
    IN  IF e.exc # "" THEN {V(props, e.op \o " raises", e.exc)}
        ELSE IF Len(e.v) # Len(e.x) THEN {V(props, e.op \o " has the wrong length", Len(e.v))}
        ELSE IF all = {} THEN {}
        ELSE {V(props, e.op \o " differs from the model's formula", ToString(CHOOSE b \in all : TRUE))}

\* ----- views of all live models after an action
ViewOk(w, m, touched) ==
    LET own == w.h \in touched
        props == (IF own THEN {"C01"} ELSE {"C03"}) \cup (IF HasFixed(m.ch) THEN {"C04"} ELSE {})
        pr == Priors(m.ch)
    IN  (IF w.exc # "" THEN {V(props, "a live model can not be read", w.exc)}
         ELSE
         (IF SeqEq(w.p, m.p) THEN {}
          ELSE {V(props \cup {"C03"}, "parameters of a model are not the ones of its parts", ToString(<<w.h, w.p, m.p>>))})
         \cup (IF CASE m.sd.k = "none" -> ~ w.hassd
                     [] m.sd.k = "known" -> w.hassd /\ SeqEq(w.sd, m.sd.s)
                     [] OTHER -> TRUE THEN {}
               ELSE {V({"C03"}, "standard deviations of a model", ToString(<<w.h, w.sd, m.sd>>))})
         \cup (IF w.np = CPar(m.ch) /\ w.len = Len(m.ch) THEN {}
               ELSE {V(props, "number of parameters or links of a model", ToString(<<w.h, w.np, w.len>>))})
         \cup (IF \A k \in 1 .. Len(pr) : w.pri[k].kd = pr[k].kd
                    /\ NEq(w.pri[k].lo, pr[k].lo) /\ NEq(w.pri[k].hi, pr[k].hi) THEN {}
               ELSE {V(IF own THEN {"C05"} ELSE {"C03", "C05"}, "priors of a model", ToString(<<w.h, w.pri, pr>>))})
         \cup (IF (\A k \in 1 .. Len(pr) : IsBound(pr[k])) = w.hasp THEN {}
               ELSE {V({"C05"}, "hasPriors", ToString(<<w.h, w.hasp>>))})
         \cup (IF (\A k \in 1 .. Len(pr) : HasLimit(pr[k])) = w.hasl THEN {}
               ELSE {V({"C05"}, "hasLimits", ToString(<<w.h, w.hasl>>))})
         \cup (IF \A q \in Range(w.haslk) : (\A k \in Range(q.k) : HasLimit(pr[k + 1])) = q.v THEN {}
               ELSE {V({"C05"}, "hasLimits of some of the parameters", ToString(<<w.h, w.haslk>>))}))

CheckViews(ws, hp, touched) ==
    UNION {IF w.h \in DOMAIN hp /\ hp[w.h].ch # <<>> THEN ViewOk(w, hp[w.h], touched) ELSE {} : w \in Range(ws)}
    \cup (IF {w.h : w \in Range(ws)} = {h \in DOMAIN hp : hp[h].ch # <<>>} THEN {}
          ELSE {V({"C03"}, "set of live models", "")})

Put(h, m) == [x \in DOMAIN heap \cup {h} |-> IF x = h THEN m ELSE heap[x]]
Put2(h, m, g, n) == [x \in DOMAIN heap \cup {h, g} |-> IF x = h THEN m ELSE IF x = g THEN n ELSE heap[x]]

\* what an action has to raise
MustRaise(e) ==
    CASE e.op \in {"bin", "iop"} -> IF Compatible(heap[e.a].ch, heap[e.b].ch, e.o) THEN "" ELSE "ValueError"
      [] e.op = "pri" -> IF CanSet(heap[e.a].ch, e.k) THEN "" ELSE "IndexError"
      [] e.op = "iso" -> IF e.k < Len(heap[e.a].ch) THEN "" ELSE "IndexError"
      [] e.op \in {"setp", "setsd"} -> IF Len(e.p) = CPar(heap[e.a].ch) THEN "" ELSE "ValueError"
      [] OTHER -> ""

\* the heap after an action that succeeds
After(e) ==
    CASE e.op = "new" -> Put(e.h, [ch |-> <<Link("0", e.t)>>, p |-> e.p, sd |-> NoSd])
      [] e.op = "setp" -> Put(e.a, [heap[e.a] EXCEPT !.p = e.p])
      [] e.op = "setk" -> Put(e.a, [heap[e.a] EXCEPT !.p[e.k + 1] = e.v])
      [] e.op = "setsd" -> Put(e.a, [heap[e.a] EXCEPT !.sd = Sd(e.p)])
      [] e.op = "setsdk" -> Put(e.a, IF heap[e.a].sd.k = "known" THEN [heap[e.a] EXCEPT !.sd.s[e.k + 1] = e.v] ELSE heap[e.a])
      [] e.op = "copy" -> Put(e.h, heap[e.a])
      [] e.op = "bin" -> Put(e.h, Combined(heap[e.a], heap[e.b], e.o))
      [] e.op = "iop" -> Put2(e.a, Combined(heap[e.a], heap[e.b], e.o), e.b, Gone)
      [] e.op = "brk" -> Put2(e.h, [ch |-> <<Link("0", [k |-> "br", ch |-> heap[e.a].ch])>>, p |-> heap[e.a].p,
                                     sd |-> Stale(heap[e.a].sd)],
                              e.a, Gone)
      [] e.op = "iso" -> Put(e.h, Isolated(heap[e.a], e.k))
      [] e.op = "lim" -> Put(e.a, [heap[e.a] EXCEPT !.ch = SetLims(@, e.lo, e.hi, 0)])
      [] e.op = "pri" -> Put(e.a, [heap[e.a] EXCEPT !.ch = SetPrior(@, e.k, e.kd, e.lo, e.hi)])
      [] OTHER -> heap

PropOf(e) == CASE e.op \in {"lim", "pri"} -> {"C05"}
               [] e.op \in {"copy", "iso"} -> {"C03"}
               [] e.op = "new" -> {"C01", "C06"}
               [] OTHER -> {"C01"}
FixedIn(e) == IF "a" \in DOMAIN e /\ e.a \in DOMAIN heap /\ heap[e.a].ch # <<>> /\ HasFixed(heap[e.a].ch) THEN {"C04"}
              ELSE IF e.op = "new" /\ Fixes(e.t) THEN {"C04"} ELSE {}

CheckUnit(e) ==
    LET own == Len(e.kv) = Len(e.u) /\ Len(e.kw) = Len(e.u)
        pr == Priors(heap[e.a].ch)
        \* the value at unit u of a bounded uniform prior
        Val(k) == NAdd(pr[k].lo, NMul(e.u[k], NSub(pr[k].hi, pr[k].lo)))
    IN  IF e.exc # "" THEN {V({"C05"}, "unit2Domain raises", e.exc)}
        ELSE IF Len(e.v) # Len(e.u) \/ Len(e.w) # Len(e.u) \/ ~ own THEN {V({"C05"}, "unit2Domain length", "")}
        ELSE IF \A k \in 1 .. Len(e.u) :
                    pr[k].kd = "Uniform" /\ IsBound(pr[k]) => NClose(e.v[k], Val(k), "1e-9") /\ NClose(e.w[k], e.u[k], "1e-9")
                                                           /\ NClose(e.kv[k], Val(k), "1e-9") /\ NClose(e.kw[k], e.u[k], "1e-9")
             THEN {} ELSE {V({"C05"}, "unit2Domain does not follow the priors of the parameters", ToString(<<e.v, e.w, e.kv, e.kw, pr>>))}

Step(e) ==
    CASE e.op = "reset" -> [heap |-> <<>>, bad |-> {}]
      [] e.op = "crash" -> [heap |-> heap, bad |-> {V({"C01", "C02", "C03", "C04", "C05", "C06"}, "driver stopped", e.exc)}]
      [] e.op \in {"result", "partial", "deriv", "numpartial", "numderiv"} ->
            [heap |-> heap, bad |-> CheckEval(e, heap[e.a])]
      [] e.op = "unit" -> [heap |-> heap, bad |-> CheckUnit(e)]
      [] OTHER ->
            LET must == MustRaise(e)
                ok == e.exc = must
                hp == IF must = "" THEN After(e) ELSE heap
                touched == {h \in DOMAIN hp : h \notin DOMAIN heap \/ hp[h] # heap[h]}
            IN  IF ok THEN [heap |-> hp, bad |-> CheckViews(e.views, hp, touched)]
                ELSE [heap |-> hp, bad |-> {V(PropOf(e) \cup FixedIn(e),
                            e.op \o (IF must = "" THEN " raises" ELSE " does not raise " \o must), e.exc)}]

TInit == l = 0 /\ heap = <<>>
TNext ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET r == Step(Trace[l + 1])
       IN  /\ heap' = r.heap
           /\ \A b \in r.bad : PrintT("V|" \o ToJson([ln |-> l + 1, prop |-> b.prop, clause |-> b.clause, info |-> b.info]))
=============================================================================
