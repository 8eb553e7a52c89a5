------------------------------ MODULE MC_Models -----------------------------
(* All histories of building, copying, splitting and changing models, up to *)
(* Depth steps after a fixed start (three simple models, two of them joined *)
(* to a chain), with the laws of the algebra as invariants.  Every complete *)
(* history is printed, to be replayed on the implementation.               *)
EXTENDS Models, TLC, Json

CONSTANT Depth

VARIABLES heap, hist, last
vars == <<heap, hist, last>>

Base(z, c, fx) == [k |-> "base", z |-> z, c |-> c, fx |-> fx]
T1 == Base("Polynomial", [deg |-> 1], <<>>)
T2 == Base("Exp", [deg |-> 0, decay |-> TRUE], <<>>)
T3 == Base("Gauss", [deg |-> 0], <<[i |-> 1, c |-> "0.25", m |-> <<>>]>>)

\* the value of the n-th parameter that is ever given
Val(n) == NAdd("0.35", NMul("0.21", NOfInt(n % 7)))
Pars(h, n) == [i \in 1 .. n |-> Val(h + 2 * i)]

Model(h, t) == [ch |-> <<Link("0", t)>>, p |-> Pars(h, TPar(t)), sd |-> NoSd]
Start == <<Model(1, T1), Combined(Model(2, T2), Model(3, T3), "*"), Gone>>
StartHist == <<[op |-> "new", t |-> T1], [op |-> "new", t |-> T2], [op |-> "new", t |-> T3],
               [op |-> "iop", a |-> 2, b |-> 3, o |-> "*"]>>

Live == {h \in DOMAIN heap : heap[h] # Gone}
Ops == {"+", "-", "*", "/", "|"}
Step(hp, e) == heap' = hp /\ hist' = Append(hist, e) /\ last' = heap

Copy(a) == Step(Append(heap, heap[a]), [op |-> "copy", a |-> a])
Bin(a, b, o) == Step(Append(heap, Combined(heap[a], heap[b], o)), [op |-> "bin", a |-> a, b |-> b, o |-> o])
Iop(a, b, o) == a # b /\ Step([heap EXCEPT ![a] = Combined(heap[a], heap[b], o), ![b] = Gone],
                              [op |-> "iop", a |-> a, b |-> b, o |-> o])
Brk(a) == Step(Append([heap EXCEPT ![a] = Gone], [heap[a] EXCEPT !.ch = <<Link("0", [k |-> "br", ch |-> heap[a].ch])>>, !.sd = Stale(heap[a].sd)]),
               [op |-> "brk", a |-> a])
Iso(a, k) == Step(Append(heap, Isolated(heap[a], k)), [op |-> "iso", a |-> a, k |-> k])
SetK(a) == Step([heap EXCEPT ![a].p[1] = Val(Len(hist))], [op |-> "setk", a |-> a])

SetSd(a) == Step([heap EXCEPT ![a].sd = Sd([i \in 1 .. Len(heap[a].p) |-> Val(Len(hist) + i)])], [op |-> "setsd", a |-> a])

Init == heap = Start /\ hist = StartHist /\ last = <<>>
Next ==
    /\ Len(hist) < Depth + Len(StartHist)
    /\ \E a \in Live :
          \/ Copy(a) \/ Brk(a) \/ SetK(a) \/ SetSd(a)
          \/ \E k \in 0 .. Len(heap[a].ch) - 1 : Iso(a, k)
          \/ \E b \in Live, o \in Ops : Compatible(heap[a].ch, heap[b].ch, o) /\ (Bin(a, b, o) \/ Iop(a, b, o))

-----------------------------------------------------------------------------
X == <<"0.6">>
F(m) == Eval(m.ch, m.p, X)[1]

\* a model has the parameters of its parts
Sized == \A h \in Live : Len(heap[h].p) = CPar(heap[h].ch) /\ heap[h].ch[1].op = "0"

\* the value of a compound is the operation on the values of its operands
Comp(o, m, n) ==
    CASE o = "+" -> DAdd(F(m), F(n))
      [] o = "-" -> DSub(F(m), F(n))
      [] o = "*" -> DMul(F(m), F(n))
      [] o = "/" -> DDiv(F(m), F(n))
      [] o = "|" -> Eval(n.ch, n.p, <<F(m).v>>)[1]
LastEv == hist[Len(hist)]
Built ==
    last # <<>> =>
    LET e == LastEv
    IN  /\ e.op = "bin" => NClose(F(heap[Len(heap)]).v,
                \* the second operand is one operand, however many links it has
                IF e.o = "|" THEN Comp("|", last[e.a], last[e.b]).v
                ELSE CASE e.o = "+" -> NAdd(F(last[e.a]).v, F(last[e.b]).v)
                       [] e.o = "-" -> NSub(F(last[e.a]).v, F(last[e.b]).v)
                       [] e.o = "*" -> NMul(F(last[e.a]).v, F(last[e.b]).v)
                       [] e.o = "/" -> NDiv(F(last[e.a]).v, F(last[e.b]).v), "1e-12")
        /\ e.op = "iop" => NClose(F(heap[e.a]).v,
                CASE e.o = "|" -> Comp("|", last[e.a], last[e.b]).v
                  [] e.o = "+" -> NAdd(F(last[e.a]).v, F(last[e.b]).v)
                  [] e.o = "-" -> NSub(F(last[e.a]).v, F(last[e.b]).v)
                  [] e.o = "*" -> NMul(F(last[e.a]).v, F(last[e.b]).v)
                  [] e.o = "/" -> NDiv(F(last[e.a]).v, F(last[e.b]).v), "1e-12")
        /\ e.op \in {"copy", "brk"} => NEq(F(heap[Len(heap)]).v, F(last[e.a]).v)

\* only the model acted upon changes
Others ==
    last # <<>> =>
    \A h \in DOMAIN last : heap[h] # last[h] =>
        \/ LastEv.op = "iop" /\ h \in {LastEv.a, LastEv.b}
        \/ LastEv.op \in {"setk", "setsd", "brk"} /\ h = LastEv.a

\* the gradient of the formulas is the limit of their differences
Slope ==
    \A h \in Live :
        LET m == heap[h]
            d == F(m)
            np == Len(m.p)
            eps == "1e-5"
            Diff(i) ==
                LET P(s) == IF i <= np THEN [m.p EXCEPT ![i] = NAdd(@, NMul(s, eps))] ELSE m.p
                    Y(s) == IF i <= np THEN X ELSE <<NAdd(X[1], NMul(s, eps))>>
                IN  NDiv(NSub(Eval(m.ch, P("1"), Y("1"))[1].v, Eval(m.ch, P("-1"), Y("-1"))[1].v), NMul("2", eps))
        IN  NLt(NAbs(d.v), "1e3") =>
            \A i \in 1 .. np + 1 : NLt(NAbs(d.g[i]), "1e3") => NClose(Diff(i), d.g[i], "1e-4")

Emit == Len(hist) = Depth + Len(StartHist) => PrintT("GEN|" \o ToJson(hist))
=============================================================================
