-------------------------------- MODULE Dual --------------------------------
(* Forward automatic differentiation.  A dual number is a value together    *)
(* with its gradient to all parameters and inputs of a model, so that one   *)
(* formula of a model yields its result, its partials and its derivative.   *)
EXTENDS Num, TLC

\* the constant c in a space of n gradient components
DC(c, n) == [v |-> c, g |-> TLCEval([i \in 1 .. n |-> "0"])]
\* the k-th independent variable
DV(c, k, n) == [v |-> c, g |-> TLCEval([i \in 1 .. n |-> IF i = k THEN "1" ELSE "0"])]

DAdd(a, b) == [v |-> NAdd(a.v, b.v), g |-> VLin("1", a.g, "1", b.g)]
DSub(a, b) == [v |-> NSub(a.v, b.v), g |-> VLin("1", a.g, "-1", b.g)]
DMul(a, b) == [v |-> NMul(a.v, b.v), g |-> VLin(b.v, a.g, a.v, b.g)]
DDiv(a, b) ==
    LET q == NDiv(a.v, b.v)
    IN  [v |-> q, g |-> VLin(NDiv("1", b.v), a.g, NNeg(NDiv(q, b.v)), b.g)]
DNeg(a) == [v |-> NNeg(a.v), g |-> VScale("-1", a.g)]
\* number times / plus dual
DScale(c, a) == [v |-> NMul(c, a.v), g |-> VScale(c, a.g)]
DPlus(c, a) == [v |-> NAdd(c, a.v), g |-> a.g]
\* a function with value f and slope d at a
DFun(a, f, d) == [v |-> f, g |-> VScale(d, a.g)]
DSq(a) == DMul(a, a)
DExp(a) == LET e == NExp(a.v) IN DFun(a, e, e)
DLn(a) == DFun(a, NLn(a.v), NDiv("1", a.v))
DSin(a) == DFun(a, NSin(a.v), NCos(a.v))
DCos(a) == DFun(a, NCos(a.v), NNeg(NSin(a.v)))
DAtan(a) == DFun(a, NAtan(a.v), NDiv("1", NAdd("1", NSq(a.v))))
DAbs(a) == DFun(a, NAbs(a.v), NSgn(a.v))
DSqrt(a) == LET s == NSqrt(a.v) IN DFun(a, s, NDiv("0.5", s))
\* a^b for a dual exponent; a > 0
DPow(a, b) ==
    LET f == NPow(a.v, b.v)
    IN  [v |-> f, g |-> VLin(NMul(b.v, NPow(a.v, NSub(b.v, "1"))), a.g, NMul(f, NLn(a.v)), b.g)]
\* a^c for a constant exponent
DPowC(a, c) == DFun(a, NPow(a.v, c), NMul(c, NPow(a.v, NSub(c, "1"))))
RECURSIVE DPowInt(_, _)
DPowInt(a, n) == IF n = 0 THEN DC("1", Len(a.g)) ELSE DMul(a, DPowInt(a, n - 1))

RECURSIVE DSumRec(_, _, _)
DSumRec(s, k, acc) == IF k > Len(s) THEN acc ELSE DSumRec(s, k + 1, DAdd(acc, s[k]))
DSum(s) == DSumRec(s, 2, s[1])
=============================================================================
