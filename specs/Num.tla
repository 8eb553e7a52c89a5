-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Real-number arithmetic for TLC.  A number is a string holding a decimal *)
(* literal ("3", "-0.125", "1e-7"), or "inf", "-inf", "nan".  TLC's own    *)
(* integers are 32 bits wide and it has no reals; the operators below are  *)
(* overridden by lib/Num.java: + - * / with 34 significant decimal digits, *)
(* and the elementary functions in IEEE double precision.  The bodies here *)
(* only give the arities; they are never evaluated.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

NAdd(a, b) == CHOOSE c \in STRING : TRUE
NSub(a, b) == CHOOSE c \in STRING : TRUE
NMul(a, b) == CHOOSE c \in STRING : TRUE
NDiv(a, b) == CHOOSE c \in STRING : TRUE
NNeg(a) == CHOOSE c \in STRING : TRUE
NAbs(a) == CHOOSE c \in STRING : TRUE
NLt(a, b) == CHOOSE c \in BOOLEAN : TRUE
NLe(a, b) == CHOOSE c \in BOOLEAN : TRUE
NEq(a, b) == CHOOSE c \in BOOLEAN : TRUE
NIsNum(a) == CHOOSE c \in BOOLEAN : TRUE      \* finite
NIsNan(a) == CHOOSE c \in BOOLEAN : TRUE
NClose(a, b, tol) == CHOOSE c \in BOOLEAN : TRUE  \* |a-b| <= tol*max(|a|,|b|,1)
NExp(a) == CHOOSE c \in STRING : TRUE
NLn(a) == CHOOSE c \in STRING : TRUE
NSin(a) == CHOOSE c \in STRING : TRUE
NCos(a) == CHOOSE c \in STRING : TRUE
NAtan(a) == CHOOSE c \in STRING : TRUE
NAtan2(a, b) == CHOOSE c \in STRING : TRUE
NPow(a, b) == CHOOSE c \in STRING : TRUE
NSqrt(a) == CHOOSE c \in STRING : TRUE
NFloor(a) == CHOOSE c \in STRING : TRUE
NLnGamma(a) == CHOOSE c \in STRING : TRUE
NErf(a) == CHOOSE c \in STRING : TRUE
NOfInt(a) == CHOOSE c \in STRING : TRUE       \* 3 |-> "3"
NToInt(a) == CHOOSE c \in Int : TRUE
NSum(s) == CHOOSE c \in STRING : TRUE         \* of a sequence
NDot(s, t) == CHOOSE c \in STRING : TRUE      \* of two sequences
VLin(a, u, b, w) == CHOOSE c \in Seq(STRING) : TRUE  \* a*u + b*w, for sequences u, w
VScale(a, u) == CHOOSE c \in Seq(STRING) : TRUE
NWofz(a, b) == CHOOSE c \in Seq(STRING) : TRUE    \* Faddeeva function w(a+ib): <<Re, Im>>
MLnDet(m) == CHOOSE c \in STRING : TRUE       \* ln |det m|, m a sequence of rows
MSolve(m, v) == CHOOSE c \in Seq(STRING) : TRUE   \* solution of m x = v

-----------------------------------------------------------------------------
NMax(a, b) == IF NLe(a, b) THEN b ELSE a
NMin(a, b) == IF NLe(a, b) THEN a ELSE b
NSgn(a) == IF NLt(a, "0") THEN "-1" ELSE IF NLt("0", a) THEN "1" ELSE "0"
NSq(a) == NMul(a, a)
Pi == "3.14159265358979323846264338327950288419716939937510"
Ln2Pi == "1.8378770664093454835606594728112352797227949472756"

\* x^n for a natural n
RECURSIVE NPowInt(_, _)
NPowInt(x, n) == IF n = 0 THEN "1" ELSE NMul(x, NPowInt(x, n - 1))

\* two sequences of numbers agree to a tolerance
SeqClose(s, t, tol) ==
    /\ Len(s) = Len(t)
    /\ \A i \in 1 .. Len(s) : NClose(s[i], t[i], tol)
SeqEq(s, t) ==
    /\ Len(s) = Len(t)
    /\ \A i \in 1 .. Len(s) : NEq(s[i], t[i])
=============================================================================
