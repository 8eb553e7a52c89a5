------------------------------- MODULE MC_Fit -------------------------------
(* All histories of fits, with and without weights, accuracies, kept       *)
(* parameters (of the fitter and of the call) and normalizations, of a     *)
(* straight line, with the laws of least squares as invariants.  Every     *)
(* complete history is printed, to be replayed on the implementation.      *)
EXTENDS Fit, TLC, Json

CONSTANT Depth

VARIABLES f, hist
vars == <<f, hist>>

Ch == <<Link("0", [k |-> "base", z |-> "Polynomial", c |-> [deg |-> 1], fx |-> <<>>])>>
X == <<<<"-1">>, <<"-0.25">>, <<"0.5">>, <<"1.25">>, <<"2">>>>
Y == <<"0.3", "1.1", "0.7", "2.2", "2.9">>
W == <<"1", "0.5", "2", "0", "1.5">>
A == <<"0.5", "1", "0.25", "2", "0.75">>
K0 == [i |-> 0, v |-> "0.4"]
K1 == [i |-> 1, v |-> "1.6"]

FKeeps == {<<>>, <<K1>>}                        \* kept by the fitter
CKeeps == {<<>>, <<K0>>, <<K0, K1>>}            \* kept by the call, if given
Ws == {<<>>, W}
As == {<<>>, <<"0.5">>, A}

Init ==
    \E keep \in FKeeps :
        /\ f = [ch |-> Ch, p |-> Insert(<<"0", "0">>, keep), x |-> X, keep |-> keep, norm |-> <<>>, last |-> NoFit]
        /\ hist = <<[op |-> "new", keep |-> keep, x |-> X]>>

Fit(w, a, given, keep) ==
    LET k == IF given THEN keep ELSE f.keep
        wt == Weights(Len(X), w, a)
        p == LeastSquares(Ch, X, Y, wt, f.norm, f.p, k)
    IN  /\ f' = [f EXCEPT !.p = p, !.last = [ok |-> TRUE, idx |-> Index(2, k), y |-> Y, w |-> wt,
                                              sw |-> SumWeights(Len(X), w), acc |-> a, keep |-> k]]
        /\ hist' = Append(hist, [op |-> "fit", y |-> Y, w |-> w, acc |-> a, given |-> given, keep |-> keep])
Norm ==
    /\ Len(f.norm) < 2
    /\ LET n == [row |-> <<"1", "1">>, d |-> "2.5", w |-> "3"]
       IN  /\ f' = [f EXCEPT !.norm = Append(@, n), !.last = NoFit]
           /\ hist' = Append(hist, [op |-> "norm", row |-> n.row, d |-> n.d, w |-> n.w])
Next ==
    /\ Len(hist) <= Depth
    /\ \/ \E w \in Ws, a \in As :
            \/ Fit(w, a, FALSE, <<>>)
            \/ \E k \in CKeeps : Fit(w, a, TRUE, k)
       \/ Norm

-----------------------------------------------------------------------------
Pts(p) == Points(Ch, p, X)
Obj(p) == NAdd(Chisq(Pts(p), f.last.y, f.last.w), ExtraChi(f.norm, p))

\* kept parameters are where they are kept
KeptLaw == f.last.ok => \A k \in Kept(f.last.keep) : NEq(f.p[k], Insert(f.p, f.last.keep)[k])
\* the solution is where the slope of chisq vanishes ...
SlopeLaw == f.last.ok => LET g == Grad(Pts(f.p), f.last.y, f.last.w, f.norm, f.p, f.last.idx)
                         IN  \A a \in 1 .. Len(g) : NLt(NAbs(g[a]), "1e-12")
\* ... and nothing nearby is better
Minimum ==
    f.last.ok => \A a \in 1 .. Len(f.last.idx) : \A s \in {"0.01", "-0.01"} :
        NLt(Obj(f.p), Obj([f.p EXCEPT ![f.last.idx[a]] = NAdd(@, s)]))
\* fitting again from the solution stays there
Idempotent == f.last.ok => SeqClose(LeastSquares(Ch, X, f.last.y, f.last.w, f.norm, f.p, f.last.keep), f.p, "1e-12")
\* where it starts does not matter
Anywhere == f.last.ok => SeqClose(LeastSquares(Ch, X, f.last.y, f.last.w, f.norm, <<"5", "-7">>, f.last.keep), f.p, "1e-12")
\* covariance times hessian is the unit matrix
InverseLaw ==
    f.last.ok /\ f.last.idx # <<>> =>
        LET h == Hess(Pts(f.p), f.last.w, f.norm, f.last.idx)
            v == Inverse(h)
        IN  \A a, b \in 1 .. Len(h) : NClose(NDot(h[a], v[b]), IF a = b THEN "1" ELSE "0", "1e-12")

Emit == Len(hist) = Depth + 1 => PrintT("GEN|" \o ToJson(hist))
=============================================================================
