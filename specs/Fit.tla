--------------------------------- MODULE Fit ---------------------------------
(***************************************************************************)
(* Fitting a model to data.                                                *)
(*                                                                         *)
(* A fitter f is [kind, ch, p, x, keep, norm, fixed, minsc, last]: the     *)
(* class, the chain of the model and its current parameters, the inputs,   *)
(* the parameters to be kept, the dummy measurements added by normalize(), *)
(* the fixed noise scale ("none"), the minimum scale, and the fit that was *)
(* done last: [ok, idx, y, w, sw].                                         *)
(*   keep is a sequence of [i, v]: parameter i (from 0) is v               *)
(*   norm is a sequence of [row, d, w]: row . p is measured to be d        *)
(*   idx  are the fitted parameters (from 1), w the weight of each point:  *)
(*        weight / accuracy^2, and sw the sum of the weights proper        *)
(***************************************************************************)
EXTENDS Models

NoFit == [ok |-> FALSE, idx |-> <<>>, y |-> <<>>, w |-> <<>>, sw |-> "0", acc |-> <<>>, keep |-> <<>>]

Kept(keep) == {keep[j].i + 1 : j \in 1 .. Len(keep)}
Insert(p, keep) ==
    [k \in 1 .. Len(p) |-> IF k \in Kept(keep) THEN keep[CHOOSE j \in 1 .. Len(keep) : keep[j].i + 1 = k].v ELSE p[k]]
RECURSIVE Without(_, _, _)
Without(k, n, s) == IF k > n THEN <<>> ELSE (IF k \in s THEN <<>> ELSE <<k>>) \o Without(k + 1, n, s)
Index(np, keep) == Without(1, np, Kept(keep))

\* the weight of each of n points; w and acc are <<>> when not given, acc may be a single number
Weights(n, w, acc) ==
    [i \in 1 .. n |->
        LET u == IF w = <<>> THEN "1" ELSE w[i]
            a == IF acc = <<>> THEN "1" ELSE IF Len(acc) = 1 THEN acc[1] ELSE acc[i]
        IN  NDiv(u, NMul(a, a))]
SumWeights(n, w) == IF w = <<>> THEN NOfInt(n) ELSE NSum(w)

\* result and slopes of the model at each of the inputs
Points(ch, p, x) == TLCEval([i \in 1 .. Len(x) |-> Eval(ch, p, x[i])[1]])

Chisq(pts, y, w) == NSum(TLCEval([i \in 1 .. Len(pts) |-> NMul(w[i], NSq(NSub(y[i], pts[i].v)))]))
\* the dummy measurements come on top when parameters are sought
ExtraChi(norm, p) == NSum(TLCEval([r \in 1 .. Len(norm) |-> NMul(norm[r].w, NSq(NSub(norm[r].d, NDot(norm[r].row, p))))]))

\* Gauss-Newton: second derivative of chisq/2 and minus the first one, to the parameters in idx
Hess(pts, w, norm, idx) ==
    LET col(a) == TLCEval([i \in 1 .. Len(pts) |-> pts[i].g[idx[a]]])
        cols == TLCEval([a \in 1 .. Len(idx) |-> col(a)])
        wcols == TLCEval([a \in 1 .. Len(idx) |-> [i \in 1 .. Len(pts) |-> NMul(w[i], cols[a][i])]])
    IN  TLCEval([a \in 1 .. Len(idx) |-> [b \in 1 .. Len(idx) |->
            NAdd(NDot(wcols[a], cols[b]),
                 NSum([r \in 1 .. Len(norm) |-> NMul(norm[r].w, NMul(norm[r].row[idx[a]], norm[r].row[idx[b]]))]))]])
Grad(pts, y, w, norm, p, idx) ==
    LET wr == TLCEval([i \in 1 .. Len(pts) |-> NMul(w[i], NSub(y[i], pts[i].v))])
        nr == TLCEval([r \in 1 .. Len(norm) |-> NMul(norm[r].w, NSub(norm[r].d, NDot(norm[r].row, p)))])
    IN  TLCEval([a \in 1 .. Len(idx) |->
            NAdd(NDot(wr, [i \in 1 .. Len(pts) |-> pts[i].g[idx[a]]]),
                 NSum([r \in 1 .. Len(norm) |-> NMul(nr[r], norm[r].row[idx[a]])]))])

\* how far, in units of chisq, p is from the minimum of the parabola at p
Decrement(pts, y, w, norm, p, idx) ==
    IF idx = <<>> THEN "0"
    ELSE LET g == Grad(pts, y, w, norm, p, idx)
             h == Hess(pts, w, norm, idx)
         IN  NDot(g, MSolve(h, g))

\* parameters (kept ones inserted) where chisq is minimal, for a model that is linear in them
LeastSquares(ch, x, y, w, norm, p, keep) ==
    LET idx == Index(Len(p), keep)
        q == TLCEval(Insert(p, keep))
        pts == Points(ch, q, x)
        d == IF idx = <<>> THEN <<>> ELSE MSolve(Hess(pts, w, norm, idx), Grad(pts, y, w, norm, q, idx))
    IN  TLCEval([k \in 1 .. Len(p) |->
            IF \E a \in 1 .. Len(idx) : idx[a] = k THEN NAdd(q[k], d[CHOOSE a \in 1 .. Len(idx) : idx[a] = k]) ELSE q[k]])

\* inverse of a matrix, by columns
Unit(n, k) == [i \in 1 .. n |-> IF i = k THEN "1" ELSE "0"]
Inverse(m) == TLCEval([k \in 1 .. Len(m) |-> MSolve(m, Unit(Len(m), k))])

\* the parameters are determined by the data: no variance inflation over 1e4
Good(h) ==
    LET inv == Inverse(h)
    IN  \A a \in 1 .. Len(h) :
            /\ NIsNum(inv[a][a]) /\ NLt("0", inv[a][a]) /\ NLt("0", h[a][a])
            /\ NLt(NMul(inv[a][a], h[a][a]), "1e4")

-----------------------------------------------------------------------------
(* Evidence of the last fit, in the Gaussian approximation.                *)

LnTwoPi == Ln2Pi
LogAcc(n, sw, acc) ==
    IF acc = <<>> THEN "0" ELSE IF Len(acc) = 1 THEN NMul(sw, NLn(acc[1]))
    ELSE NSum([i \in 1 .. n |-> NLn(acc[i])])
LogLik(sw, chi, var, la) ==
    NSub(NMul("-0.5", NAdd(NMul(sw, NAdd(LnTwoPi, NLn(var))), NDiv(chi, var))), la)

\* ranges: the width of the prior of each fitted parameter
\* noise: <<>> when the scale is fixed, else its limits
LogZ(sw, npfit, chi, var, la, h, ranges, noise) ==
    LET dof == NSub(sw, NOfInt(npfit))
        occ == NSub(NSub(NMul("0.5", NMul(NOfInt(npfit), NAdd(LnTwoPi, NLn(var)))),
                         NMul("0.5", IF npfit = 0 THEN "0" ELSE MLnDet(h))),
                    NSum([k \in 1 .. Len(ranges) |-> NLn(ranges[k])]))
        nocc == IF noise = <<>> THEN "0"
                ELSE NSub(NMul("0.5", NLn(NDiv(Pi, dof))), NLn(NLn(NDiv(noise[2], noise[1]))))
    IN  NAdd(LogLik(sw, chi, var, la), NAdd(occ, nocc))
=============================================================================
