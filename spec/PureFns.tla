----------------------------- MODULE PureFns --------------------------------
(***************************************************************************)
(* The library's pure functions: parameter updates, losses, exact          *)
(* derivatives of polynomials (the oracle of second-order diagnostics and  *)
(* gradient estimators), small dense linear algebra.                       *)
(***************************************************************************)
EXTENDS Tensor

Half == "0.5"
FAdd3(a, b, c) == NAdd(a, NAdd(b, c))

(* ------------------------------ parameters ----------------------------- *)
ApplyUpdates(p, u) == TMap2(p, u, NAdd)
Incremental(new, old, step) ==
  TMap2(new, old, LAMBDA a, b : NAdd(NMul(step, a), NMul(NSub("1", step), b)))
Periodic(new, old, steps, period) == IF steps % period = 0 THEN new ELSE old

(* -------------------------------- losses ------------------------------- *)
(* x: prediction / logits, y: target / labels (sequences over the last axis *)
(* for the row losses); every one also with its gradient in x               *)
L2Loss(e)   == NMul(Half, NMul(e, e))
ClampTo(e, d) == NMax(NNeg(d), NMin(d, e))
HuberLoss(e, d) == LET a == NAbs(e)
                   IN IF NLe(a, d) THEN L2Loss(e) ELSE NSub(NMul(d, a), L2Loss(d))
LogSigmoid(x) == NNeg(NAdd(NMax(NNeg(x), "0"), NLog1p(NExp(NNeg(NAbs(x))))))
Sigmoid(x)    == NExp(LogSigmoid(x))
SigmoidXent(x, y) == NNeg(NAdd(NMul(y, LogSigmoid(x)), NMul(NSub("1", y), LogSigmoid(NNeg(x)))))
SeqMax(s) == LET RECURSIVE M(_)
                 M(i) == IF i = 1 THEN s[1] ELSE NMax(M(i - 1), s[i])
             IN M(Len(s))
\* log of the sum of exponentials, relative to the maximum
LseRest(x, m) == NLog(NSum([i \in 1..Len(x) |-> NExp(NSub(x[i], m))]))
SoftmaxXent(x, y) ==
  LET m == SeqMax(x)
      r == LseRest(x, m)
  IN NSum([i \in 1..Len(x) |-> NMul(y[i], NAdd(NSub(m, x[i]), r))])
Softmax(x) == LET m == SeqMax(x)
                  r == LseRest(x, m)
              IN [i \in 1..Len(x) |-> NExp(NSub(NSub(x[i], m), r))]
FlooredNorm(x, eps) == NMax(NSqrt(NSumSq(x)), eps)
CosSim(x, y, eps) == NDiv(NDot(x, y), NMul(FlooredNorm(x, eps), FlooredNorm(y, eps)))
SmoothRow(y, a) == [i \in 1..Len(y) |-> NAdd(NMul(NSub("1", a), y[i]), NDiv(a, NOfInt(Len(y))))]

RowLosses == {"softmax", "cosine", "cosdist", "smooth", "d_softmax", "d_cosine"}
\* value of an elementwise loss, par: its setting ("" when it has none)
ElemLoss(fn, x, y, par) ==
  CASE fn = "l2" -> L2Loss(NSub(x, y))
    [] fn = "huber" -> HuberLoss(NSub(x, y), par)
    [] fn = "sigmoid" -> SigmoidXent(x, y)
    [] fn = "d_l2" -> NSub(x, y)
    [] fn = "d_huber" -> ClampTo(NSub(x, y), par)
    [] fn = "d_sigmoid" -> NSub(Sigmoid(x), y)
\* value of a loss over the last axis: a sequence (of length one, or a row)
RowLoss(fn, x, y, par) ==
  CASE fn = "softmax" -> <<SoftmaxXent(x, y)>>
    [] fn = "cosine" -> <<CosSim(x, y, par)>>
    [] fn = "cosdist" -> <<NSub("1", CosSim(x, y, par))>>
    [] fn = "smooth" -> SmoothRow(x, par)
    [] fn = "d_softmax" -> LET s == Softmax(x)
                               t == NSum(y)
                           IN [i \in 1..Len(x) |-> NSub(NMul(t, s[i]), y[i])]
    \* where the norm is not floored; constant norm otherwise
    [] fn = "d_cosine" ->
         LET nx == NSqrt(NSumSq(x))
             fx == FlooredNorm(x, par)
             fy == FlooredNorm(y, par)
             c == NDiv(NDot(x, y), NMul(fx, fy))
         IN [i \in 1..Len(x) |->
              LET d == NDiv(y[i], NMul(fx, fy))
              IN IF NLt(par, nx) THEN NSub(d, NMul(c, NDiv(x[i], NMul(nx, nx)))) ELSE d]
\* all rows of tensors x, y (same shape) cut along the last axis
Loss(fn, x, y, par) ==
  IF fn \notin RowLosses THEN Force([i \in 1..Len(x.v) |-> ElemLoss(fn, x.v[i], y.v[i], par)])
  ELSE LET w == x.sh[Len(x.sh)]
           n == Len(x.v) \div w
           Row(t, k) == SubSeq(t.v, (k - 1) * w + 1, k * w)
       IN ConcatAll([k \in 1..n |-> RowLoss(fn, Row(x, k), Row(y, k), par)])

(* ------------------------- polynomials in x_1..x_n --------------------- *)
(* a polynomial is a sequence of monomials [c |-> number, e |-> exponents]; *)
(* its exact derivatives are the oracle of every autodiff-based utility     *)
MonoAt(m, x) == LET RECURSIVE M(_)
                    M(i) == IF i = 0 THEN m.c
                            ELSE IF m.e[i] = 0 THEN M(i - 1)
                            ELSE NMul(NPow(x[i], NOfInt(m.e[i])), M(i - 1))
                IN M(Len(m.e))
PolyAt(f, x) == NSum([k \in 1..Len(f) |-> MonoAt(f[k], x)])
MonoD(m, i) == IF m.e[i] = 0 THEN [m EXCEPT !.c = "0"]
               ELSE [c |-> NMul(m.c, NOfInt(m.e[i])), e |-> [m.e EXCEPT ![i] = @ - 1]]
PolyD(f, i) == LET d == [k \in 1..Len(f) |-> MonoD(f[k], i)]
               IN SelectSeq(d, LAMBDA m : ~NEq(m.c, "0"))
GradAt(f, x, n) == Force([i \in 1..n |-> PolyAt(PolyD(f, i), x)])
HessAt(f, x, n) == Force([i \in 1..n |-> LET d == PolyD(f, i) IN Force([j \in 1..n |-> PolyAt(PolyD(d, j), x)])])
HvpAt(f, x, v)   == LET h == HessAt(f, x, Len(v)) IN Force([i \in 1..Len(v) |-> NDot(h[i], v)])
HessDiagAt(f, x, n) == Force([i \in 1..n |-> PolyAt(PolyD(PolyD(f, i), i), x)])
FisherAt(f, x, n) == LET g == GradAt(f, x, n) IN Force([i \in 1..n |-> NMul(g[i], g[i])])

(* --------------------------- dense matrices ---------------------------- *)
(* a matrix is a sequence of rows                                          *)
MatOf(t) == LET n == t.sh[1]
                m == t.sh[2]
            IN [i \in 1..n |-> SubSeq(t.v, (i - 1) * m + 1, i * m)]
MCol(a, j) == [i \in 1..Len(a) |-> a[i][j]]
MMul(a, b) == Force([i \in 1..Len(a) |-> Force([j \in 1..Len(b[1]) |-> NDot(a[i], MCol(b, j))])])
MVec(a, x) == Force([i \in 1..Len(a) |-> NDot(a[i], x)])
MId(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]]
RECURSIVE MPow(_, _)
MPow(a, p) == IF p = 0 THEN MId(Len(a))
              ELSE IF p % 2 = 1 THEN MMul(MPow(a, p - 1), a)
              ELSE LET h == MPow(a, p \div 2) IN MMul(h, h)
MAddDiag(a, c) == [i \in 1..Len(a) |-> [j \in 1..Len(a) |-> IF i = j THEN NAdd(a[i][j], c) ELSE a[i][j]]]
MFlat(a) == ConcatAll(a)
\* the norm bounded below by m; its gradient is 0 where the bound is active
VNorm(x) == NSqrt(NSumSq(x))
SafeNorm(x, m) == NMax(VNorm(x), m)
SafeNormGrad(x, m) == [i \in 1..Len(x) |-> IF NLe(VNorm(x), m) THEN "0" ELSE NDiv(x[i], VNorm(x))]
MaxDev(s, t) == NMaxAbs([i \in 1..Len(s) |-> NSub(s[i], t[i])])
=============================================================================
