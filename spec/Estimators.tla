---------------------------- MODULE Estimators ------------------------------
(***************************************************************************)
(* Stochastic gradient estimators and control variates, sample by sample.  *)
(*   f: [k |-> "poly", ms |-> monomials] or [k |-> "step", i, thr]         *)
(*   fam: "normal" (parameters mean, log-scale), "expo" (rate), "bern"     *)
(*        (logits); prm: the sequence of parameter vectors                 *)
(*   a jacobian of one sample: a sequence (per parameter) of vectors       *)
(***************************************************************************)
EXTENDS PureFns

FnAt(f, x) == IF f.k = "poly" THEN PolyAt(f.ms, x)
              ELSE IF NLt(f.thr, x[f.i]) THEN "1" ELSE "0"
FnGrad(f, x) == IF f.k = "poly" THEN GradAt(f.ms, x, Len(x)) ELSE [i \in 1..Len(x) |-> "0"]

\* gradient of log p(x) in each parameter
LogpGrad(fam, prm, x) ==
  CASE fam = "normal" ->
         LET z == Force([i \in 1..Len(x) |-> NDiv(NSub(x[i], prm[1][i]), NExp(prm[2][i]))])
         IN <<[i \in 1..Len(x) |-> NDiv(z[i], NExp(prm[2][i]))], [i \in 1..Len(x) |-> NSub(NMul(z[i], z[i]), "1")]>>
    [] fam = "expo" -> <<[i \in 1..Len(x) |-> NSub(NDiv("1", prm[1][i]), x[i])]>>
    [] fam = "bern" -> <<[i \in 1..Len(x) |-> NSub(x[i], Sigmoid(prm[1][i]))]>>
ScoreEst(f, fam, prm, x) ==
  LET g == LogpGrad(fam, prm, x)
      v == FnAt(f, x)
  IN Force([j \in 1..Len(g) |-> Force([i \in 1..Len(x) |-> NMul(v, g[j][i])])])
\* derivative through the sampling path x = mean + scale * noise, x = noise / rate
PathEst(f, fam, prm, x) ==
  LET d == FnGrad(f, x)
  IN CASE fam = "normal" -> <<d, Force([i \in 1..Len(x) |-> NMul(d[i], NSub(x[i], prm[1][i]))])>>
       [] fam = "expo" -> <<Force([i \in 1..Len(x) |-> NNeg(NMul(d[i], NDiv(x[i], prm[1][i])))])>>
\* the coordinate-wise differences of the measure-valued estimator: w.wp, w.wm
\* are the Weibull draws for the mean, w.m and w.n those for the scale
Sqrt2Pi == "2.5066282746310005024157652848110452530069867406099"
MvEst(f, prm, x, w) ==
  LET sc == Force([i \in 1..Len(x) |-> NExp(prm[2][i])])
      FAt(i, z) == FnAt(f, [x EXCEPT ![i] = NAdd(prm[1][i], NMul(sc[i], z))])
  IN <<Force([i \in 1..Len(x) |-> NDiv(NSub(FAt(i, w.wp[i]), FAt(i, NNeg(w.wm[i]))), NMul(Sqrt2Pi, sc[i]))]),
       Force([i \in 1..Len(x) |-> NSub(FAt(i, w.m[i]), FAt(i, w.n[i]))])>>
Est(est, f, fam, prm, x, w) ==
  CASE est = "score" -> ScoreEst(f, fam, prm, x)
    [] est = "path" -> PathEst(f, fam, prm, x)
    [] est = "mv" -> MvEst(f, prm, x, w)

(* --------------------------- control variates -------------------------- *)
Unit(n, is) == [k \in 1..n |-> Cardinality({i \in 1..Len(is) : is[i] = k})]
\* second-order Taylor polynomial of f at mu, in powers of x
TaylorPoly(f, mu) ==
  LET n == Len(mu)
      g == GradAt(f.ms, mu, n)
      h == HessAt(f.ms, mu, n)
      hm == MVec(h, mu)
      c0 == NAdd(NSub(PolyAt(f.ms, mu), NDot(g, mu)), NMul("0.5", NDot(mu, hm)))
  IN [k |-> "poly",
      ms |-> <<[c |-> c0, e |-> Unit(n, <<>>)]>>
             \o [i \in 1..n |-> [c |-> NSub(g[i], hm[i]), e |-> Unit(n, <<i>>)]]
             \o [q \in 1..(n * n) |-> LET i == (q - 1) \div n + 1
                                         j == ((q - 1) % n) + 1
                                     IN [c |-> NMul("0.5", h[i][j]), e |-> Unit(n, <<i, j>>)]]]
DeltaAt(f, prm, x) == FnAt(TaylorPoly(f, prm[1]), x)
DeltaMean(f, prm) == NAdd(PolyAt(f.ms, prm[1]),
                          NMul("0.5", NSum([i \in 1..Len(prm[1]) |-> NMul(NExp(NMul("2", prm[2][i])), HessDiagAt(f.ms, prm[1], Len(prm[1]))[i])])))
\* gradients, in the parameters, of the variate at x and of its expectation
DeltaParamGrad(f, prm, x) ==
  LET n == Len(x)
      c == [i \in 1..n |-> NSub(x[i], prm[1][i])]
  IN <<Force([k \in 1..n |-> NMul("0.5", NDot(c, MVec(HessAt(PolyD(f.ms, k), prm[1], n), c)))]), [k \in 1..n |-> "0"]>>
DeltaMeanGrad(f, prm) ==
  LET n == Len(prm[1])
      v == [i \in 1..n |-> NExp(NMul("2", prm[2][i]))]
      hd == HessDiagAt(f.ms, prm[1], n)
  IN <<Force([k \in 1..n |-> NAdd(PolyAt(PolyD(f.ms, k), prm[1]),
                                  NMul("0.5", NDot(v, HessDiagAt(PolyD(f.ms, k), prm[1], n))))]),
       Force([k \in 1..n |-> NMul(v[k], hd[k])])>>
Mean(s) == NDiv(NSum(s), NOfInt(Len(s)))
\* the variate as a function of x alone (base: the baseline's value)
CvPoly(cv, f, prm, base) ==
  IF cv = "delta" THEN TaylorPoly(f, prm[1])
  ELSE [k |-> "poly", ms |-> <<[c |-> base, e |-> Unit(Len(prm[1]), <<>>)]>>]
ZeroJac(prm) == [j \in 1..Len(prm) |-> [i \in 1..Len(prm[1]) |-> "0"]]
CvMeanGrad(cv, f, prm) == IF cv = "delta" THEN DeltaMeanGrad(f, prm) ELSE ZeroJac(prm)
CvParamGrad(cv, f, prm, xs) ==      \* mean over the samples
  IF cv # "delta" THEN ZeroJac(prm)
  ELSE LET g == [k \in 1..Len(xs) |-> DeltaParamGrad(f, prm, xs[k])]
       IN [j \in 1..2 |-> Force([i \in 1..Len(prm[1]) |-> Mean([k \in 1..Len(xs) |-> g[k][j][i]])])]
\* jacobians of all samples, corrected by the control variate
CvJacobians(est, cv, f, prm, xs, ws, base, coef) ==
  LET h == CvPoly(cv, f, prm, base)
      pg == CvParamGrad(cv, f, prm, xs)
      mg == CvMeanGrad(cv, f, prm)
  IN [k \in 1..Len(xs) |->
       LET a == Est(est, f, "normal", prm, xs[k], ws[k])
           b == Est(est, h, "normal", prm, xs[k], ws[k])
       IN Force([j \in 1..2 |-> Force([i \in 1..Len(prm[1]) |->
            NSub(a[j][i], NMul(coef[j], NSub(NAdd(b[j][i], pg[j][i]), mg[j][i])))])])]
\* covariance over variance, summed over the coordinates of each parameter
Var(s) == LET m == Mean(s) IN Mean([k \in 1..Len(s) |-> LET d == NSub(s[k], m) IN NMul(d, d)])
Cov(s, t) == LET a == Mean(s)
                 b == Mean(t)
             IN Mean([k \in 1..Len(s) |-> NMul(NSub(s[k], a), NSub(t[k], b))])
CvCoefs(est, cv, f, prm, xs, ws, base, eps) ==
  LET h == CvPoly(cv, f, prm, base)
      a == [k \in 1..Len(xs) |-> Est(est, f, "normal", prm, xs[k], ws[k])]
      b == [k \in 1..Len(xs) |-> Est(est, h, "normal", prm, xs[k], ws[k])]
      Col(q, j, i) == [k \in 1..Len(xs) |-> q[k][j][i]]
      n == Len(prm[1])
  IN [j \in 1..2 |-> NDiv(NSum([i \in 1..n |-> Cov(Col(a, j, i), Col(b, j, i))]),
                          NAdd(eps, NSum([i \in 1..n |-> Var(Col(b, j, i))])))]
\* moving-average baseline: state [v, i], m the mean of f over the new samples
BaselineStep(b, m, decay, debias, heur) ==
  LET d == IF heur THEN NMin(decay, NDiv(NOfInt(1 + b.i), NOfInt(10 + b.i))) ELSE decay
      raw == IF ~debias THEN b.v ELSE NMul(b.v, NSub("1", NPow(d, NOfInt(b.i))))
      new == NAdd(NMul(d, raw), NMul(NSub("1", d), m))
  IN [v |-> IF debias THEN NDiv(new, NSub("1", NPow(d, NOfInt(b.i + 1)))) ELSE new, i |-> b.i + 1]
=============================================================================
