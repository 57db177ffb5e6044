------------------------------- MODULE Calls --------------------------------
(* Specifications of the library's pure functions and of relations between   *)
(* recorded values.                                                          *)
EXTENDS Meta, Estimators, Gaussian

Judge(ev, want, rt) ==      \* ev.out: <<>> or <<tree>>
  IF ev.err # "" THEN <<"unexpected-error", ev.err>>
  ELSE IF ~SameShapes(ev.out[1], want) THEN
    <<"structure", [i \in 1..Len(ev.out[1].l) |-> ev.out[1].l[i].sh], [i \in 1..Len(want.l) |-> want.l[i].sh]>>
  ELSE IF ~CloseTree(ev.out[1], want, rt) THEN <<"value">> \o DiffAt(ev.out[1], want, rt)
  ELSE <<>>

\* a schedule ev.h evaluated at the counts ev.ns; ev.rt, ev.at: tolerances
JudgeSched(ev) ==
  IF ev.err # "" THEN <<"unexpected-error", ev.err>>
  ELSE IF Len(ev.outs) # Len(ev.ns) THEN <<"length", Len(ev.outs), Len(ev.ns)>>
  ELSE LET Bad(i) == IF ev.fn = "finite" THEN ~NIsFinite(ev.outs[i])
                     ELSE ~NClose(ev.outs[i], Sched(ev.h, ev.ns[i]), ev.rt, ev.at)
           bad == {i \in 1..Len(ev.ns) : Bad(i)}
       IN IF bad = {} THEN <<>>
          ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j
               IN IF ev.fn = "finite" THEN <<"not finite", ev.what, "count", ev.ns[i], "got", ev.outs[i]>>
                  ELSE <<"value", ev.what, "count", ev.ns[i], "got", ev.outs[i], "want", NStr(Sched(ev.h, ev.ns[i]))>>

\* ev.z: a sample claimed to be independent standard normals.  Bounds: six
\* standard deviations of the empirical moments.
SumPow(z, k) == NSum([i \in 1..Len(z) |-> NPow(z[i], NOfInt(k))])
Within(x, want, var, n) == NLe(NAbs(NSub(x, NMul(want, NOfInt(n)))), NMul("6", NSqrt(NMul(var, NOfInt(n)))))
JudgeNormal(ev) ==
  LET z == ev.z
      n == Len(z)
      lag == [i \in 1..(n - 1) |-> NMul(z[i], z[i + 1])]
  IN IF \E i \in 1..n : ~NIsFinite(z[i]) THEN <<"not finite", ev.what>>
     ELSE IF ~Within(NSum(z), "0", "1", n) THEN <<"mean", ev.what, NStr(NDiv(NSum(z), NOfInt(n)))>>
     ELSE IF ~Within(SumPow(z, 2), "1", "2", n) THEN <<"variance", ev.what, NStr(NDiv(SumPow(z, 2), NOfInt(n)))>>
     ELSE IF ~Within(SumPow(z, 3), "0", "15", n) THEN <<"third moment", ev.what>>
     ELSE IF ~Within(SumPow(z, 4), "3", "96", n) THEN <<"fourth moment", ev.what>>
     ELSE IF ~Within(NSum(lag), "0", "1", n) THEN <<"neighbours correlated", ev.what>>
     ELSE IF ev.distinct /\ Cardinality({z[i] : i \in 1..n}) # n THEN <<"repeated values", ev.what>>
     ELSE <<>>
\* two samples of standard normals drawn independently of each other
JudgeIndep(ev) ==
  LET n == Len(ev.a)
      m == Len(ev.b)
      k == IF n < m THEN n ELSE m
      pr == [i \in 1..k |-> NMul(ev.a[i], ev.b[i])]
  IN IF ev.a = ev.b \/ SubSeq(ev.a, 1, k) = SubSeq(ev.b, 1, k) THEN <<"the same noise", ev.what>>
     ELSE IF ~Within(NSum(pr), "0", "1", k) THEN <<"correlated", ev.what>>
     ELSE <<>>

\* a recorded training run; ev.reach: <<>>, or the fraction of the initial
\* loss that must be left at most
JudgeTrain(ev, rt) ==
  IF ev.err # "" THEN <<"unexpected-error", ev.err>>
  ELSE LET want == TRun(ev.cfg, ev.prob, TStart(ev.cfg, ev.p), ev.evs)
           bad == {i \in 1..Len(want) : ~SameStruct(ev.got[i], want[i]) \/ ~CloseTree(ev.got[i], want[i], rt)}
           last == ev.got[Len(ev.got)]
       IN IF Len(ev.got) # Len(want) THEN <<"length", Len(ev.got), Len(want)>>
          ELSE IF bad # {} THEN
            LET i == CHOOSE i \in bad : \A j \in bad : i <= j
            IN IF ~SameStruct(ev.got[i], want[i]) THEN <<"structure", "event", i>>
               ELSE <<"parameters", "event", i, ev.evs[i].k>> \o DiffAt(ev.got[i], want[i], rt)
          ELSE IF ev.reach # <<>> /\ ~NLe(LossAt(ev.prob, ev.cfg, last), NMul(ev.reach[1], LossAt(ev.prob, ev.cfg, ev.p)))
               THEN <<"did not get near the minimum", NStr(LossAt(ev.prob, ev.cfg, last))>>
          ELSE <<>>

\* derivatives `got` of a sequence of trees
JudgeTangents(ev, want, rt) ==
  LET bad == {i \in 1..Len(want) : ~SameShapes(ev.got[i], want[i]) \/ ~CloseTree(ev.got[i], want[i], rt)}
  IN IF Len(ev.got) # Len(want) THEN <<"length", Len(ev.got), Len(want)>>
     ELSE IF bad = {} THEN <<>>
     ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j
          IN IF ~SameShapes(ev.got[i], want[i]) THEN <<"structure", ev.what, "step", i>>
             ELSE <<"derivative", ev.what, "step", i>> \o DiffAt(ev.got[i], want[i], rt)
\* ev.got: forward mode; ev.dots: <<>>, or the same paired with the cotangents
\* ev.cot, computed in reverse mode
JudgeMeta(ev, want, rt) ==
  IF ev.err # "" THEN <<"unexpected-error", ev.err>>
  ELSE LET v == JudgeTangents(ev, want, rt)
           w == NSum([i \in 1..Len(want) |-> TDot(ev.cot[i], want[i])])
           m == NSum([i \in 1..Len(want) |-> NSqrt(NMul(TDot(ev.cot[i], ev.cot[i]), TDot(want[i], want[i])))])
       IN IF v # <<>> \/ ev.dots = <<>> THEN v
          ELSE IF NClose(ev.dots[1], w, "1e-7", NAdd(NMul("1e-7", m), "1e-12")) THEN <<>>
          ELSE <<"reverse mode", ev.what, "got", ev.dots[1], "want", NStr(w)>>

\* the result must also have the dtypes of `want`
JudgeTyped(ev, want, rt) ==
  IF ev.err = "" /\ SameShapes(ev.out[1], want) /\ ~SameStruct(ev.out[1], want)
  THEN <<"dtype", ev.what, [i \in 1..Len(want.l) |-> <<ev.out[1].l[i].dt, want.l[i].dt>>]>>
  ELSE Judge(ev, want, rt)
IsInt(dt) == dt \in {"int32", "int64", "int8", "int16", "uint8"}
Stored(t) == TLeaf1(t, LAMBDA x : IF IsInt(x.dt) THEN Map1(x, NTrunc) ELSE x)
\* exactly (bit for bit up to the sign of zero; nan equals nan)
SameTree(a, b) ==
  /\ SameStruct(a, b)
  /\ \A i \in 1..Len(a.l) : \A j \in 1..Len(a.l[i].v) : NClose(a.l[i].v[j], b.l[i].v[j], "0", "0")

\* a loss of ev.x, ev.y (tensors of one shape), entry by entry
LossShape(fn, sh) == IF fn \in {"softmax", "cosine", "cosdist"} THEN SubSeq(sh, 1, Len(sh) - 1) ELSE sh
JudgeLoss(ev) ==
  IF ev.err # "" THEN <<"unexpected-error", ev.err>>
  ELSE LET o == ev.out[1].l[1]
           w == Loss(ev.lfn, ev.x, ev.y, ev.par)
           bad == {i \in 1..Len(w) : ~NClose(o.v[i], w[i], ev.rt, ev.at)}
       IN IF o.sh # LossShape(ev.lfn, ev.x.sh) THEN <<"shape", ev.what, o.sh, ev.x.sh>>
          ELSE IF o.dt # ev.x.dt THEN <<"dtype", ev.what, o.dt, ev.x.dt>>
          ELSE IF bad = {} THEN <<>>
          ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j
               IN <<"value", ev.what, "entry", i, "got", o.v[i], "want", NStr(w[i])>>

\* a flat vector of results against the expected sequence
JudgeVec(ev, want) ==
  IF ev.err # "" THEN <<"unexpected-error", ev.err>>
  ELSE IF Len(ev.out) # Len(want) THEN <<"length", ev.what, Len(ev.out), Len(want)>>
  ELSE LET at == NMul(ev.at, NMax("1", NMaxAbs(want)))
           bad == {i \in 1..Len(want) : ~NClose(ev.out[i], want[i], ev.rt, at)}
       IN IF bad = {} THEN <<>>
          ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j
               IN <<"value", ev.what, "entry", i, "got", ev.out[i], "want", NStr(want[i])>>

\* jacobians of a list of samples: out[k][j][i], want(k)[j][i]; at is relative
\* to the largest expected entry of the sample
JudgeJacs(ev, Want(_)) ==
  IF ev.err # "" THEN <<"unexpected-error", ev.err>>
  ELSE IF Len(ev.out) # Len(ev.xs) THEN <<"number of samples", ev.what, Len(ev.out), Len(ev.xs)>>
  ELSE LET Bad(k) ==
             LET w == Want(k)
                 at == NMul(ev.at, NMax("1", NMaxAbs(ConcatAll([j \in 1..Len(w) |-> w[j]]))))
             IN IF Len(ev.out[k]) # Len(w) THEN <<"parameters", ev.what, Len(ev.out[k]), Len(w)>>
                ELSE LET b == {q \in {<<j, i>> : j \in 1..Len(w), i \in 1..Len(w[1])} :
                                 ~NClose(ev.out[k][q[1]][q[2]], w[q[1]][q[2]], ev.rt, at)}
                     IN IF b = {} THEN <<>>
                        ELSE LET q == CHOOSE q \in b : TRUE
                             IN <<"value", ev.what, "sample", k, "parameter", q[1], "coordinate", q[2],
                                  "got", ev.out[k][q[1]][q[2]], "want", NStr(w[q[1]][q[2]])>>
           bad == {k \in 1..Len(ev.xs) : Bad(k) # <<>>}
       IN IF bad = {} THEN <<>> ELSE Bad(CHOOSE k \in bad : \A j \in bad : k <= j)
\* control variates: base is the state after the update with these samples
JudgeCv(ev) ==
  LET m == Mean([k \in 1..Len(ev.xs) |-> FnAt(ev.f, ev.xs[k])])
      st == IF ev.cv = "base" THEN BaselineStep(ev.st, m, ev.decay, ev.deb, ev.heur) ELSE [v |-> "0", i |-> 0]
      coef == IF ~ev.coefs THEN <<"1", "1">>
              ELSE CvCoefs(ev.est, ev.cv, ev.f, ev.prm, ev.cxs, ev.cws, st.v, "0.001")
      js == CvJacobians(ev.est, ev.cv, ev.f, ev.prm, ev.xs, ev.ws, st.v, coef)
      v == JudgeJacs(ev, LAMBDA k : js[k])
  IN IF v # <<>> THEN v
     ELSE IF ev.cv = "base" /\ ~NClose(ev.st1.v, st.v, ev.rt, ev.at) THEN <<"baseline", ev.what, "got", ev.st1.v, "want", NStr(st.v)>>
     ELSE IF ev.cv = "base" /\ ev.st1.i # st.i THEN <<"baseline count", ev.what, ev.st1.i, st.i>>
     ELSE <<>>
\* repeated runs from random starts: a majority must be right
Majority(n, Good(_)) == 2 * Cardinality({i \in 1..n : Good(i)}) > n
\* dominant eigenpair of ev.m: unit, an eigenvector, and of eigenvalue ev.lam
EigenPair(ev, o) ==
  /\ \A i \in 1..Len(o.v) : NIsFinite(o.v[i])
  /\ Len(o.v) = Len(ev.m)
  /\ NClose(NSumSq(o.v), "1", ev.rt, "0")
  /\ NClose(o.s, ev.lam, ev.rt, "0")
  /\ NLe(MaxDev(MVec(ev.m, o.v), [i \in 1..Len(o.v) |-> NMul(ev.lam, o.v[i])]), NMul(ev.vt, ev.lam))
\* the inverse p-th root of ev.m with a ridge of ev.ridge * (top eigenvalue)
Damped(ev) == MAddDiag(ev.m, NMul(ev.ridge, ev.lam))
InvRoot(ev, h) ==
  LET n == Len(ev.m)
  IN /\ Len(h) = n /\ \A i \in 1..n : Len(h[i]) = n /\ \A j \in 1..n : NIsFinite(h[i][j])
     /\ NLe(MaxDev(MFlat(MMul(MPow(h, ev.p), Damped(ev))), MFlat(MId(n))), ev.tol)
     /\ \A i, j \in 1..n : NLe(NAbs(NSub(h[i][j], h[j][i])), NMul(ev.tol, NMaxAbs(MFlat(h))))
     \* positive definite: not another (e.g. negated) root
     /\ \A i \in 1..n : NLt("0", h[i][i])
     /\ ev.root # <<>> => NLe(MaxDev(MFlat(h), MFlat(ev.root)), NMul("5e-3", NMaxAbs(MFlat(ev.root))))

LogProb(prm, x) ==
  LET z == [i \in 1..Len(x) |-> NDiv(NSub(x[i], prm[1][i]), NExp(prm[2][i]))]
  IN NSub(NMul("-0.5", NSumSq(z)), NAdd(NSum(prm[2]), NMul(NOfInt(Len(x)), NLog(Sqrt2Pi))))

JudgeCall(ev, rt) ==
  \* two recorded values are identical (bitwise results, unaltered arguments)
  CASE ev.fn = "same" -> IF ev.err # "" THEN <<"unexpected-error", ev.err>>
                         ELSE IF ev.a = ev.b THEN <<>> ELSE <<"differs", ev.what>>
    [] ev.fn = "differ" -> IF ev.a # ev.b THEN <<>> ELSE <<"equal", ev.what>>
  \* equal up to rounding, with the same structure, shapes and dtypes
    [] ev.fn = "close" -> IF ev.err # "" THEN <<"unexpected-error", ev.err>>
                          ELSE IF ~SameStruct(ev.a, ev.b) THEN <<"structure", ev.what>>
                          ELSE IF ~CloseTree(ev.a, ev.b, rt) THEN <<"value", ev.what>> \o DiffAt(ev.a, ev.b, rt)
                          ELSE <<>>
    [] ev.fn \in {"sched", "finite"} -> JudgeSched(ev)
    [] ev.fn = "normal" -> JudgeNormal(ev)
    [] ev.fn = "indep" -> JudgeIndep(ev)
    [] ev.fn = "loss" -> JudgeLoss(ev)
    \* second-order diagnostics of a polynomial loss
    [] ev.fn = "hvp" -> JudgeVec(ev, HvpAt(ev.f, ev.x, ev.v))
    [] ev.fn = "hessian_diag" -> JudgeVec(ev, HessDiagAt(ev.f, ev.x, ev.n))
    [] ev.fn = "fisher_diag" -> JudgeVec(ev, FisherAt(ev.f, ev.x, ev.n))
    \* stochastic gradient estimators and control variates
    [] ev.fn = "estimate" -> JudgeJacs(ev, LAMBDA k : Est(ev.est, ev.f, ev.fam, ev.prm, ev.xs[k], ev.ws[k]))
    [] ev.fn = "cv_jacobians" -> JudgeCv(ev)
    [] ev.fn = "cv_coefs" -> JudgeVec(ev, CvCoefs(ev.est, ev.cv, ev.f, ev.prm, ev.xs, ev.ws, ev.st.v, "0.001"))
    [] ev.fn = "baseline" ->
         LET b == BaselineStep(ev.st, Mean([k \in 1..Len(ev.xs) |-> FnAt(ev.f, ev.xs[k])]), ev.decay, ev.deb, ev.heur)
         IN JudgeVec(ev, <<b.v, NOfInt(b.i), b.v, b.v>>)
    [] ev.fn = "delta" -> JudgeVec(ev, [k \in 1..Len(ev.xs) |-> DeltaAt(ev.f, ev.prm, ev.xs[k])] \o <<DeltaMean(ev.f, ev.prm)>>)
    [] ev.fn = "log_prob" -> JudgeVec(ev, [k \in 1..Len(ev.xs) |-> LogProb(ev.prm, ev.xs[k])])
    \* diagonal Gaussians
    [] ev.fn = "gauss" ->
         IF ev.err # "" THEN <<"unexpected-error", ev.err>>
         ELSE LET tail == IF ev.m = "sample" THEN PShape(ev.g) ELSE <<>>
              IN IF ev.sh # ev.batch \o tail THEN <<"shape", ev.what, ev.sh, ev.batch \o tail>>
                 ELSE JudgeVec(ev, IF ev.m = "sample" THEN SampleAt(ev.g, ev.x) ELSE LogDensRows(ev.g, ev.x))
    [] ev.fn = "gauss_score" -> JudgeVec(ev, ScoreAt(ev.g, ev.x))
    \* linear algebra
    [] ev.fn = "global_norm" ->
         IF ev.err # "" THEN <<"unexpected-error", ev.err>>
         ELSE IF Len(ev.sh) # 0 THEN <<"not a scalar", ev.what>>
         ELSE IF NClose(ev.out, GlobalNorm(ev.t), ev.rt, "0") THEN <<>>
         ELSE <<"value", ev.what, "got", ev.out, "want", NStr(GlobalNorm(ev.t))>>
    \* norm and gradient of the norm bounded below
    [] ev.fn = "safe_norm" -> JudgeVec(ev, <<SafeNorm(ev.x, ev.min)>> \o SafeNormGrad(ev.x, ev.min))
    [] ev.fn = "power_iteration" ->
         IF ev.err # "" THEN <<"unexpected-error", ev.err>>
         ELSE IF Majority(Len(ev.out), LAMBDA i : EigenPair(ev, ev.out[i])) THEN <<>>
         ELSE <<"not the dominant eigenpair", ev.what, "got", ev.out[1].s, "want", ev.lam>>
    [] ev.fn = "pth_root" ->
         IF ev.err # "" THEN <<"unexpected-error", ev.err>>
         ELSE IF ~Majority(Len(ev.out), LAMBDA i : InvRoot(ev, ev.out[i].h)) THEN <<"not the inverse root", ev.what, "p", ev.p, "got", ev.out[1].h>>
         ELSE IF ~Majority(Len(ev.out), LAMBDA i : NIsFinite(ev.out[i].e) /\ NLe(ev.out[i].e, ev.tol)) THEN <<"reported error", ev.what, ev.out[1].e>>
         ELSE IF \E i \in 1..Len(ev.out) : ev.out[i].dt # ev.dt THEN <<"dtype", ev.what, ev.out[1].dt, ev.dt>>
         ELSE <<>>
    \* a whole training run: the parameters after every event of ev.evs
    [] ev.fn = "train" -> JudgeTrain(ev, rt)
    \* differentiating through updates, through a training run
    [] ev.fn = "meta" -> JudgeMeta(ev, MetaJvp(ev.cp, ev.cm, ev.p, ev.dp, ev.gs, ev.dgs, ev.ps, ev.dps), rt)
    [] ev.fn = "meta_train" -> JudgeMeta(ev, MetaTrain(ev.cp, ev.cm, ev.prob, ev.p, ev.dp, ev.evs), rt)
    [] ev.fn = "rejected" -> IF ev.err = "" THEN <<"missing-error", ev.what>> ELSE <<>>
    \* construction of a schedule (h) or a transformation (tx)
    [] ev.fn \in {"build_sched", "build_tx"} ->
         LET ok == IF ev.fn = "build_sched" THEN ValidSched(ev.h) ELSE ValidTx(ev.tx)
         IN IF ok /\ ev.err # "" THEN <<"unexpected-error", ev.what, ev.err>>
            ELSE IF ~ok /\ ev.err = "" THEN <<"missing-error", ev.what>> ELSE <<>>
    [] ev.fn = "accepted" -> IF ev.err # "" THEN <<"unexpected-error", ev.what, ev.err>> ELSE <<>>
    \* parameter updates
    [] ev.fn = "apply" -> JudgeTyped(ev, Stored(ApplyUpdates(ev.p, ev.u)), rt)
    [] ev.fn = "incremental" ->
         IF ev.typed THEN JudgeTyped(ev, Incremental(ev.new, ev.old, ev.step), rt)
         ELSE Judge(ev, Incremental(ev.new, ev.old, ev.step), rt)
    [] ev.fn = "periodic" ->
         IF ev.err # "" THEN <<"unexpected-error", ev.err>>
         ELSE IF SameTree(ev.out[1], Periodic(ev.new, ev.old, ev.steps, ev.period)) THEN <<>>
         ELSE <<"not the expected tensors", ev.what, "step", ev.steps, "period", ev.period>>
  \* applied parameters: non-negative wherever the old ones were
    [] ev.fn = "nonneg" ->
         LET old == Entries(ev.p)
             new == Entries(ev.a)
             bad == {j \in 1..Len(new) : ~NLt(old[j], "0") /\ NLt(new[j], "0")}
         IN IF ~SameStruct(ev.p, ev.a) THEN <<"structure", ev.what>>
            ELSE IF bad = {} THEN <<>> ELSE <<"negative", ev.what, CHOOSE j \in bad : TRUE>>
=============================================================================
