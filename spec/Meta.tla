-------------------------------- MODULE Meta --------------------------------
(***************************************************************************)
(* Differentiating through an optimiser.  A history of updates is a        *)
(* function of the initial parameters, the gradients, the params given and *)
(* the hyperparameters; so is a training run.  The directional derivative  *)
(* of the specified function is its central difference quotient over a     *)
(* distance of 2e-15, which in 50-digit arithmetic agrees with the exact   *)
(* derivative to about 25 digits.                                          *)
(***************************************************************************)
EXTENDS Training

Step == "1e-15"
Nudge(t, d, h) == TMap2(t, d, LAMBDA x, y : NAdd(x, NMul(h, y)))
NudgeAll(ts, ds, h) == [i \in 1..Len(ts) |-> Nudge(ts[i], ds[i], h)]
NudgeOpt(ts, ds, h) == [i \in 1..Len(ts) |-> IF ts[i] = <<>> THEN <<>> ELSE <<Nudge(ts[i][1], ds[i][1], h)>>]
Quot(a, b) == TMap2(a, b, LAMBDA x, y : NDiv(NSub(x, y), NMul("2", Step)))

\* the updates returned by a history: gradients gs, params ps (each <<>> or <<tree>>)
RECURSIVE Returned(_, _, _, _)
Returned(c, s, gs, ps) ==
  IF gs = <<>> THEN <<>>
  ELSE LET o == UpdT(c, gs[1], s, ps[1]) IN <<o.u>> \o Returned(c, o.s, Tail(gs), Tail(ps))

\* their derivatives along (dp0, dgs, dps) and along the hyperparameters, of
\* which cp and cm are the configurations moved by +Step and -Step
MetaJvp(cp, cm, p0, dp0, gs, dgs, ps, dps) ==
  LET n == NNeg(Step)
      a == Returned(cp, InitT(cp, Nudge(p0, dp0, Step)), NudgeAll(gs, dgs, Step), NudgeOpt(ps, dps, Step))
      b == Returned(cm, InitT(cm, Nudge(p0, dp0, n)), NudgeAll(gs, dgs, n), NudgeOpt(ps, dps, n))
  IN [i \in 1..Len(gs) |-> Quot(a[i], b[i])]

\* the derivative of the parameters after every event of a training run
MetaTrain(cp, cm, prob, p, dp, evs) ==
  LET a == TRun(cp, prob, TStart(cp, Nudge(p, dp, Step)), evs)
      b == TRun(cm, prob, TStart(cm, Nudge(p, dp, NNeg(Step))), evs)
  IN [i \in 1..Len(evs) |-> Quot(a[i], b[i])]
TDot(a, b) == NSum([i \in 1..Len(a.l) |-> NDot(a.l[i].v, b.l[i].v)])
=============================================================================
