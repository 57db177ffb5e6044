------------------------------ MODULE Training ------------------------------
(***************************************************************************)
(* The closed loop of a training run: gradient of the loss at the current  *)
(* parameters, update, apply_updates.                                      *)
(*   prob: a sequence of mini-batch losses, each a polynomial (PureFns) in *)
(*         the entries of the (fast) parameters in flattening order        *)
(*   run:  [p |-> parameters, s |-> optimiser state, sp, ss |-> the last   *)
(*         checkpoint, e |-> error]                                        *)
(*   events: [k |-> "step", b |-> batch]  a step on mini-batch b           *)
(*           [k |-> "bad", b |-> batch, x |-> "nan" | "inf" | "-inf"]      *)
(*                              a step whose gradient came out non-finite  *)
(*           [k |-> "save"]     checkpoint of parameters and state         *)
(*           [k |-> "crash"]    everything but the checkpoint is lost      *)
(* For lookahead the parameters are the fast leaves followed by the slow   *)
(* ones, and gradients are taken at the fast ones.                         *)
(***************************************************************************)
EXTENDS Transforms, PureFns

Fast(c, p) == IF c.k = "lookahead" THEN FastOf(p) ELSE p
TStart(c, p) == LET s == InitT(c, Fast(c, p)) IN [p |-> p, s |-> s, sp |-> p, ss |-> s, e |-> ""]
\* a vector as a tree with the leaves of t
AsTree(t, x) == UnflatTree(t, [l |-> << [v |-> x] >>])
GradTree(f, t) == LET x == Entries(t) IN AsTree(t, GradAt(f, x, Len(x)))
Spoil(t, x) == [t EXCEPT !.l[1].v[1] = x]
\* mean of the mini-batch losses
Scaled(f, w) == [k \in 1..Len(f) |-> [f[k] EXCEPT !.c = NMul(w, @)]]
Whole(prob) == ConcatAll([b \in 1..Len(prob) |-> Scaled(prob[b], NDiv("1", NOfInt(Len(prob))))])

TGrad(c, prob, run, ev) ==
  LET g == GradTree(IF ev.b = 0 THEN Whole(prob) ELSE prob[ev.b], Fast(c, run.p))
  IN IF ev.k = "bad" THEN Spoil(g, ev.x) ELSE g
TStep(c, prob, run, ev) ==
  CASE ev.k = "save"  -> [run EXCEPT !.sp = run.p, !.ss = run.s]
    [] ev.k = "crash" -> [run EXCEPT !.p = run.sp, !.s = run.ss]
    [] OTHER -> LET r == UpdT(c, TGrad(c, prob, run, ev), run.s, <<run.p>>)
                IN IF r.e # "" THEN [run EXCEPT !.e = r.e]
                   ELSE [run EXCEPT !.p = ApplyUpdates(run.p, r.u), !.s = r.s]
\* the parameters after every event
RECURSIVE TRun(_, _, _, _)
TRun(c, prob, run, evs) ==
  IF evs = <<>> THEN <<>>
  ELSE LET q == TStep(c, prob, run, evs[1]) IN <<q.p>> \o TRun(c, prob, q, Tail(evs))
TEnd(c, prob, run, evs) ==
  LET RECURSIVE F(_, _)
      F(q, i) == IF i > Len(evs) THEN q ELSE F(TStep(c, prob, q, evs[i]), i + 1)
  IN F(run, 1)
LossAt(prob, c, p) == PolyAt(Whole(prob), Entries(Fast(c, p)))
=============================================================================
