------------------------------- MODULE Optax --------------------------------
(***************************************************************************)
(* The system: training sessions over one transformation.                  *)
(* `store` holds the optimizer states that exist, by slot.  States are     *)
(* values: any slot may be used as the source of any later call, any       *)
(* number of times (checkpoints, restarts, interleaved sessions), and a    *)
(* call writes only its destination slot.                                  *)
(*                                                                         *)
(* Actions:  Init(dst, p)             tx.init                              *)
(*           Update(src, dst, u, p)   tx.update                            *)
(*           Restore(src, dst)        serialise, rebuild tx, load          *)
(*           SetCount(src, dst, v)    a run that has made v updates        *)
(*           SetHyper(src, dst, x, v) overwrite an injected hyperparameter *)
(* Each action is given as a function from the store to its outcome        *)
(* [e |-> error, u |-> returned updates, st |-> state written]; the trace  *)
(* specification and the bounded models share these definitions.           *)
(***************************************************************************)
EXTENDS Transforms

Outcome(e, u, st) == [e |-> e, u |-> u, st |-> st]

DoInit(c, p) == Outcome("", <<>>, InitT(c, p))
DoUpdate(c, s, u, p) ==
  LET r == UpdT(c, u, s, p) IN Outcome(r.e, r.u, r.s)
DoRestore(s) == Outcome("", <<>>, s)
DoSetCount(c, s, v) == Outcome("", <<>>, SetCounts(c, s, v))
\* overwriting a scheduled hyperparameter has no effect on later updates
DoSetHyper(c, s, x, v) == Outcome("", <<>>, [s EXCEPT !.hp = [@ EXCEPT ![x] = v]])
\* a state with the slots in `keep` only (a corrupted checkpoint)
DoSlots(s, keep) == Outcome("", <<>>, [i \in 1..Len(keep) |-> s[keep[i]]])
=============================================================================
