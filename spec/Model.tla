------------------------------- MODULE Model --------------------------------
(***************************************************************************)
(* Scaffolding of the bounded models (MC_*.tla): one session over one      *)
(* transformation, driven through every history of inputs up to a depth.   *)
(* A model states its property on the whole history `hist` and the outputs *)
(* `outs`, independently of the transition rules of Transforms.tla, and    *)
(* emits the complete histories; the harness replays them against the real *)
(* library and has the recorded runs validated by Trace.tla.               *)
(***************************************************************************)
EXTENDS Optax, Json, IOUtils, SequencesExt

VARIABLES cfg, st, hist, outs
mvars == <<cfg, st, hist, outs>>

Thorough == "OPTAX_TIER" \in DOMAIN IOEnv /\ IOEnv.OPTAX_TIER = "thorough"
T0 == [float64 |-> "1e-30", floor |-> [float64 |-> "1e-40"]]
\* scalar / vector / pair trees
ScalarL(x, name) == [sh |-> <<>>, dt |-> "float64", path |-> <<name>>, v |-> <<x>>]
VecL(xs, name) == [sh |-> <<Len(xs)>>, dt |-> "float64", path |-> <<name>>, v |-> xs]
Tree(ls) == [td |-> "*", l |-> ls]
Sc(x) == Tree(<<ScalarL(x, "x")>>)
Pair(x, y) == Tree(<<ScalarL(x, "x"), ScalarL(y, "y")>>)
Eq(a, b) == CloseTree(a, b, T0)

MInit(cfgs, p0) == /\ cfg \in cfgs
                   /\ st = InitT(cfg, p0)
                   /\ hist = <<>>
                   /\ outs = <<>>
\* x: what is remembered of the input, u/p: the input itself
MStep(x, u, p) ==
  LET r == UpdT(cfg, u, st, p)
  IN /\ r.e = ""
     /\ hist' = Append(hist, x)
     /\ outs' = Append(outs, r.u)
     /\ st' = r.s
     /\ UNCHANGED cfg

\* outputs and last state of a fresh run of c over the inputs us (params ps[i])
RECURSIVE RunT(_, _, _, _)
RunT(c, s, us, ps) ==
  IF us = <<>> THEN [o |-> <<>>, s |-> s]
  ELSE LET r == UpdT(c, us[1], s, ps[1])
           q == RunT(c, r.s, Tail(us), Tail(ps))
       IN [o |-> <<r.u>> \o q.o, s |-> q.s]

EmitPlan(x) == PrintT("@@PLAN " \o ToJson(x))
=============================================================================
