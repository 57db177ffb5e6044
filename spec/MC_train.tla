------------------------------ MODULE MC_train ------------------------------
(* Training runs: every short history of whole-batch and mini-batch steps,    *)
(* non-finite gradients, checkpoints and crashes, on convex quadratics with   *)
(* curvatures between 1 and 4; and long undisturbed runs of every optimiser.  *)
EXTENDS Training, Json, IOUtils, SequencesExt
Thorough == "OPTAX_TIER" \in DOMAIN IOEnv /\ IOEnv.OPTAX_TIER = "thorough"
Depth == IF Thorough THEN 5 ELSE 4
Long == IF Thorough THEN 120 ELSE 60

\* 1/2 (x - a)^2 + 2 (y - b)^2, expanded
Quad(a, b) == << [c |-> "0.5", e |-> <<2, 0>>], [c |-> NNeg(a), e |-> <<1, 0>>], [c |-> NMul("0.5", NMul(a, a)), e |-> <<0, 0>>],
                 [c |-> "2", e |-> <<0, 2>>], [c |-> NMul("-4", b), e |-> <<0, 1>>], [c |-> NMul("2", NMul(b, b)), e |-> <<0, 0>>] >>
\* two examples; their mean is least at (1, -0.5), with value 2.5
Prob == << Quad("2", "0.5"), Quad("0", "-1.5") >>
Best == <<"1", "-0.5">>
L0 == "2.5"
Leaf(x, name) == [sh |-> <<>>, dt |-> "float64", path |-> <<name>>, v |-> <<x>>]
P0 == [td |-> "*", l |-> <<Leaf("3", "w"), Leaf("2", "z")>>]
LP0 == [td |-> "*", l |-> P0.l \o P0.l]
Sgd(lr) == [k |-> "a_sgd", lr |-> lr, momentum |-> <<>>, nesterov |-> FALSE]
Mom9(lr, nest) == [k |-> "a_sgd", lr |-> lr, momentum |-> <<Num("0.9")>>, nesterov |-> nest]
Adam(lr) == [k |-> "a_adam", lr |-> lr, b1 |-> Num("0.9"), b2 |-> Num("0.99"), eps |-> Num("1e-8"), root |-> Num("0")]
Decay(x) == [s |-> "expo", init |-> x, steps |-> 10, rate |-> "0.5", begin |-> 0, stair |-> FALSE, end |-> <<>>]
First == [fn |-> "table", m |-> << [path |-> <<"w">>, sel |-> TRUE], [path |-> <<"z">>, sel |-> FALSE] >>]
Frozen == [fn |-> "table", m |-> << [path |-> <<"w">>, sel |-> FALSE], [path |-> <<"z">>, sel |-> TRUE] >>]
Branching ==
  {Sgd(Num(x)) : x \in {"0.125", "0.25"}} \cup
  {[k |-> "aif", max |-> m, in |-> i] : m \in {1, 9}, i \in {Sgd(Num("0.25")), Mom9(Num("0.125"), FALSE)}} \cup
  {[k |-> "multi", every |-> Num("2"), mean |-> TRUE, in |-> Sgd(Num("0.25"))],
   \* the unselected leaf's gradient is zeroed: it never moves
   [k |-> "chain", m |-> << [k |-> "masked", mask |-> Frozen, in |-> [k |-> "scale", c |-> Num("0")]], Mom9(Num("0.125"), TRUE)>>],
   [k |-> "chain", m |-> << Sgd(Num("0.25")), [k |-> "nonneg"] >>],
   [k |-> "lookahead", period |-> 2, alpha |-> Num("0.5"), reset |-> FALSE, in |-> Sgd(Num("0.25"))],
   Adam(Decay("0.5"))}
LongRuns ==
  {Sgd(Num("0.25")), Sgd(Decay("0.5")), Mom9(Num("0.0625"), FALSE), Mom9(Num("0.0625"), TRUE), Adam(Num("0.2")),
   [k |-> "a_adamw", lr |-> Num("0.2"), b1 |-> Num("0.9"), b2 |-> Num("0.99"), eps |-> Num("1e-8"), root |-> Num("0"), wd |-> Num("1e-4")],
   [k |-> "a_adagrad", lr |-> Num("1"), init |-> Num("0.1"), eps |-> Num("1e-7")],
   [k |-> "a_adabelief", lr |-> Num("0.1"), b1 |-> Num("0.9"), b2 |-> Num("0.99"), eps |-> Num("1e-3")],
   [k |-> "a_radam", lr |-> Num("0.1"), b1 |-> Num("0.9"), b2 |-> Num("0.99"), eps |-> Num("1e-3"), root |-> Num("0"), thr |-> Num("5")],
   [k |-> "a_rmsprop", lr |-> Decay("0.5"), decay |-> Num("0.9"), eps |-> Num("1e-3"), init |-> Num("0.1"), centered |-> FALSE, momentum |-> <<>>, nesterov |-> FALSE],
   [k |-> "a_lamb", lr |-> Decay("0.3"), b1 |-> Num("0.9"), b2 |-> Num("0.99"), eps |-> Num("1e-3"), root |-> Num("0"), wd |-> Num("0")],
   [k |-> "a_sm3", lr |-> Num("0.5"), momentum |-> Num("0.9")],
   [k |-> "multi", every |-> Num("2"), mean |-> TRUE, in |-> Sgd(Num("0.25"))],
   [k |-> "chain", m |-> << [k |-> "cgn", c |-> Num("1")], Sgd(Num("0.25")) >>],
   [k |-> "lookahead", period |-> 3, alpha |-> Num("0.5"), reset |-> TRUE, in |-> Adam(Num("0.2"))],
   [k |-> "chain", m |-> << Sgd(Num("0.25")), [k |-> "nonneg"] >>]}
Start(c) == IF c.k = "lookahead" THEN LP0 ELSE P0

VARIABLES cfg, mode, run, hist
vars == <<cfg, mode, run, hist>>
StepE(b) == [k |-> "step", b |-> b]
Events == {StepE(0), StepE(1), StepE(2), [k |-> "bad", b |-> 1, x |-> "nan"], [k |-> "save"], [k |-> "crash"]}
EventsOf(c) == IF c.k \in {"aif"} THEN Events ELSE {e \in Events : e.k # "bad"}
Init == /\ \/ mode = "branch" /\ cfg \in Branching
           \/ mode = "long" /\ cfg \in LongRuns
        /\ run = TStart(cfg, Start(cfg)) /\ hist = <<>>
Next == /\ run.e = ""
        /\ \/ /\ mode = "branch" /\ Len(hist) < Depth
              /\ \E e \in EventsOf(cfg) : hist' = Append(hist, e) /\ run' = TStep(cfg, Prob, run, e)
           \/ /\ mode = "long" /\ Len(hist) < Long
              /\ LET e == StepE(IF cfg.k = "multi" THEN 1 + (Len(hist) % 2) ELSE 0)
                 IN hist' = Append(hist, e) /\ run' = TStep(cfg, Prob, run, e)
        /\ UNCHANGED <<cfg, mode>>
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
X(p) == Entries(Fast(cfg, p))
N0 == Len(hist)
Close(a, b) == NClose(a, b, "1e-25", "1e-25")
SameX(a, b) == \A j \in 1..Len(a) : Close(a[j], b[j])
Before == TEnd(cfg, Prob, TStart(cfg, Start(cfg)), SubSeq(hist, 1, N0 - 1)).p
LossOf(p) == LossAt(Prob, cfg, p)
LastE == hist[N0]
NoError == run.e = ""
\* gradient descent on the whole batch, with a rate of at most 1/4 = 1 / largest
\* curvature: no step increases the loss, and every coordinate's distance to the
\* minimum contracts by 1 - rate * curvature
IsGd == cfg.k = "a_sgd" /\ cfg.momentum = <<>> /\ cfg.lr.s = "num"
Descends == (IsGd /\ N0 > 0 /\ LastE = StepE(0)) =>
  /\ NLe(LossOf(run.p), LossOf(Before))
  /\ \A j \in 1..2 : Close(NSub(X(run.p)[j], Best[j]),
       NMul(NSub("1", NMul(cfg.lr.v, <<"1", "4">>[j])), NSub(X(Before)[j], Best[j])))
\* the events whose effect survives the crashes
RECURSIVE Effective(_, _, _)
Effective(h, done, kept) ==
  IF h = <<>> THEN done
  ELSE Effective(Tail(h), IF h[1].k = "crash" THEN kept ELSE Append(done, h[1]), IF h[1].k = "save" THEN Append(done, h[1]) ELSE kept)
CrashSafe == mode = "branch" => SameX(Entries(run.p), Entries(TEnd(cfg, Prob, TStart(cfg, Start(cfg)), Effective(hist, <<>>, <<>>)).p))
\* steps with non-finite gradients leave no trace (never more than max in a row here)
Clean(h) == SelectSeq(h, LAMBDA e : e.k # "bad")
FaultsLeaveNoTrace == (cfg.k = "aif" /\ cfg.max = 9) =>
  SameX(X(run.p), X(TEnd(cfg.in, Prob, TStart(cfg.in, P0), Clean(hist)).p))
\* a window with both examples moves as one step on the whole batch
Steps == SelectSeq(Effective(hist, <<>>, <<>>), LAMBDA e : e.k = "step")
Windows == Len(Steps) \div 2
Balanced == \A w \in 1..Windows : {Steps[2 * w - 1].b, Steps[2 * w].b} \in {{1, 2}, {0}}
WholeBatch == (cfg.k = "multi" /\ Len(Steps) % 2 = 0 /\ Balanced) =>
  SameX(X(run.p), X(TEnd(cfg.in, Prob, TStart(cfg.in, P0), [w \in 1..Windows |-> StepE(0)]).p))
\* a frozen parameter stays where it was; others move as without it
FrozenStays == (cfg.k = "chain" /\ cfg.m[1].k = "masked") => X(run.p)[2] = "2"
\* constrained parameters stay feasible
IsNn == cfg.k = "chain" /\ cfg.m[2].k = "nonneg"
Feasible == IsNn => \A j \in 1..2 : ~NLt(X(run.p)[j], "0")
\* every optimiser ends near the minimum (the constrained one near (1, 0))
Gap(p) == NSub(LossOf(p), IF IsNn THEN NAdd(L0, "0.5") ELSE L0)
Reaches == (mode = "long" /\ N0 = Long) => NLe(Gap(run.p), NMul("0.05", Gap(Start(cfg))))
Emit == (mode = "branch" /\ N0 = Depth) \/ (mode = "long" /\ N0 = Long)
          => PrintT("@@PLAN " \o ToJson([cfg |-> cfg, mode |-> mode, h |-> hist]))
=============================================================================
