------------------------------- MODULE MC_params ------------------------------
(* Every transformation, alone, in chains and behind every wrapper, updated    *)
(* with and without params.                                                    *)
EXTENDS Model
VARIABLES p1, p2
Num1(v) == [s |-> "num", v |-> v]
AdamF == [b1 |-> Num1("0.9"), b2 |-> Num1("0.99"), eps |-> Num1("1e-3"), root |-> Num1("0")]
Atoms == {[k |-> "identity"], [k |-> "scale", c |-> Num1("3")], [k |-> "clip", c |-> Num1("1")], [k |-> "cgn", c |-> Num1("1")],
  [k |-> "centralize"], [k |-> "zero_nans"], [k |-> "trace", decay |-> Num1("0.9"), nesterov |-> FALSE, acc |-> ""],
  [k |-> "ema", decay |-> Num1("0.9"), debias |-> TRUE, acc |-> ""], [k |-> "rss", init |-> Num1("0.1"), eps |-> Num1("1e-7")],
  [k |-> "rms", decay |-> Num1("0.9"), eps |-> Num1("1e-3"), init |-> Num1("0")], [k |-> "stddev", decay |-> Num1("0.9"), eps |-> Num1("1e-3"), init |-> Num1("0")],
  AdamF @@ [k |-> "adam"], AdamF @@ [k |-> "belief"], AdamF @@ [k |-> "radam", thr |-> Num1("5")],
  [k |-> "sched", fn |-> Num1("2"), neg |-> TRUE], [k |-> "apply_every", every |-> 1], [k |-> "sm3", b1 |-> Num1("0.9"), b2 |-> Num1("1"), eps |-> Num1("1e-8")],
  [k |-> "wd", c |-> Num1("0.1")], [k |-> "trust", min |-> Num1("0")], [k |-> "agc", c |-> Num1("0.1"), eps |-> Num1("1e-3")], [k |-> "nonneg"],
  AdamF @@ [k |-> "a_adamw", lr |-> Num1("0.1"), wd |-> Num1("0.1")], AdamF @@ [k |-> "a_adam", lr |-> Num1("0.1")],
  AdamF @@ [k |-> "a_lamb", lr |-> Num1("0.1"), wd |-> Num1("0.1")], [k |-> "a_fromage", lr |-> Num1("0.1"), min |-> Num1("0")],
  AdamF @@ [k |-> "a_radam", lr |-> Num1("0.1"), thr |-> Num1("5")],
  [k |-> "a_sgd", lr |-> Num1("0.1"), momentum |-> <<>>, nesterov |-> FALSE], [k |-> "a_adagrad", lr |-> Num1("0.1"), init |-> Num1("0.1"), eps |-> Num1("1e-7")],
  [k |-> "a_adabelief", lr |-> Num1("0.1"), b1 |-> Num1("0.9"), b2 |-> Num1("0.9"), eps |-> Num1("1e-3")],
  [k |-> "a_rmsprop", lr |-> Num1("0.1"), decay |-> Num1("0.9"), eps |-> Num1("1e-3"), init |-> Num1("0.1"), centered |-> FALSE, momentum |-> <<>>, nesterov |-> FALSE],
  [k |-> "a_sm3", lr |-> Num1("0.1"), momentum |-> Num1("0.9")]}
\* wrappers; only those reaching the inner transformation at the first update
Wrap(a) == {a, [k |-> "chain", m |-> <<a>>], [k |-> "chain", m |-> <<[k |-> "scale", c |-> Num1("2")], a>>],
  [k |-> "chain", m |-> <<a, [k |-> "trace", decay |-> Num1("0.9"), nesterov |-> FALSE, acc |-> ""]>>],
  [k |-> "flatten", in |-> a], [k |-> "aif", max |-> 3, in |-> a],
  [k |-> "multi", every |-> Num1("1"), mean |-> TRUE, in |-> a],
  [k |-> "masked", mask |-> [fn |-> "all"], in |-> a], [k |-> "masked", mask |-> [fn |-> "rank_ne_1"], in |-> a],
  [k |-> "maybe", pred |-> [s |-> "table", vs |-> <<"1">>], in |-> a]}
Twice == {[k |-> "scale", c |-> Num1("3")], [k |-> "wd", c |-> Num1("0.1")], [k |-> "trust", min |-> Num1("0")], [k |-> "agc", c |-> Num1("0.1"), eps |-> Num1("1e-3")],
          [k |-> "nonneg"], AdamF @@ [k |-> "a_adamw", lr |-> Num1("0.1"), wd |-> Num1("0.1")]}
Injected == {[k |-> "inject", scheds |-> [x \in {} |-> Num1("0")], consts |-> [c |-> "0.1"], names |-> <<"c">>, in |-> a] :
               a \in {[k |-> "wd", c |-> Num1("0.1")], [k |-> "scale", c |-> Num1("0.1")], [k |-> "clip", c |-> Num1("0.1")]}}
Cfgs == UNION {Wrap(a) : a \in Atoms \cup Injected} \cup {c \in UNION {UNION {Wrap(b) : b \in Wrap(a)} : a \in Twice} :
           \* (a flattened tree has no leaf of another rank for the mask to select)
           ~(c.k = "flatten" /\ c.in.k = "masked" /\ c.in.mask.fn = "rank_ne_1")}
W == Tree(<<[sh |-> <<2, 2>>, dt |-> "float64", path |-> <<"a">>, v |-> <<"1", "-2", "3", "0.5">>], ScalarL("-4", "b")>>)
\* W2 - W has every sign, so that no dependence cancels
W2 == Tree(<<[sh |-> <<2, 2>>, dt |-> "float64", path |-> <<"a">>, v |-> <<"0.3", "5", "-7", "0.25">>], ScalarL("2", "b")>>)
G == Tree(<<[sh |-> <<2, 2>>, dt |-> "float64", path |-> <<"a">>, v |-> <<"-2", "1", "0.5", "3">>], ScalarL("-3", "b")>>)
Init == /\ cfg \in Cfgs /\ p1 = W /\ p2 = W2 /\ hist = <<>> /\ outs = <<>> /\ st = InitT(cfg, W)
Next == UNCHANGED <<mvars, p1, p2>>
Spec == Init /\ [][Next]_<<mvars, p1, p2>>
R(p) == UpdT(cfg, G, st, p)
\* params are required exactly where the updates depend on them
Required == NeedsP(cfg) <=> R(<<>>).e # ""
Enough == R(<<p1>>).e = "" /\ R(<<p2>>).e = ""
Depends == NeedsP(cfg) <=> ~Eq(R(<<p1>>).u, R(<<p2>>).u)
Independent == ~NeedsP(cfg) => Eq(R(<<>>).u, R(<<p1>>).u)
Valid == ValidTx(cfg)
Emit == EmitPlan([cfg |-> cfg, needs |-> NeedsP(cfg)])
===============================================================================
