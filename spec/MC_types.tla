-------------------------------- MODULE MC_types ------------------------------
(* Structure, shapes and dtypes along histories of every transformation and    *)
(* wrapper on trees of mixed dtypes; values do not depend on dtype labels.     *)
EXTENDS Model
VARIABLES st64, outs64, init
tvars == <<mvars, st64, outs64, init>>
Depth == IF Thorough THEN 4 ELSE 3
Num1(v) == [s |-> "num", v |-> v]
AdamF == [b1 |-> Num1("0.9"), b2 |-> Num1("0.99"), eps |-> Num1("1e-3"), root |-> Num1("0")]
Wrap(a) == {a, [k |-> "chain", m |-> <<[k |-> "trace", decay |-> Num1("0.9"), nesterov |-> TRUE, acc |-> ""], a>>],
  [k |-> "flatten", in |-> a], [k |-> "aif", max |-> 1, in |-> a],
  [k |-> "multi", every |-> Num1("2"), mean |-> TRUE, in |-> a], [k |-> "multi", every |-> Num1("1"), mean |-> FALSE, in |-> a],
  [k |-> "masked", mask |-> [fn |-> "all"], in |-> a], [k |-> "masked", mask |-> [fn |-> "rank_ne_1"], in |-> a], [k |-> "masked", mask |-> [fn |-> "none"], in |-> a],
  [k |-> "maybe", pred |-> [s |-> "table", vs |-> <<"1", "0", "1">>], in |-> a]}
Inj(a) == [k |-> "inject", scheds |-> [c |-> [s |-> "table", vs |-> <<"0.5", "0.25">>]], consts |-> [x \in {} |-> "0"], names |-> <<"c">>, in |-> a]
Atoms == {[k |-> "identity"], [k |-> "scale", c |-> Num1("3")], [k |-> "clip", c |-> Num1("1")], [k |-> "cgn", c |-> Num1("1")],
  [k |-> "centralize"], [k |-> "zero_nans"], [k |-> "trace", decay |-> Num1("0.9"), nesterov |-> FALSE, acc |-> ""],
  [k |-> "ema", decay |-> Num1("0.9"), debias |-> TRUE, acc |-> ""], [k |-> "rss", init |-> Num1("0.1"), eps |-> Num1("1e-7")],
  [k |-> "rms", decay |-> Num1("0.9"), eps |-> Num1("1e-3"), init |-> Num1("0")], [k |-> "stddev", decay |-> Num1("0.9"), eps |-> Num1("1e-3"), init |-> Num1("0")],
  AdamF @@ [k |-> "adam"], AdamF @@ [k |-> "belief"], AdamF @@ [k |-> "radam", thr |-> Num1("5")], AdamF @@ [k |-> "yogi", init |-> Num1("1e-3"), rule |-> "deviation"], [k |-> "probe", a |-> 2, needs |-> FALSE, couple |-> TRUE], [k |-> "probe", a |-> -1, needs |-> TRUE, couple |-> FALSE],
  [k |-> "sched", fn |-> Num1("2"), neg |-> TRUE], [k |-> "apply_every", every |-> 2], [k |-> "sm3", b1 |-> Num1("0.9"), b2 |-> Num1("1"), eps |-> Num1("1e-8")],
  [k |-> "wd", c |-> Num1("0.1")], [k |-> "trust", min |-> Num1("0")], [k |-> "agc", c |-> Num1("0.1"), eps |-> Num1("1e-3")], [k |-> "nonneg"],
  AdamF @@ [k |-> "a_adamw", lr |-> Num1("0.1"), wd |-> Num1("0.1")], AdamF @@ [k |-> "a_adam", lr |-> Num1("0.1")],
  AdamF @@ [k |-> "a_lamb", lr |-> Num1("0.1"), wd |-> Num1("0.1")], [k |-> "a_fromage", lr |-> Num1("0.1"), min |-> Num1("0")],
  AdamF @@ [k |-> "a_radam", lr |-> Num1("0.1"), thr |-> Num1("5")],
  [k |-> "a_sgd", lr |-> Num1("0.1"), momentum |-> <<>>, nesterov |-> FALSE], [k |-> "a_adagrad", lr |-> Num1("0.1"), init |-> Num1("0.1"), eps |-> Num1("1e-7")],
  [k |-> "a_adabelief", lr |-> Num1("0.1"), b1 |-> Num1("0.9"), b2 |-> Num1("0.9"), eps |-> Num1("1e-3")],
  [k |-> "a_rmsprop", lr |-> Num1("0.1"), decay |-> Num1("0.9"), eps |-> Num1("1e-3"), init |-> Num1("0.1"), centered |-> FALSE, momentum |-> <<>>, nesterov |-> FALSE],
  [k |-> "a_sm3", lr |-> Num1("0.1"), momentum |-> Num1("0.9")]}
Cfgs == UNION {Wrap(a) : a \in Atoms} \cup {Inj([k |-> "wd", c |-> Num1("0.1")]), Inj([k |-> "scale", c |-> Num1("0.1")])}
Lf(sh, dt, name, vs) == [sh |-> sh, dt |-> dt, path |-> <<name>>, v |-> vs]
Mix(x) == [td |-> "*", l |-> <<Lf(<<2, 2>>, "bfloat16", "a", <<x, "-2", "3", "0.5">>), Lf(<<>>, "float32", "b", <<"-4">>),
                               Lf(<<3>>, "float16", "c", <<"0", x, "1">>), Lf(<<1, 2>>, "float64", "d", <<x, "7">>)>>]
As64(t) == TLeaf1(t, LAMBDA y : [y EXCEPT !.dt = "float64"])
P0 == Mix("5")
\* one of the updates is not finite (for the wrapper that drops it)
Ins(c) == IF c.k = "aif" THEN {"-1", "inf"} ELSE {"-1", "0.5"}
Init == /\ cfg \in Cfgs /\ hist = <<>> /\ outs = <<>> /\ outs64 = <<>>
        /\ st = InitT(cfg, P0) /\ init = InitT(cfg, P0) /\ st64 = InitT(cfg, As64(P0))
Next == /\ Len(hist) < Depth
        /\ \E x \in Ins(cfg) :
             /\ MStep(x, Mix(x), <<P0>>)
             /\ LET r == UpdT(cfg, As64(Mix(x)), st64, <<As64(P0)>>) IN st64' = r.s /\ outs64' = Append(outs64, r.u)
        /\ init' = init
Spec == Init /\ [][Next]_tvars
Sig(t) == <<t.td, [i \in 1..Len(t.l) |-> <<t.l[i].sh, t.l[i].dt, t.l[i].path, Len(t.l[i].v)>>]>>
SigS(c, s) == LET ts == StateTrees(c, s) IN [i \in 1..Len(ts) |-> Sig(ts[i])]
Updates == \A i \in 1..Len(outs) : Sig(outs[i]) = Sig(P0)
States == SigS(cfg, st) = SigS(cfg, init)
\* state tensors have the dtypes of the parameters (of their concatenation)
Dts == {"bfloat16", "float32", "float16", "float64"}
StateDts == \A i \in 1..Len(StateTrees(cfg, st)) : \A j \in 1..Len(StateTrees(cfg, st)[i].l) : StateTrees(cfg, st)[i].l[j].dt \in Dts
Counters == Len(ObsT(cfg, st)) = Len(ObsT(cfg, init))
Blind == \A i \in 1..Len(outs) : Eq(As64(outs[i]), outs64[i])
Emit == Len(hist) = 0 => EmitPlan([cfg |-> cfg])
===============================================================================
