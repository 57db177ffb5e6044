------------------------------- MODULE MC_count -------------------------------
(* Step counters: from init, and from a run that has already made v updates  *)
(* (v up to the largest int32), over every short history.                    *)
EXTENDS Model
VARIABLES start
cvars == <<cfg, st, hist, outs, start>>
Depth == IF Thorough THEN 6 ELSE 4
Far == {0, 5, MaxInt32 - 2, MaxInt32 - 1, MaxInt32}
Pc == [s |-> "pconst", init |-> "2", bs |-> << <<2, "0.5">>, <<6, "3">>, <<MaxInt32 - 1, "0.25">>, <<MaxInt32, "5">> >>]
Flip == [s |-> "table", vs |-> <<"1", "0", "0", "1", "1", "0">>]
Sch(n) == [k |-> "sched", fn |-> Pc, neg |-> n]
Probe == [k |-> "probe", a |-> 2, needs |-> FALSE, couple |-> FALSE]
Cfgs == {Sch(FALSE), Sch(TRUE),
         [k |-> "ema", decay |-> Num("0.5"), debias |-> TRUE, acc |-> ""],
         [k |-> "chain", m |-> <<Sch(FALSE), [k |-> "scale", c |-> Num("3")], Sch(TRUE)>>],
         [k |-> "aif", max |-> 1, in |-> Sch(FALSE)],
         [k |-> "maybe", pred |-> Flip, in |-> Sch(FALSE)],
         [k |-> "multi", every |-> Num("1"), mean |-> TRUE, in |-> Sch(FALSE)],
         [k |-> "multi", every |-> Num("2"), mean |-> FALSE, in |-> Sch(FALSE)],
         [k |-> "inject", in |-> [k |-> "scale", c |-> Num("0")], scheds |-> [c |-> Pc], consts |-> <<>>, names |-> <<"c">>],
         [k |-> "flatten", in |-> Sch(FALSE)]}
Grads == {"1", "nan"}
Init == /\ start \in Far
        /\ cfg \in Cfgs
        /\ st = SetCounts(cfg, InitT(cfg, Sc("7")), start)
        /\ hist = <<>> /\ outs = <<>>
Next == /\ Len(hist) < Depth
        /\ \E x \in (IF cfg.k = "aif" THEN Grads ELSE {"1"}) : MStep(x, Sc(x), <<>>)
        /\ UNCHANGED start
Spec == Init /\ [][Next]_cvars

\* start + n without overflow
At(n) == IF n > MaxInt32 - start THEN MaxInt32 ELSE start + n
F(m) == Sched(Pc, NOfInt(m))
Val(n) == outs[n].l[1].v[1]
N0 == Len(hist)
\* the n-th update uses the count n - 1 (at rest at the largest)
Steps == \A n \in 1..N0 :
  CASE cfg.k \in {"sched", "flatten"} ->
         NEq(Val(n), IF cfg.k = "sched" /\ cfg.neg THEN NNeg(F(At(n - 1))) ELSE F(At(n - 1)))
    [] cfg.k = "chain" -> NEq(Val(n), NMul("-3", NMul(F(At(n - 1)), F(At(n - 1)))))
    [] cfg.k = "inject" -> NEq(Val(n), F(At(n)))
    [] cfg.k = "multi" ->
         IF cfg.every.v = "1" THEN NEq(Val(n), F(At(n - 1)))
         ELSE NEq(Val(n), IF n % 2 = 0 THEN NMul("2", F(At(n \div 2 - 1))) ELSE "0")
    [] cfg.k = "ema" -> start = 0 => NEq(Val(n), "1")
    [] OTHER -> TRUE
Counters ==
  CASE cfg.k \in {"sched", "ema", "inject", "maybe"} -> st.n = At(N0)
    [] cfg.k = "chain" -> st[1].n = At(N0) /\ st[3].n = At(N0)
    [] cfg.k = "multi" -> st.gs = At(IF cfg.every.v = "1" THEN N0 ELSE N0 \div 2)
    [] cfg.k = "aif" -> st.tot = At(Cardinality({i \in 1..N0 : hist[i] = "nan"}))
    [] OTHER -> TRUE
InRange == cfg.k # "chain" => \A x \in {st[f] : f \in DOMAIN st \cap {"n", "gs", "tot", "nf"}} : 0 <= x /\ x <= MaxInt32
Emit == N0 = Depth => EmitPlan([cfg |-> cfg, start |-> start, h |-> hist])
===============================================================================
