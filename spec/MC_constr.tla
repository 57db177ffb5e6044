------------------------------- MODULE MC_constr ------------------------------
(* The constraints along histories: parameters are moved by the updates         *)
(* returned (nonneg), NaNs come and go (zero_nans).                             *)
EXTENDS Model
Depth == IF Thorough THEN 4 ELSE 3
VARIABLES par
kvars == <<cfg, st, hist, outs, par>>
In(x) == Tree(<<VecL(<<x[1], x[2]>>, "a"), ScalarL(x[3], "b")>>)
NnIn == {<<"1", "-2", "0.5">>, <<"-3", "0", "-0.5">>, <<"-inf", "nan", "-0.25">>, <<"0", "-1", "inf">>}
ZnIn == {<<"1", "nan", "2">>, <<"nan", "inf", "nan">>, <<"-inf", "0", "nan">>, <<"1", "-2", "3">>}
Init == /\ cfg \in {[k |-> "nonneg"], [k |-> "zero_nans"]}
        /\ par = In(<<"2", "1", "0">>) /\ hist = <<>> /\ outs = <<>>
        /\ st = InitT(cfg, In(<<"2", "1", "0">>))
Next == /\ Len(hist) < Depth
        /\ \E x \in (IF cfg.k = "nonneg" THEN NnIn ELSE ZnIn) :
             /\ MStep(x, In(x), IF cfg.k = "nonneg" THEN <<par>> ELSE <<>>)
             /\ par' = IF cfg.k = "nonneg" THEN TAdd(par, UpdT(cfg, In(x), st, <<par>>).u) ELSE par
Spec == Init /\ [][Next]_kvars

N0 == Len(hist)
Val(n, j) == Entries(outs[n])[j]
\* parameters that start non-negative stay so (NaN is not negative)
NonNeg == cfg.k = "nonneg" => \A j \in 1..3 : ~NLt(Entries(par)[j], "0")
RECURSIVE P(_, _)      \* the parameter before update n+1
P(n, j) == IF n = 0 THEN <<"2", "1", "0">>[j] ELSE NAdd(P(n - 1, j), Val(n, j))
Exact == cfg.k = "nonneg" => \A n \in 1..N0, j \in 1..3 :
  LET q == P(n - 1, j)
      x == hist[n][j]
  IN IF NLt(NAdd(q, x), "0") THEN NEq(NAdd(q, Val(n, j)), "0") ELSE NClose(Val(n, j), x, "0", "0")
Nans == cfg.k = "zero_nans" => \A n \in 1..N0, j \in 1..3 :
  IF hist[n][j] = "nan" THEN NEq(Val(n, j), "0") ELSE Val(n, j) = hist[n][j]
Flags == cfg.k = "zero_nans" =>
  LET obs == ObsT(cfg, st)
      seen(S) == N0 > 0 /\ \E j \in S : hist[N0][j] = "nan"
  IN obs = << <<"found_nan", B2N(seen({1, 2}))>>, <<"found_nan", B2N(seen({3}))>> >>
Emit == N0 = Depth => EmitPlan([cfg |-> cfg, h |-> hist])
===============================================================================
