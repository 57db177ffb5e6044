-------------------------------- MODULE MC_dp ---------------------------------
(* Private aggregation over every batch of a few examples, two steps, with      *)
(* malformed batches in between: sensitivity, order, noise accounting.          *)
EXTENDS Model
Depth == 2
Ex == IF Thorough THEN {<<"0", "0", "0">>, <<"3", "4", "0">>, <<"0.5", "0", "0.25">>, <<"-6", "0", "8">>}
      ELSE {<<"0", "0", "0">>, <<"3", "0", "-4">>, <<"0.5", "0", "0.25">>}
Batches == UNION {[1..B -> Ex] : B \in 1..3}
\* leaves: a vector and a scalar per example
Bat(xs) == Tree(<< [sh |-> <<Len(xs), 2>>, dt |-> "float64", path |-> <<"a">>,
                    v |-> [i \in 1..(2 * Len(xs)) |-> xs[((i - 1) \div 2) + 1][((i - 1) % 2) + 1]]],
                   [sh |-> <<Len(xs)>>, dt |-> "float64", path |-> <<"b">>, v |-> [i \in 1..Len(xs) |-> xs[i][3]]] >>)
Bad == {Tree(<<VecL(<<"1", "2">>, "a"), ScalarL("1", "b")>>),
        Tree(<<ScalarL("1", "a"), VecL(<<"1", "2">>, "b")>>),
        Tree(<<[sh |-> <<2, 2>>, dt |-> "float64", path |-> <<"a">>, v |-> <<"1", "2", "3", "4">>], VecL(<<"1", "2", "3">>, "b")>>)}
P0 == Tree(<<VecL(<<"0", "0">>, "a"), ScalarL("0", "b")>>)
Draws == << Tree(<<VecL(<<"1", "-2">>, "a"), ScalarL("0.5", "b")>>), Tree(<<VecL(<<"0.25", "1">>, "a"), ScalarL("-1", "b")>>) >>
Cfgs == {[k |-> "dp", clip |-> Num(c), mult |-> Num(m), draws |-> Draws] : c \in {"1", "5"}, m \in {"0", "0.5"}}
   \cup {[k |-> "a_dpsgd", clip |-> Num("1"), mult |-> Num(m), draws |-> Draws, lr |-> Num("0.5"),
          momentum |-> <<Num("0.5")>>, nesterov |-> n] : m \in {"0", "0.5"}, n \in {TRUE, FALSE}}
Init == MInit(Cfgs, P0)
\* (the second batch is one of a few)
Next == \/ /\ Len(hist) < Depth
           /\ \E xs \in (IF hist = <<>> THEN Batches ELSE {b \in Batches : Len(b) = 2 /\ b[2] = <<"3", "0", "-4">>}) : MStep(xs, Bat(xs), <<>>)
        \/ /\ hist # <<>> /\ UNCHANGED mvars
           /\ \A u \in Bad : UpdT(cfg, u, st, <<>>).e # ""
Spec == Init /\ [][Next]_mvars

N0 == Len(hist)
C == V(cfg.clip)
Close(a, b) == NClose(a, b, "1e-13", "1e-13")
Norm(x) == NSqrt(NSumSq(x))
Clip(x) == IF NLe(Norm(x), C) THEN x ELSE [j \in 1..3 |-> NDiv(NMul(x[j], C), Norm(x))]
Agg(xs, j) == NDiv(NSum([b \in 1..Len(xs) |-> Clip(xs[b])[j]]), NOfInt(Len(xs)))
Val(n, j) == Entries(outs[n])[j]
Noise(n, j) == NDiv(NMul(NMul(C, V(cfg.mult)), Entries(Draws[n])[j]), NOfInt(Len(hist[n])))
A(n, j) == NAdd(Agg(hist[n], j), Noise(n, j))
Dp == cfg.k = "dp" => \A n \in 1..N0, j \in 1..3 : Close(Val(n, j), A(n, j))
Sgd == cfg.k = "a_dpsgd" => \A n \in 1..N0, j \in 1..3 :
  LET m == IF n = 1 THEN A(1, j) ELSE NAdd(A(2, j), NMul("0.5", A(1, j)))
      d == IF cfg.nesterov THEN NAdd(A(n, j), NMul("0.5", m)) ELSE m
  IN Close(Val(n, j), NNeg(NMul("0.5", d)))
\* no example moves the (noiseless) aggregate by more than clip / B, however
\* large it is; and examples within the bound count in full
Sensitive == (cfg.k = "dp" /\ V(cfg.mult) = "0" /\ N0 = 1) =>
  LET xs == hist[1]
  IN \A b \in 1..Len(xs) :
       LET ys == [xs EXCEPT ![b] = <<"0", "0", "0">>]
           o == UpdT(cfg, Bat(ys), InitT(cfg, P0), <<>>).u
           d == Norm([j \in 1..3 |-> NSub(Val(1, j), Entries(o)[j])])
       IN /\ NLe(d, NAdd(NDiv(C, NOfInt(Len(xs))), "1e-13"))
          /\ Close(NMul(d, NOfInt(Len(xs))), NMin(Norm(xs[b]), C))
Order == (cfg.k = "dp" /\ N0 = 1) =>
  LET xs == hist[1]
      ys == Reverse(xs)
  IN \A j \in 1..3 : Close(Val(1, j), Entries(UpdT(cfg, Bat(ys), InitT(cfg, P0), <<>>).u)[j])
Emit == (N0 = Depth \/ (N0 = 1 /\ V(cfg.mult) = "0")) => EmitPlan([cfg |-> [cfg EXCEPT !.draws = <<>>], h |-> hist])
===============================================================================
