------------------------------- MODULE MC_alias -------------------------------
(* The named optimisers over every short history, against closed forms of the *)
(* whole history (independent of how Transforms.tla composes them).            *)
EXTENDS Model
Depth == IF Thorough THEN 4 ELSE 3
In(x) == Tree(<<VecL(<<x[1], x[2]>>, "w"), ScalarL(x[3], "b")>>)
P0 == <<"3", "-4", "0">>
Grads == {<<"1", "-2", "3">>, <<"0", "0.5", "0">>, <<"-2", "1", "1">>}
Table == [s |-> "table", vs |-> <<"0.5", "2", "0.25", "1">>]
Lrs == {Num("0.5"), Table}
MomOpts == {[m |-> <<>>, n |-> FALSE], [m |-> <<Num("0.5")>>, n |-> FALSE], [m |-> <<Num("0.5")>>, n |-> TRUE]}
AF == [b1 |-> Num("0.5"), b2 |-> Num("0.75"), eps |-> Num("0.125"), root |-> Num("0.25")]
Draws == <<In(<<"1", "0.5", "-1">>), In(<<"-2", "0.25", "1.5">>), In(<<"0.75", "-1", "3">>), In(<<"1", "1", "0.5">>)>>
Cfgs ==
  {[k |-> "a_sgd", lr |-> l, momentum |-> o.m, nesterov |-> o.n] : l \in Lrs, o \in MomOpts}
  \cup {AF @@ [k |-> "a_adam", lr |-> l] : l \in Lrs}
  \cup {AF @@ [k |-> "a_adamw", lr |-> l, wd |-> Num(w)] : l \in Lrs, w \in {"0.125", "0"}}
  \cup {[k |-> "a_adagrad", lr |-> l, init |-> Num("0.5"), eps |-> Num("0.25")] : l \in Lrs}
  \cup {[k |-> "a_adabelief", lr |-> l, b1 |-> Num("0.5"), b2 |-> Num("0.75"), eps |-> Num("0.125")] : l \in Lrs}
  \cup {[k |-> "a_radam", thr |-> Num("5"), lr |-> l] @@ AF : l \in Lrs}
  \cup {[k |-> "a_rmsprop", lr |-> l, decay |-> Num("0.5"), eps |-> Num("0.25"), init |-> Num("0.5"),
         centered |-> c, momentum |-> o.m, nesterov |-> o.n] : l \in Lrs, c \in BOOLEAN, o \in MomOpts}
  \cup {AF @@ [k |-> "a_lamb", lr |-> l, wd |-> Num(w)] : l \in Lrs, w \in {"0.125", "0"}}
  \cup {[k |-> "a_fromage", lr |-> Num("0.5"), min |-> Num(m)] : m \in {"0", "2"}}
  \cup {[k |-> "a_sm3", lr |-> Num("0.5"), momentum |-> Num(m)] : m \in {"0.5", "0"}}
  \cup {[k |-> "a_noisy_sgd", lr |-> l, eta |-> Num("0.25"), gamma |-> Num("1"), draws |-> Draws] : l \in Lrs}
Init == MInit(Cfgs, In(P0))
Next == /\ Len(hist) < Depth
        /\ \E x \in Grads : MStep(x, In(x), <<In(P0)>>)
Spec == Init /\ [][Next]_mvars

N0 == Len(hist)
Sq(x) == NMul(x, x)
G(i, j) == hist[i][j]
Val(n, j) == (outs[n].l[1].v \o outs[n].l[2].v)[j]
Close(a, b) == NClose(a, b, "1e-13", "1e-13")
Lr(n) == IF cfg.lr.s = "num" THEN cfg.lr.v ELSE cfg.lr.vs[n]
\* sum over i <= n of d^(n-i) F(i)
RECURSIVE Dec(_, _, _)
Dec(d, F(_), n) == IF n = 0 THEN "0" ELSE NAdd(NMul(d, Dec(d, F, n - 1)), F(n))
Avg(d, F(_), n) == NMul(NSub("1", d), Dec(d, F, n))
Unb(d, F(_), n) == NDiv(Avg(d, F, n), NSub("1", NPow(d, NOfInt(n))))
\* momentum of the sequence X as documented: plain, heavy ball or Nesterov
Moms(X(_), n) == IF cfg.momentum = <<>> THEN X(n)
                 ELSE LET d == cfg.momentum[1].v
                          M == Dec(d, X, n)
                      IN IF cfg.nesterov THEN NAdd(X(n), NMul(d, M)) ELSE M
AdamDir(n, j) ==
  LET g(i) == G(i, j)
      q(i) == Sq(G(i, j))
  IN NDiv(Unb(V(cfg.b1), g, n), NAdd(V(cfg.eps), NSqrt(NAdd(V(cfg.root), Unb(V(cfg.b2), q, n)))))
Leaf(j) == IF j <= 2 THEN {1, 2} ELSE {3}
NormOf(F(_), j) == IF j <= 2 THEN NSqrt(NAdd(Sq(F(1)), Sq(F(2)))) ELSE NAbs(F(3))
Ratio(F(_), j, lo) ==
  LET par(i) == P0[i]
      a == NMax(NormOf(par, j), lo)
      b == NMax(NormOf(F, j), lo)
  IN IF NEq(a, "0") \/ NEq(b, "0") THEN "1" ELSE NDiv(a, b)
Sum2(n, j) == LET q(i) == Sq(G(i, j)) IN Dec("1", q, n)
Dir(n, j) ==      \* the direction stepped along, minus learning rate times it
  LET g(i) == G(i, j)
  IN CASE cfg.k = "a_sgd" -> Moms(g, n)
       [] cfg.k = "a_adam" -> AdamDir(n, j)
       [] cfg.k = "a_adamw" -> NAdd(AdamDir(n, j), NMul(V(cfg.wd), P0[j]))
       [] cfg.k = "a_adagrad" -> NDiv(G(n, j), NSqrt(NAdd(NAdd(V(cfg.init), Sum2(n, j)), V(cfg.eps))))
       [] cfg.k = "a_adabelief" ->
            LET dv(i) == Sq(NSub(G(i, j), Avg(V(cfg.b1), g, i - 1)))
            IN NDiv(Unb(V(cfg.b1), g, n), NAdd(V(cfg.eps), NSqrt(NAdd("1e-16", Unb(V(cfg.b2), dv, n)))))
       \* with b2 = 3/4 the length never reaches 5: only the first moment
       [] cfg.k = "a_radam" -> Unb(V(cfg.b1), g, n)
       [] cfg.k = "a_lamb" ->
            LET a(i) == NAdd(AdamDir(n, i), NMul(V(cfg.wd), P0[i])) IN NMul(Ratio(a, j, "0"), a(j))
       [] cfg.k = "a_noisy_sgd" ->
            LET z == (Draws[n].l[1].v \o Draws[n].l[2].v)[j]
            IN NAdd(G(n, j), NMul(NSqrt(NDiv(V(cfg.eta), NOfInt(n))), z))
       [] cfg.k = "a_sm3" ->
            LET p(i) == IF NEq(Sum2(i, j), "0") THEN "0" ELSE NDiv(G(i, j), NSqrt(NAdd(Sum2(i, j), "1e-8")))
            IN Avg(V(cfg.momentum), p, n)
Plain == cfg.k \notin {"a_rmsprop", "a_fromage"}
Law == Plain => \A n \in 1..N0, j \in 1..3 : Close(Val(n, j), NNeg(NMul(Lr(n), Dir(n, j))))
\* rmsprop accumulates momentum over the steps (learning rate included)
Rms == cfg.k = "a_rmsprop" => \A n \in 1..N0, j \in 1..3 :
  LET g(i) == G(i, j)
      q(i) == Sq(G(i, j))
      d == V(cfg.decay)
      var(i) == NAdd(NSub(NAdd(NMul(NPow(d, NOfInt(i)), V(cfg.init)), Avg(d, q, i)),
                          IF cfg.centered THEN Sq(Avg(d, g, i)) ELSE "0"), V(cfg.eps))
      x(i) == NNeg(NMul(Lr(i), NDiv(G(i, j), NSqrt(var(i)))))
  IN Close(Val(n, j), Moms(x, n))
\* fromage: the new params are (p - lr |p|/|g| g) / sqrt(1 + lr^2)
From == cfg.k = "a_fromage" => \A n \in 1..N0, j \in 1..3 :
  LET g(i) == G(n, i)
      u == NMul(Ratio(g, j, V(cfg.min)), G(n, j))
  IN Close(NAdd(P0[j], Val(n, j)), NDiv(NSub(P0[j], NMul(Lr(n), u)), NSqrt(NAdd("1", Sq(Lr(n))))))
\* lamb moves every non-zero layer by exactly lr times its norm
Lamb == cfg.k = "a_lamb" => \A n \in 1..N0 :
  LET w(i) == Val(n, i) IN NEq(NormOf(w, 1), "0") \/ Close(NormOf(w, 1), NMul(Lr(n), "5"))
\* multiplying the learning rate multiplies the step (all but fromage), and the
\* step is opposite to the direction: with a positive rate it never ascends
Emit == N0 = Depth => EmitPlan([cfg |-> [cfg EXCEPT !.k = @], h |-> hist])
===============================================================================
