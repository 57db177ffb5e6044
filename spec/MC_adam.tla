------------------------------- MODULE MC_adam --------------------------------
(* The Adam family over every short history, against closed forms. *)
EXTENDS Model
Depth == IF Thorough THEN 6 ELSE 4
P == {<<"0.5", "0.75">>, <<"0.9", "0.5">>, <<"0", "0.9">>}
E == {<<"0.125", "0">>, <<"0.001", "0.25">>}
Mk(k, p, e) == [k |-> k, b1 |-> Num(p[1]), b2 |-> Num(p[2]), eps |-> Num(e[1]), root |-> Num(e[2])]
Cfgs == {Mk("adam", p, e) : p \in P, e \in E}
   \cup {Mk("belief", p, e) : p \in P, e \in E}
   \cup {Mk("yogi", p, e) @@ [init |-> Num("0.5"), rule |-> "paper"] : p \in P, e \in E}
   \cup {Mk("radam", p, e) @@ [thr |-> Num(t)] :
           p \in {<<"0.5", "0.9">>, <<"0.9", "0.99">>, <<"0", "0.5">>}, e \in E, t \in {"5", "4.5"}}
\* radam needs several steps to reach its threshold: after three free steps
\* the gradient is fixed
DepthOf == IF cfg.k = "radam" THEN 8 ELSE Depth
Grads == IF cfg.k = "radam" /\ Len(hist) >= 3 THEN {"0.5"} ELSE {"1", "-2", "0.5"}
Init == MInit(Cfgs, Sc("7"))
Next == /\ Len(hist) < DepthOf
        /\ \E x \in Grads : MStep(x, Sc(x), <<>>)
Spec == Init /\ [][Next]_mvars

N0 == Len(hist)
B1 == V(cfg.b1)
B2 == V(cfg.b2)
Sq(x) == NMul(x, x)
RECURSIVE WSum(_, _, _, _)
WSum(b, xs, n, i) == IF i = 0 THEN "0" ELSE NAdd(WSum(b, xs, n, i - 1), NMul(NPow(b, NOfInt(n - i)), xs[i]))
Avg(b, xs, n) == NMul(NSub("1", b), WSum(b, xs, n, n))
Unbias(b, x, n) == NDiv(x, NSub("1", NPow(b, NOfInt(n))))
Mean(n) == IF n = 0 THEN "0" ELSE Avg(B1, hist, n)
Val(n) == outs[n].l[1].v[1]
Close(a, b) == NClose(a, b, "1e-13", "1e-13")
Step(mh, qh) == NDiv(mh, NAdd(V(cfg.eps), NSqrt(NAdd(V(cfg.root), qh))))
Devs(n) == [i \in 1..n |-> Sq(NSub(hist[i], Mean(i - 1)))]
Squares(n) == [i \in 1..n |-> Sq(hist[i])]
Adam == cfg.k = "adam" =>
  \A n \in 1..N0 : Close(Val(n), Step(Unbias(B1, Mean(n), n), Unbias(B2, Avg(B2, Squares(n), n), n)))
Belief == cfg.k = "belief" =>
  \A n \in 1..N0 : Close(Val(n), Step(Unbias(B1, Mean(n), n), Unbias(B2, Avg(B2, Devs(n), n), n)))
\* yogi: q moves towards g^2 by exactly (1-b2) g^2, never by more
RECURSIVE Yq(_)
Yq(n) == IF n = 0 THEN V(cfg.init)
         ELSE LET q == Yq(n - 1)
                  d == NMul(NSub("1", B2), Sq(hist[n]))
              IN IF NLt(q, Sq(hist[n])) THEN NAdd(q, d) ELSE IF NLt(Sq(hist[n]), q) THEN NSub(q, d) ELSE q
Ym(n) == NAdd(Mean(n), NMul(NPow(B1, NOfInt(n)), V(cfg.init)))
Yogi == cfg.k = "yogi" =>
  \A n \in 1..N0 : Close(Val(n), Step(Unbias(B1, Ym(n), n), Unbias(B2, Yq(n), n)))
\* length of the approximated simple moving average (Liu et al. 2019)
Rho(n) == LET inf == NSub(NDiv("2", NSub("1", B2)), "1")
          IN NSub(inf, NDiv(NMul(NMul("2", NOfInt(n)), NPow(B2, NOfInt(n))), NSub("1", NPow(B2, NOfInt(n)))))
RhoInf == NSub(NDiv("2", NSub("1", B2)), "1")
Rect(n) == NSqrt(NDiv(NMul(NMul(NSub(Rho(n), "4"), NSub(Rho(n), "2")), RhoInf),
                      NMul(NMul(NSub(RhoInf, "4"), NSub(RhoInf, "2")), Rho(n))))
Radam == cfg.k = "radam" =>
  \A n \in 1..N0 :
    LET mh == Unbias(B1, Mean(n), n)
        f == Step(mh, Unbias(B2, Avg(B2, Squares(n), n), n))
    IN Close(Val(n), IF NLe(V(cfg.thr), Rho(n)) THEN NMul(Rect(n), f) ELSE mh)
\* the first step is debiased entirely, and constant gradients give g/(sqrt(g^2 + root) + eps) for ever
Constant == (cfg.k = "adam" /\ N0 > 0 /\ \A i \in 1..N0 : hist[i] = hist[1]) => Close(Val(N0), Step(hist[1], Sq(hist[1])))
\* both regimes of radam occur
Count == st.n = N0
Emit == N0 = DepthOf => EmitPlan([cfg |-> cfg, h |-> hist])
===============================================================================
