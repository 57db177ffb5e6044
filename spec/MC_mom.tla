-------------------------------- MODULE MC_mom --------------------------------
(* trace and ema over every short history, against their closed forms. *)
EXTENDS Model
Depth == IF Thorough THEN 6 ELSE 4
Ds == {"0", "0.5", "0.9", "1"}
Cfgs == {[k |-> "trace", decay |-> Num(d), nesterov |-> z, acc |-> ""] : d \in Ds, z \in BOOLEAN}
   \cup {[k |-> "ema", decay |-> Num(d), debias |-> z, acc |-> ""] : d \in Ds \ {"1"}, z \in BOOLEAN}
Grads == {"1", "-2", "0"}
Init == MInit(Cfgs, Sc("7"))
Next == /\ Len(hist) < Depth
        /\ \E x \in Grads : MStep(x, Sc(x), <<>>)
Spec == Init /\ [][Next]_mvars

N0 == Len(hist)
D == V(cfg.decay)
\* sum over i of decay^(n-i) * g_i
RECURSIVE Weighted(_, _)
Weighted(n, i) == IF i = 0 THEN "0" ELSE NAdd(Weighted(n, i - 1), NMul(NPow(D, NOfInt(n - i)), hist[i]))
Val(n) == outs[n].l[1].v[1]
TraceSum ==
  cfg.k = "trace" =>
    \A n \in 1..N0 :
      NClose(Val(n), IF cfg.nesterov THEN NAdd(hist[n], NMul(D, Weighted(n, n))) ELSE Weighted(n, n), "1e-30", "1e-30")
EmaSum ==
  cfg.k = "ema" =>
    \A n \in 1..N0 :
      LET m == NMul(NSub("1", D), Weighted(n, n))
      IN NClose(Val(n), IF cfg.debias THEN NDiv(m, NSub("1", NPow(D, NOfInt(n)))) ELSE m, "1e-30", "1e-30")
\* a constant history has a constant debiased average
Constant ==
  (cfg.k = "ema" /\ cfg.debias /\ N0 > 0 /\ \A i \in 1..N0 : hist[i] = hist[1]) => NClose(Val(N0), hist[1], "1e-30", "1e-30")
Count == cfg.k = "ema" => st.n = N0
Emit == N0 = Depth => EmitPlan([cfg |-> cfg, h |-> hist])
===============================================================================
