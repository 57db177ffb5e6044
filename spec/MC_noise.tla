------------------------------- MODULE MC_noise -------------------------------
(* add_noise over every short history: annealing, and noise that depends on    *)
(* the step alone.                                                             *)
EXTENDS Model
Depth == IF Thorough THEN 4 ELSE 3
In(x) == Pair(x, NNeg(x))
D(n) == Pair(NOfInt(2 * n - 3), NDiv(NOfInt(n), "4"))
Draws == <<D(1), D(2), D(3), D(4)>>
Cfgs == {[k |-> "noise", eta |-> Num(e), gamma |-> Num(g), draws |-> Draws] : e \in {"0", "0.25", "4"}, g \in {"0", "1", "2", "0.55"}}
Init == MInit(Cfgs, In("7"))
Next == /\ Len(hist) < Depth
        /\ \E x \in {"0", "1", "-2", "1000"} : MStep(x, In(x), <<>>)
Spec == Init /\ [][Next]_mvars
N0 == Len(hist)
Added(n, i) == NSub(outs[n].l[i].v[1], In(hist[n]).l[i].v[1])
Sq(x) == NMul(x, x)
\* the squared noise is variance times squared draw; its sign is the draw's
Anneal == \A n \in 1..N0, i \in 1..2 :
  LET z == Draws[n].l[i].v[1]
  IN /\ NClose(NMul(Sq(Added(n, i)), NPow(NOfInt(n), V(cfg.gamma))), NMul(V(cfg.eta), Sq(z)), "1e-12", "0")
     /\ NLe("0", NMul(Added(n, i), z))
Silent == V(cfg.eta) = "0" => \A n \in 1..N0 : Eq(outs[n], In(hist[n]))
Count == st.n = N0
Emit == N0 = Depth => EmitPlan([cfg |-> [cfg EXCEPT !.draws = <<>>], h |-> hist])
===============================================================================
