------------------------------- MODULE MC_look -------------------------------
(* Lookahead in closed loop: the returned updates are applied to the params. *)
EXTENDS Model
VARIABLES fast, slow       \* sequences of parameter values, index 1 = initial
lvars == <<cfg, st, hist, outs, fast, slow>>
Depth == IF Thorough THEN 9 ELSE 6
Inner == [k |-> "probe", a |-> 2, needs |-> TRUE, couple |-> FALSE]
Cfgs == {[k |-> "lookahead", period |-> n, alpha |-> Num(a), reset |-> r, in |-> Inner] :
           n \in 1..4, a \in {"0", "0.5", "1"}, r \in BOOLEAN}
Grads == {"1", "-2"}
F0 == "3"
S0 == "-1"
Init == MInit(Cfgs, Sc(F0)) /\ fast = <<F0>> /\ slow = <<S0>>
Next ==
  /\ Len(hist) < Depth
  /\ \E x \in Grads :
       LET n == Len(fast)
           r == UpdT(cfg, Sc(x), st, <<Pair(fast[n], slow[n])>>)
       IN /\ MStep(x, Sc(x), <<Pair(fast[n], slow[n])>>)
          /\ fast' = Append(fast, NStr(NAdd(fast[n], r.u.l[1].v[1])))
          /\ slow' = Append(slow, NStr(NAdd(slow[n], r.u.l[2].v[1])))
Spec == Init /\ [][Next]_lvars

IsSync(i) == i % cfg.period = 0
\* the last sync strictly before step i (0: none), where the fast optimiser restarts
Start(i) == cfg.period * ((i - 1) \div cfg.period)
\* fresh inner state at a restart: initialised on the fast params given to that sync step
InnerOut(i) ==
  LET b == IF cfg.reset THEN Start(i) ELSE 0
      p == Sc(IF b = 0 THEN F0 ELSE fast[b])
      q == RunT(Inner, InitT(Inner, p), [j \in 1..(i - b) |-> Sc(hist[b + j])],
                [j \in 1..(i - b) |-> <<Sc(fast[b + j])>>])
  IN q.o[i - b].l[1].v[1]
Steps ==
  \A i \in 1..Len(hist) :
    LET after == NAdd(fast[i], InnerOut(i))
        meet == NAdd(slow[i], NMul(V(cfg.alpha), NSub(after, slow[i])))
    IN IF IsSync(i)
       THEN NEq(fast[i + 1], meet) /\ NEq(slow[i + 1], meet)
       ELSE NEq(fast[i + 1], after) /\ NEq(slow[i + 1], slow[i])
Position == st.j = Len(hist) % cfg.period
Emit == Len(hist) = Depth => EmitPlan([period |-> cfg.period, alpha |-> cfg.alpha.v, reset |-> cfg.reset, h |-> hist])
=============================================================================
