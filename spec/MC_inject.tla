------------------------------ MODULE MC_inject ------------------------------
(* inject_hyperparams: every interleaving of updates and overwrites of a     *)
(* constant (b2) and of a scheduled (b1) hyperparameter.                     *)
EXTENDS Model
Depth == IF Thorough THEN 6 ELSE 5
Inner == [k |-> "adam", b1 |-> Num("0.9"), b2 |-> Num("0.5"), eps |-> Num("0.125"), root |-> Num("0")]
Table == [s |-> "table", vs |-> <<"0.9", "0.5", "0.25", "0.75">>]
Cfgs == {[k |-> "inject", in |-> Inner, names |-> <<"b1", "b2", "eps">>,
          scheds |-> [b1 |-> Table], consts |-> [b2 |-> "0.5", eps |-> "0.125"]]}
P0 == Sc("1")
Grad(i) == Sc(NStr(NOfInt(2 * i - 3)))
Sets == {"b1", "b2"} \X {"0.25", "0.875"}
Init == MInit(Cfgs, P0)
NUpd == Cardinality({i \in 1..Len(hist) : hist[i] = <<"u", "">>})
Next ==
  /\ Len(hist) < Depth
  /\ \/ MStep(<<"u", "">>, Grad(NUpd + 1), <<>>)
     \/ \E x \in Sets :
          /\ hist' = Append(hist, x)
          /\ st' = DoSetHyper(cfg, st, x[1], x[2]).st
          /\ UNCHANGED <<cfg, outs>>
Spec == Init /\ [][Next]_mvars

UpdPos == SelectSeq([i \in 1..Len(hist) |-> i], LAMBDA i : hist[i] = <<"u", "">>)
\* value of the constant in force at the i-th event
B2At(i) == LET w == {j \in 1..(i - 1) : hist[j][1] = "b2"}
           IN IF w = {} THEN "0.5" ELSE hist[CHOOSE j \in w : \A m \in w : m <= j][2]
Hand(n) == [Inner EXCEPT !.b1 = Num(Sched(Table, NOfInt(n))), !.b2 = Num(B2At(UpdPos[n]))]
RECURSIVE HandRun(_, _)
HandRun(n, s) ==      \* outputs of updates n.. made by hand
  IF n > Len(UpdPos) THEN <<>>
  ELSE LET r == UpdT(Hand(n), Grad(n), s, <<>>) IN <<r.u>> \o HandRun(n + 1, r.s)
Outputs == LET q == HandRun(1, InitT(Inner, P0)) IN \A n \in 1..Len(outs) : Eq(outs[n], q[n])
Reported ==
  LET n == Len(UpdPos) IN
  (n = 0 /\ hist = <<>>) => /\ st.n = 0 /\ st.hp.b1 = "0.9" /\ st.hp.b2 = "0.5"
ReportedAfter ==
  LET n == Len(UpdPos) IN
  (n > 0 /\ hist[Len(hist)] = <<"u", "">>) =>
    /\ st.n = n
    /\ st.hp.b1 = Sched(Table, NOfInt(n)) /\ st.hp.b2 = B2At(Len(hist)) /\ st.hp.eps = "0.125"
Emit == Len(hist) = Depth => EmitPlan([h |-> hist])
=============================================================================
