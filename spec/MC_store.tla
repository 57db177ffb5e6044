------------------------------ MODULE MC_store -------------------------------
(* Several sessions, checkpoints and restores over one transformation: each  *)
(* slot is a function of its own lineage, whatever else was called.          *)
EXTENDS Model
VARIABLES store, line      \* line[d]: the inputs that led to slot d
svars == <<cfg, hist, store, line, st, outs>>
Depth == IF Thorough THEN 5 ELSE 4
Slots == 1..2
Cfgs == {[k |-> "probe", a |-> 2, needs |-> FALSE, couple |-> FALSE]}
P0 == Sc("3")
None == [none |-> TRUE]
Init == /\ cfg \in Cfgs /\ hist = <<>> /\ outs = <<>> /\ st = <<>>
        /\ store = [d \in Slots |-> None] /\ line = [d \in Slots |-> <<>>]
Live(s) == store[s] # None
Put(d, x, o, ln) ==
  /\ store' = [store EXCEPT ![d] = x] /\ line' = [line EXCEPT ![d] = ln]
  /\ outs' = Append(outs, o) /\ UNCHANGED <<cfg, st>>
Next ==
  /\ Len(hist) < Depth
  /\ \E d \in Slots :
     \/ /\ hist' = Append(hist, <<"init", 0, d>>)
        /\ Put(d, DoInit(cfg, P0).st, <<>>, <<>>)
     \/ \E s \in Slots : Live(s) /\
        \/ LET u == NStr(NOfInt(Len(line[s]) + 2))    \* depends on the session, not on the time
               r == DoUpdate(cfg, store[s], Sc(u), <<>>)
           IN /\ hist' = Append(hist, <<"upd", s, d>>)
              /\ Put(d, r.st, r.u, Append(line[s], u))
        \/ /\ hist' = Append(hist, <<"restore", s, d>>)
           /\ Put(d, DoRestore(store[s]).st, <<>>, line[s])
Spec == Init /\ [][Next]_svars

Lineage(ln) == RunT(cfg, InitT(cfg, P0), [i \in 1..Len(ln) |-> Sc(ln[i])], [i \in 1..Len(ln) |-> <<>>])
FunctionOfLineage == \A d \in Slots : Live(d) => store[d] = Lineage(line[d]).s
Emit == Len(hist) = Depth => EmitPlan([h |-> hist])
=============================================================================
