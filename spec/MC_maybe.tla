------------------------------ MODULE MC_maybe -------------------------------
(* maybe_update: all predicates over the first calls.                        *)
EXTENDS Model
Depth == IF Thorough THEN 8 ELSE 6
Inner == [k |-> "probe", a |-> 2, needs |-> TRUE, couple |-> FALSE]
Cfgs == {[k |-> "maybe", pred |-> [s |-> "table", vs |-> t], in |-> Inner] : t \in [1..Depth -> {"0", "1"}]}
Value(i) == NStr(NPow("2", NOfInt(i)))
P0 == Sc("3")
Par(i) == Sc(NStr(NOfInt(10 + i)))
Init == MInit(Cfgs, P0)
Next == /\ Len(hist) < Depth
        /\ LET i == Len(hist) + 1 IN MStep(Value(i), Sc(Value(i)), <<Par(i)>>)
Spec == Init /\ [][Next]_mvars

Told(i) == cfg.pred.vs[i] = "1"          \* the i-th call has counter i - 1
Idx == SelectSeq([i \in 1..Len(hist) |-> i], Told)
InnerRun == RunT(Inner, InitT(Inner, P0), [j \in 1..Len(Idx) |-> Sc(hist[Idx[j]])],
                 [j \in 1..Len(Idx) |-> <<Par(Idx[j])>>])
Outputs == \A i \in 1..Len(hist) :
             IF Told(i) THEN Eq(outs[i], InnerRun.o[Cardinality({j \in 1..i : Told(j)})])
             ELSE Eq(outs[i], Sc(hist[i]))
InnerState == Eq(st.in.acc, InnerRun.s.acc) /\ st.in.n = Len(Idx)
Counter == st.n = Len(hist)
Emit == Len(hist) = Depth => EmitPlan([pred |-> cfg.pred.vs, h |-> hist])
=============================================================================
