------------------------------- MODULE MC_aif --------------------------------
(* apply_if_finite over every history of finite and non-finite updates.      *)
EXTENDS Model
Depth == IF Thorough THEN 7 ELSE 6
Inner == [k |-> "probe", a |-> 2, needs |-> FALSE, couple |-> FALSE]
Cfgs == {[k |-> "aif", max |-> m, in |-> Inner] : m \in 0..(IF Thorough THEN 4 ELSE 3)}
Alphabet == {"1", "-2", "nan"}
P0 == Sc("3")
Init == MInit(Cfgs, P0)
Next == Len(hist) < Depth /\ \E x \in Alphabet : MStep(x, Sc(x), <<>>)
Spec == Init /\ [][Next]_mvars

Fin(i) == NIsFinite(hist[i])
\* length of the run of non-finite updates ending at i
Run(i) == Cardinality({j \in 1..i : \A m \in j..i : ~Fin(m)})
Applied(i) == Fin(i) \/ Run(i) > cfg.max
AppliedSeq == SelectSeq([i \in 1..Len(hist) |-> i], Applied)
InnerRun == LET us == [i \in 1..Len(AppliedSeq) |-> Sc(hist[AppliedSeq[i]])]
            IN RunT(Inner, InitT(Inner, P0), us, [i \in 1..Len(us) |-> <<>>])

Outputs ==
  \A i \in 1..Len(hist) :
    IF Applied(i)
    THEN Eq(outs[i], InnerRun.o[Cardinality({j \in 1..i : Applied(j)})])
    ELSE Eq(outs[i], Sc("0"))
InnerState == st.in = InnerRun.s \/ ~AllFinite(st.in.acc)
Counters ==
  hist # <<>> =>
    /\ st.nf = Run(Len(hist))
    /\ st.tot = Cardinality({i \in 1..Len(hist) : ~Fin(i)})
    /\ st.lf = Fin(Len(hist))
\* consequences users rely on
Dropped == \A i \in 1..Len(hist) :
             (cfg.max > 0 /\ \A j \in 1..Len(hist) : Run(j) <= cfg.max) =>
               AllFinite(outs[i])
Emit == Len(hist) = Depth => EmitPlan([max |-> cfg.max, h |-> hist])
=============================================================================
