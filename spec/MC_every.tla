------------------------------ MODULE MC_every -------------------------------
(* apply_every: windows are sums of exactly their own updates.               *)
EXTENDS Model
Depth == IF Thorough THEN 10 ELSE 8
Cfgs == {[k |-> "apply_every", every |-> n] : n \in 1..(IF Thorough THEN 6 ELSE 4)}
Value(i) == NStr(NPow("-3", NOfInt(i)))
Special == {"nan", "inf", "1e300"}
P0 == Sc("3")
Init == MInit(Cfgs, P0)
Next == /\ Len(hist) < Depth
        /\ LET i == Len(hist) + 1
           IN \E x \in {Value(i)} \cup (IF Range(hist) \cap Special = {} THEN Special ELSE {}) :
                MStep(x, Sc(x), <<>>)
Spec == Init /\ [][Next]_mvars
Outputs ==
  \A i \in 1..Len(hist) :
    IF i % cfg.every = 0
    THEN Eq(outs[i], Sc(NSum([j \in 1..cfg.every |-> hist[i - cfg.every + j]])))
    ELSE Eq(outs[i], Sc("0"))
Emit == Len(hist) = Depth => EmitPlan([k |-> cfg.every, h |-> hist])
=============================================================================
