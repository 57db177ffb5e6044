------------------------------ MODULE MC_multi -------------------------------
(* MultiSteps: all window-length schedules over the first gradient steps,    *)
(* mean and sum, histories with at most one non-finite mini-batch.           *)
EXTENDS Model
Depth == IF Thorough THEN 11 ELSE 8
Inner == [k |-> "probe", a |-> 2, needs |-> TRUE, couple |-> FALSE]
Ks == {"1", "2", "3"} \cup (IF Thorough THEN {"4"} ELSE {})
Cfgs == {[k |-> "multi", mean |-> m, every |-> [s |-> "table", vs |-> t], in |-> Inner] :
           m \in BOOLEAN, t \in [1..3 -> Ks]}
Value(i) == NStr(NPow("2", NOfInt(i)))
P0 == Sc("3")
Par(i) == Sc(NStr(NOfInt(10 + i)))      \* the params given at call i
Init == MInit(Cfgs, P0)
Next == /\ Len(hist) < Depth
        /\ LET i == Len(hist) + 1
           IN \E x \in {Value(i)} \cup (IF "nan" \in Range(hist) THEN {} ELSE {"nan"}) :
                MStep(x, Sc(x), <<Par(i)>>)
Spec == Init /\ [][Next]_mvars

K(j) == NToInt(Sched(cfg.every, NOfInt(j)))
RECURSIVE B(_)
B(j) == IF j = 0 THEN 0 ELSE B(j - 1) + K(j - 1)     \* calls in the first j windows
Done(n) == CHOOSE j \in 0..n : B(j) <= n /\ n < B(j + 1)   \* windows completed in n calls
Sum(a, b) == NSum([i \in 1..(b - a + 1) |-> hist[a + i - 1]])
WinInput(j) ==      \* what the inner optimiser must see for window j (0-based)
  Sc(IF cfg.mean THEN NDiv(Sum(B(j) + 1, B(j + 1)), NOfInt(K(j))) ELSE Sum(B(j) + 1, B(j + 1)))
InnerRun(n) == RunT(Inner, InitT(Inner, P0), [j \in 1..n |-> WinInput(j - 1)],
                    [j \in 1..n |-> <<Par(B(j))>>])
Outputs ==
  LET L == Len(hist)
      q == InnerRun(Done(L))
  IN \A i \in 1..L :
       IF \E j \in 1..L : B(j) = i
       THEN Eq(outs[i], q.o[CHOOSE j \in 1..L : B(j) = i])
       ELSE Eq(outs[i], Sc("0"))
InnerState == LET q == InnerRun(Done(Len(hist))) IN st.in.n = q.s.n /\ Eq(st.in.acc, q.s.acc)
Counters == LET d == Done(Len(hist)) IN st.gs = d /\ st.mini = Len(hist) - B(d)
Position == LET o == ObsT(cfg, st) IN
  o[3] = <<"has_updated", B2N(\E j \in 1..Len(hist) : B(j) = Len(hist))>>
Emit == Len(hist) = Depth => EmitPlan([mean |-> cfg.mean, ks |-> cfg.every.vs, h |-> hist])
=============================================================================
