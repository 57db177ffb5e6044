------------------------------- MODULE MC_sched ------------------------------
(* The basic schedules on a grid of settings, for every step count in a      *)
(* window: endpoints, monotonicity, bounds, per-period factors.              *)
EXTENDS Model
VARIABLES h, n
CMax == IF Thorough THEN 24 ELSE 14
Ints(a, b) == a..b
Vals == {"1", "0.25", "-2"}
Polys == {[s |-> "poly", init |-> a, end |-> e, power |-> p, steps |-> t, begin |-> b] :
            a \in Vals, e \in {"0", "0.5", "3"}, p \in {"1", "2", "0.5"}, t \in {-1, 0, 1, 4, 7}, b \in {-2, 0, 3}}
Expos == {[s |-> "expo", init |-> a, steps |-> t, rate |-> r, begin |-> b, stair |-> z, end |-> e] :
            a \in {"1", "0.25"}, t \in {0, 1, 3}, r \in {"0", "0.5", "0.9", "2"}, b \in {-1, 0, 2}, z \in BOOLEAN,
            e \in {<<>>, <<"0.125">>, <<"4">>}}
Cosines == {[s |-> "cosine", init |-> a, steps |-> t, alpha |-> f] : a \in Vals, t \in {1, 4, 9}, f \in {"0", "0.25", "1"}}
Bs == {<<>>, << <<0, "0.5">> >>, << <<1, "2">> >>, << <<2, "0.5">>, <<5, "0">> >>, << <<3, "0.1">>, <<4, "3">>, <<9, "0.5">> >>}
Pcs == {[s |-> "pconst", init |-> a, bs |-> b] : a \in Vals, b \in Bs}
Consts == {[s |-> "num", v |-> a] : a \in Vals}
Init == /\ h \in Polys \cup Expos \cup Cosines \cup Pcs \cup Consts /\ n = 0
        /\ cfg = <<>> /\ st = <<>> /\ hist = <<>> /\ outs = <<>>
Next == n < CMax /\ n' = n + 1 /\ UNCHANGED <<h, mvars>>
Spec == Init /\ [][Next]_<<mvars, h, n>>

X(k) == Sched(h, NOfInt(k))
Close(a, b) == NClose(a, b, "1e-13", "1e-13")
Between(x, a, b) == NLe(NMin(a, b), NAdd(x, "1e-13")) /\ NLe(NSub(x, "1e-13"), NMax(a, b))
Beg == IF h.begin < 0 THEN 0 ELSE h.begin
PolyLaw ==
  h.s = "poly" =>
    /\ (h.steps <= 0 \/ n <= Beg) => X(n) = h.init
    /\ (h.steps > 0 /\ n >= Beg + h.steps) => NEq(X(n), h.end)
    /\ Between(X(n), h.init, h.end)
    /\ Between(X(n), X(n + 1), h.init)      \* monotone towards the end value
    /\ (h.power = "1" /\ h.steps > 0 /\ n > Beg /\ n < Beg + h.steps) => Close(NSub(X(n + 1), X(n)), NSub(X(n), X(n - 1)))
ExpoLaw ==
  h.s = "expo" =>
    LET free(k) == h.end = <<>> \/ ~Close(X(k), h.end[1])
        off == h.steps <= 0 \/ h.rate = "0"
    IN /\ (off \/ (h.end = <<>> /\ n <= Beg)) => X(n) = h.init
       /\ (~off /\ n >= Beg /\ h.end = <<>>) => Close(X(n + h.steps), NMul(h.rate, X(n)))
       /\ (~off /\ n >= Beg /\ h.stair /\ (n - Beg) % h.steps # 0) => Close(X(n), X(n - 1))
       /\ (~off /\ h.end # <<>>) => IF NLt(h.rate, "1") THEN NLe(h.end[1], X(n)) ELSE NLe(X(n), h.end[1])
       /\ NLt(h.rate, "1") => NLe(X(n + 1), NAdd(X(n), "1e-13"))
CosLaw ==
  h.s = "cosine" =>
    /\ X(0) = h.init \/ Close(X(0), h.init)
    /\ n >= h.steps => Close(X(n), NMul(h.init, h.alpha))
    /\ Between(X(n), X(n + 1), h.init)
    /\ n <= h.steps => Close(NAdd(X(n), X(h.steps - n)), NMul(h.init, NAdd("1", h.alpha)))   \* symmetry of the half cosine
PcLaw ==
  h.s = "pconst" =>
    LET past == SelectSeq(h.bs, LAMBDA b : b[1] <= n)
    IN NEq(X(n), FoldLeft(LAMBDA a, b : NMul(a, b[2]), h.init, past))
ConLaw == h.s = "num" => X(n) = h.v
Emit == n = 0 => EmitPlan([h |-> h, cmax |-> CMax])
=============================================================================
