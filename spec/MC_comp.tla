------------------------------- MODULE MC_comp -------------------------------
(* The composite schedules on a grid of settings, for every step count in a  *)
(* window.                                                                   *)
EXTENDS Model
VARIABLES h, n
CMax == IF Thorough THEN 40 ELSE 26
L(a, b, k) == Lin(a, b, k)
C(v) == [s |-> "num", v |-> v]
Parts == {C("1"), C("-3"), L("0", "1", 4), [s |-> "cosine", init |-> "2", steps |-> 5, alpha |-> "0.5"]}
Joins == {[s |-> "join", parts |-> <<a, b>>, bounds |-> <<k>>] : a, b \in Parts, k \in {0, 1, 5}}
    \cup {[s |-> "join", parts |-> <<a, b, c>>, bounds |-> k] : a, b, c \in Parts, k \in {<<2, 3>>, <<4, 9>>, <<3, 3>>}}
    \cup {[s |-> "join", parts |-> <<a>>, bounds |-> <<>>] : a \in Parts}
WCos == {[s |-> "wcos", init |-> a, peak |-> p, warm |-> w, steps |-> t, end |-> e] :
           a \in {"0", "0.5"}, p \in {"1", "2"}, w \in {0, 1, 4}, t \in {5, 9}, e \in {"0", "0.25"}}
WExp == {[s |-> "wexp", init |-> a, peak |-> p, warm |-> w, steps |-> t, rate |-> r, begin |-> b, stair |-> z, end |-> e] :
           a \in {"0", "0.5"}, p \in {"1"}, w \in {0, 1, 4}, t \in {2, 5}, r \in {"0.5", "2"}, b \in {0, 3}, z \in BOOLEAN,
           e \in {<<>>, <<"0.25">>, <<"3">>}}
Cyc(w, t, p) == [init |-> "0", peak |-> p, warm |-> w, steps |-> t, end |-> "0.25"]
Sgdrs == {[s |-> "sgdr", cycles |-> c] :
           c \in UNION {[1..m -> {Cyc(0, 3, "1"), Cyc(2, 5, "2"), Cyc(3, 8, "0.5")}] : m \in 1..3}}
Bs == {<<>>, << <<0, "0.5">> >>, << <<1, "2">> >>, << <<2, "0.5">>, <<5, "0">> >>, << <<3, "0.1">>, <<4, "3">>, <<9, "0.5">> >>,
       << <<0, "2">>, <<4, "0.5">> >>}
Pis == {[s |-> "pinterp", type |-> t, init |-> a, bs |-> b] : t \in {"linear", "cosine"}, a \in {"1", "-2"}, b \in Bs}
Lin1 == {[s |-> "lin1c", steps |-> x[1], b1 |-> x[2], b2 |-> x[3], p1 |-> x[4], p2 |-> x[5], peak |-> p, div |-> d, fdiv |-> f] :
           x \in {<<10, 3, 8, "0.3", "0.85">>, <<20, 6, 17, "0.3", "0.85">>, <<8, 4, 6, "0.5", "0.75">>, <<10, 0, 5, "0", "0.5">>}, p \in {"1", "0.2"}, d \in {"25", "4"}, f \in {"100", "10000"}}
Cos1 == {[s |-> "cos1c", steps |-> x[1], b1 |-> x[2], p1 |-> x[3], peak |-> p, div |-> d, fdiv |-> f] :
           x \in {<<10, 3, "0.3">>, <<20, 6, "0.3">>, <<8, 4, "0.5">>, <<7, 0, "0">>}, p \in {"1", "0.2"}, d \in {"25", "4"}, f \in {"100", "10000"}}
Init == /\ h \in Joins \cup WCos \cup WExp \cup Sgdrs \cup Pis \cup Lin1 \cup Cos1 /\ n = 0
        /\ cfg = <<>> /\ st = <<>> /\ hist = <<>> /\ outs = <<>>
Next == n < CMax /\ n' = n + 1 /\ UNCHANGED <<h, mvars>>
Spec == Init /\ [][Next]_<<mvars, h, n>>

X(k) == Sched(h, NOfInt(k))
Close(a, b) == NClose(a, b, "1e-13", "1e-13")
Between(x, a, b) == NLe(NMin(a, b), NAdd(x, "1e-13")) /\ NLe(NSub(x, "1e-13"), NMax(a, b))
JoinLaw ==
  h.s = "join" =>
    LET k == Cardinality({j \in 1..Len(h.bounds) : h.bounds[j] <= n})
    IN X(n) = Sched(h.parts[k + 1], NOfInt(n - IF k = 0 THEN 0 ELSE h.bounds[k]))
Warm ==
  h.s \in {"wcos", "wexp"} =>
    /\ (n = 0 /\ h.warm > 0) => X(0) = h.init
    /\ n < h.warm => Close(X(n), NAdd(h.init, NMul(NSub(h.peak, h.init), NDiv(NOfInt(n), NOfInt(h.warm)))))
    /\ (n = h.warm /\ (h.s = "wcos" \/ h.end = <<>>)) => Close(X(n), h.peak)
    /\ (h.s = "wcos" /\ n >= h.steps) => Close(X(n), h.end)
    /\ (h.s = "wexp" /\ h.end = <<>> /\ n = h.warm + h.begin + h.steps) => Close(X(n), NMul(h.peak, h.rate))
    /\ (h.s = "wcos" /\ n >= h.warm) => Between(X(n), h.peak, h.end)
Restart ==
  h.s = "sgdr" =>
    LET T(k) == SumSteps(h.cycles, k)
        K == Len(h.cycles)
    IN /\ \A k \in 0..(K - 1) : (T(k) <= n /\ n < T(k + 1)) =>
            X(n) = Sched([s |-> "wcos"] @@ h.cycles[k + 1], NOfInt(n - T(k)))
       /\ n >= T(K) => Close(X(n), h.cycles[K].end)
Through ==      \* passes through the cumulative product at every boundary
  h.s = "pinterp" =>
    /\ \A k \in 1..Len(h.bs) : (n = h.bs[k][1] /\ \A j \in 1..Len(h.bs) : h.bs[j][1] = n => j <= k) => Close(X(n), PiAt(h.bs, h.init, k))
    /\ (n = 0 /\ (h.bs = <<>> \/ h.bs[1][1] > 0)) => Close(X(n), h.init)
    /\ (h.bs = <<>> \/ n >= h.bs[Len(h.bs)][1]) => Close(X(n), PiAt(h.bs, h.init, Len(h.bs)))
    /\ \A k \in 1..(Len(h.bs) - 1) : (h.bs[k][1] <= n /\ n < h.bs[k + 1][1]) => Between(X(n), PiAt(h.bs, h.init, k), PiAt(h.bs, h.init, k + 1))
OneCycle ==
  h.s \in {"lin1c", "cos1c"} =>
    LET start == NDiv(h.peak, h.div) IN
    /\ (n = 0 /\ h.b1 > 0) => Close(X(0), start)
    /\ n = h.b1 => Close(X(n), h.peak)
    /\ (h.s = "lin1c" /\ n = h.b2) => Close(X(n), start)
    /\ n >= h.steps => Close(X(n), NDiv(start, h.fdiv))
    /\ NLe(X(n), NAdd(h.peak, "1e-13"))
Emit == n = 0 => EmitPlan([h |-> h, cmax |-> CMax])
=============================================================================
