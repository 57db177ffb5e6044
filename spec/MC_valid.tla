-------------------------------- MODULE MC_valid ------------------------------
(* Settings of the constructors around the edge of what is valid: accepted     *)
(* ones make a schedule that is finite, and free of sign flips, at every count.*)
EXTENDS Model
VARIABLES h, n
CMax == IF Thorough THEN 30 ELSE 16
F == {"1", "0", "0.5", "-0.5", "-1e-9", "nan"}
Bss == {<<>>} \cup {<< <<2, a>> >> : a \in F} \cup {<< <<2, a>>, <<5, b>> >> : a \in F, b \in F} \cup {<< <<1, a>>, <<2, "1">>, <<4, b>> >> : a \in F, b \in {"0.5", "-2"}}
Pcs == {[s |-> "pconst", init |-> "1", bs |-> b] : b \in Bss}
Pis == {[s |-> "pinterp", type |-> t, init |-> "1", bs |-> b] : t \in {"linear", "cosine", "cos", "lin", "", "Linear", "quadratic", "constant"}, b \in Bss}
Cos == {[s |-> "cosine", init |-> "1", steps |-> t, alpha |-> "0.1"] : t \in {-100, -1, 0, 1, 2, 100}}
Lin1 == {[s |-> "lin1c", steps |-> t, b1 |-> 0, b2 |-> 0, p1 |-> "0.3", p2 |-> "0.85", peak |-> "1", div |-> d, fdiv |-> f] :
           t \in {-10, -1, 0, 1, 2, 10, 40}, d \in {"25", "1", "-25"}, f \in {"100", "-4"}}
Cos1 == {[s |-> "cos1c", steps |-> t, b1 |-> 0, p1 |-> "0.3", peak |-> "1", div |-> d, fdiv |-> f] :
           t \in {-10, -1, 0, 1, 2, 10, 40}, d \in {"25", "1", "-25"}, f \in {"100", "-4"}}
WCos == {[s |-> "wcos", init |-> "0", peak |-> "1", warm |-> w, steps |-> t, end |-> "0.1"] : w \in {0, 1, 4, 9}, t \in {-1, 0, 1, 4, 5, 9, 10}}
Cyc(w, t) == [init |-> "0", peak |-> "1", warm |-> w, steps |-> t, end |-> "0.1"]
Sgdrs == {[s |-> "sgdr", cycles |-> <<a, b>>] : a, b \in {Cyc(w, t) : w \in {0, 3}, t \in {0, 3, 4, 6}}}
Joins == {[s |-> "join", parts |-> <<a, b>>, bounds |-> <<3>>] :
            a \in {[s |-> "num", v |-> "1"]} \cup Cos, b \in Cos \cup {[s |-> "pconst", init |-> "1", bs |-> << <<2, "-1">> >>]}}
\* always accepted, whatever the lengths
Free == {[s |-> "poly", init |-> "1", end |-> "0", power |-> "1", steps |-> t, begin |-> b] : t \in {-3, 0, 1, 5}, b \in {-2, 0, 3}}
   \cup {[s |-> "expo", init |-> "1", steps |-> t, rate |-> r, begin |-> b, stair |-> FALSE, end |-> <<>>] : t \in {-3, 0, 1, 5}, r \in {"0", "0.5"}, b \in {-2, 0, 3}}
   \cup {[s |-> "num", v |-> "1"]}
Init == /\ h \in Pcs \cup Pis \cup Cos \cup Lin1 \cup Cos1 \cup WCos \cup Sgdrs \cup Joins \cup Free /\ n = 0
        /\ cfg = <<>> /\ st = <<>> /\ hist = <<>> /\ outs = <<>>
Next == n < CMax /\ ValidSched(h) /\ h.s \notin {"lin1c", "cos1c"} /\ n' = n + 1 /\ UNCHANGED <<h, mvars>>
Spec == Init /\ [][Next]_<<mvars, h, n>>
Finite == (ValidSched(h) /\ h.s \notin {"lin1c", "cos1c"}) => NIsFinite(Sched(h, NOfInt(n)))
NoFlip == (ValidSched(h) /\ h.s \in {"pconst", "pinterp", "cosine", "join", "wcos", "sgdr"}) => NLe("-1e-30", Sched(h, NOfInt(n)))
\* validity of a lookahead around every period
Look(p) == [k |-> "lookahead", period |-> p, alpha |-> [s |-> "num", v |-> "0.5"], reset |-> FALSE, in |-> [k |-> "identity"]]
Periods == \A p \in -3..4 : ValidTx(Look(p)) <=> p >= 1
Emit == n = 0 => EmitPlan([h |-> h, ok |-> ValidSched(h)])
===============================================================================
