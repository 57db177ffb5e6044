----------------------------- MODULE MC_update ------------------------------
(* A training loop with an averaged and a periodically copied parameter      *)
(* vector: every short history of updates, every rate and period.            *)
EXTENDS PureFns, Json, IOUtils
Thorough == "OPTAX_TIER" \in DOMAIN IOEnv /\ IOEnv.OPTAX_TIER = "thorough"
U == {"0", "1", "-0.5"}
Depth == IF Thorough THEN 6 ELSE 4
Vc(xs) == [td |-> "*", l |-> <<[sh |-> <<Len(xs)>>, dt |-> "float64", path |-> <<"x">>, v |-> xs]>>]
P0 == Vc(<<"1", "-2">>)
T0 == Vc(<<"0", "8">>)
VARIABLES tau, per, start, hist, p, avg, slow, past
vars == <<tau, per, start, hist, p, avg, slow, past>>
Init == /\ tau \in {"0", "1", "0.25", "0.5"} /\ per \in 1..3 /\ start \in 0..2
        /\ hist = <<>> /\ p = P0 /\ avg = T0 /\ slow = T0 /\ past = <<>>
N == start + Len(hist)      \* steps made so far
Next == /\ Len(hist) < Depth
        /\ \E u \in U :
             /\ hist' = Append(hist, u)
             /\ p' = ApplyUpdates(p, Vc(<<u, "2">>))
             /\ avg' = Incremental(p', avg, tau)
             /\ slow' = Periodic(p', slow, N + 1, per)
             /\ past' = Append(past, p')
        /\ UNCHANGED <<tau, per, start>>
Spec == Init /\ [][Next]_vars
X(t) == t.l[1].v
n == Len(hist)
Close(a, b) == NClose(a, b, "1e-30", "1e-30")
\* parameters: the initial ones plus every update
Telescopes == /\ Close(X(p)[1], NAdd("1", NSum(hist)))
              /\ Close(X(p)[2], NAdd("-2", NOfInt(2 * n)))
\* averaging: weights tau (1-tau)^(n-i) and (1-tau)^n for the initial value
W(i) == IF i = n THEN tau ELSE NMul(tau, NPow(NSub("1", tau), NOfInt(n - i)))
W0 == IF n = 0 THEN "1" ELSE IF tau = "1" THEN "0" ELSE NPow(NSub("1", tau), NOfInt(n))
Average == \A j \in 1..2 :
  Close(X(avg)[j], NAdd(NMul(W0, X(T0)[j]), NSum([i \in 1..n |-> IF tau = "1" /\ i < n THEN "0" ELSE NMul(W(i), X(past[i])[j])])))
Between(Le(_, _)) == \A j \in 1..2 : Le(X(T0)[j], X(avg)[j]) \/ \E i \in 1..n : Le(X(past[i])[j], X(avg)[j])
Convex == /\ Between(NLe)
          /\ Between(LAMBDA a, b : NLe(b, a))
\* the slow copy is the parameters of the last step divisible by the period
Last == {i \in 1..n : (start + i) % per = 0}
Copy == slow = IF Last = {} THEN T0 ELSE past[CHOOSE i \in Last : \A k \in Last : k <= i]
Done == n = Depth
Emit == Done => PrintT("@@PLAN " \o ToJson([tau |-> tau, per |-> per, start |-> start, h |-> hist]))
===============================================================================
