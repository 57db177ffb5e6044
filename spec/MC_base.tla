------------------------------ MODULE MC_base -------------------------------
(* The moving-average baseline over every short history of batch means.       *)
EXTENDS Estimators, Json, IOUtils
Thorough == "OPTAX_TIER" \in DOMAIN IOEnv /\ IOEnv.OPTAX_TIER = "thorough"
M == {"0", "2", "-5"}
Depth == IF Thorough THEN 6 ELSE 4
VARIABLES decay, deb, heur, hist, b
vars == <<decay, deb, heur, hist, b>>
Init == /\ decay \in {"0.5", "0.125", "0.99"} /\ deb \in BOOLEAN /\ heur \in BOOLEAN
        /\ hist = <<>> /\ b = [v |-> "0", i |-> 0]
Next == /\ Len(hist) < Depth
        /\ \E m \in M : hist' = Append(hist, m) /\ b' = BaselineStep(b, m, decay, deb, heur)
        /\ UNCHANGED <<decay, deb, heur>>
Spec == Init /\ [][Next]_vars
n == Len(hist)
Close(x, y) == NClose(x, y, "1e-25", "1e-25")
Counts == b.i = n
\* without the early-training heuristic: the exponential average, divided by
\* its total weight when debiased
Raw == NSum([j \in 1..n |-> NMul(NMul(NSub("1", decay), NPow(decay, NOfInt(n - j))), hist[j])])
Average == (~heur /\ n > 0) => Close(b.v, IF deb THEN NDiv(Raw, NSub("1", NPow(decay, NOfInt(n)))) ELSE Raw)
\* constant functions have constant baselines; averages stay inside the range
Constant == (deb /\ n > 0 /\ \A j \in 1..n : hist[j] = hist[1]) => Close(b.v, hist[1])
Inside(Le(_, _)) == \E j \in 1..n : Le(hist[j], b.v) \/ Close(hist[j], b.v)
Range0 == (deb /\ n > 0) => Inside(NLe) /\ Inside(LAMBDA x, y : NLe(y, x))
First == n = 1 => Close(b.v, IF deb THEN hist[1] ELSE NMul(IF heur THEN NSub("1", NMin(decay, "0.1")) ELSE NSub("1", decay), hist[1]))
Emit == n = Depth => PrintT("@@PLAN " \o ToJson([decay |-> decay, deb |-> deb, heur |-> heur, h |-> hist]))
===============================================================================
