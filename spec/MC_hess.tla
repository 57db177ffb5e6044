------------------------------ MODULE MC_hess -------------------------------
(* Exact second-order diagnostics of polynomial losses f(params, input,       *)
(* target) with two parameters, over every pair of monomials up to a degree.  *)
EXTENDS PureFns, Json, IOUtils
Thorough == "OPTAX_TIER" \in DOMAIN IOEnv /\ IOEnv.OPTAX_TIER = "thorough"
Ex == {e \in [1..4 -> 0..3] : e[1] + e[2] + e[3] + e[4] <= 4 /\ e[1] + e[2] >= 1 /\ e[3] <= 1 /\ e[4] <= 1}
Monos == {[c |-> "1", e |-> e] : e \in Ex}
Seconds == {[c |-> "-2", e |-> <<2, 1, 0, 1>>], [c |-> "0.5", e |-> <<0, 2, 1, 0>>], [c |-> "3", e |-> <<1, 1, 0, 0>>]}
Pts == IF Thorough THEN {"1", "-2", "0", "0.5"} ELSE {"1", "-2", "0"}
Data == << <<"3", "-1">>, <<"0.5", "2">> >>
VARIABLES f, x, v
vars == <<f, x, v>>
Init == /\ \E m \in Monos, s \in Seconds : f = <<m, s>>
        /\ \E a \in Pts, b \in Pts, d \in 1..2 : x = <<a, b>> \o Data[d]
        /\ v \in {<<"1", "0">>, <<"0", "1">>, <<"2", "-1">>}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Close(a, b) == NClose(a, b, "1e-30", "1e-30")
CloseV(a, b) == \A i \in 1..Len(a) : Close(a[i], b[i])
H == HessAt(f, x, 2)
G == GradAt(f, x, 2)
At(t) == PolyAt(f, <<NAdd(x[1], NMul(t, v[1])), NAdd(x[2], NMul(t, v[2])), x[3], x[4]>>)
\* along a line the loss is a polynomial of degree at most four: five-point
\* differences give its first two derivatives exactly
Slope == Close(NDiv(NSum(<<At("-2"), NMul("-8", At("-1")), NMul("8", At("1")), NNeg(At("2"))>>), "12"), NDot(G, v))
Bend == Close(NDiv(NSum(<<NNeg(At("-2")), NMul("16", At("-1")), NMul("-30", At("0")), NMul("16", At("1")), NNeg(At("2"))>>), "12"), NDot(v, HvpAt(f, x, v)))
Symmetric == H[1][2] = H[2][1] \/ Close(H[1][2], H[2][1])
Columns == /\ CloseV(HvpAt(f, x, <<"1", "0">>), MCol(H, 1)) /\ CloseV(HvpAt(f, x, <<"0", "1">>), MCol(H, 2))
           /\ CloseV(HessDiagAt(f, x, 2), <<H[1][1], H[2][2]>>)
Linear == CloseV(HvpAt(f, x, [i \in 1..2 |-> NMul("3", v[i])]), [i \in 1..2 |-> NMul("3", HvpAt(f, x, v)[i])])
Fisher == \A i \in 1..2 : NLe("0", FisherAt(f, x, 2)[i]) /\ Close(NSqrt(FisherAt(f, x, 2)[i]), NAbs(G[i]))
Emit == (v = <<"1", "0">>) => PrintT("@@PLAN " \o ToJson([f |-> f, x |-> x]))
===============================================================================
