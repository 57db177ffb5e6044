------------------------------ MODULE MC_loss -------------------------------
(* Losses over a lattice of predictions, targets and settings, judged by laws *)
(* that characterise them independently of their formulas.                    *)
EXTENDS PureFns, Json, IOUtils
Thorough == "OPTAX_TIER" \in DOMAIN IOEnv /\ IOEnv.OPTAX_TIER = "thorough"
E == IF Thorough THEN {"0", "0.5", "-0.5", "1", "-1", "1.5", "-3", "2", "20", "-1000"} ELSE {"0", "0.5", "-1", "1.5", "-3", "20"}
Z == IF Thorough THEN {"0", "1", "-2", "30", "-800", "1e6"} ELSE {"0", "1", "-2", "800"}
Q == {"0", "1", "0.25"}
K == {"0", "2", "-1"}
D == {"0.5", "1", "2"}
VARIABLES fn, x, y, par
vars == <<fn, x, y, par>>
Simplex == {<<"1", "0", "0">>, <<"0", "1", "0">>, <<"0", "0", "1">>, <<"0.25", "0.25", "0.5">>}
V3(S) == {<<a, b, c>> : a \in S, b \in S, c \in S}
NonZero == {v \in V3(K) : v # <<"0", "0", "0">>}
Init == \/ /\ fn = "l2" /\ x \in {<<e>> : e \in E} /\ y \in {<<e>> : e \in E} /\ par = ""
        \/ /\ fn = "huber" /\ x \in {<<e>> : e \in E} /\ y \in {<<"0">>, <<"0.5">>} /\ par \in D
        \/ /\ fn = "sigmoid" /\ x \in {<<e>> : e \in E \cup Z} /\ y \in {<<q>> : q \in Q} /\ par = ""
        \/ /\ fn = "softmax" /\ x \in V3(Z) /\ y \in Simplex /\ par = ""
        \/ /\ fn = "smooth" /\ x \in Simplex /\ y = <<"0", "0", "0">> /\ par \in {"0", "0.1", "1"}
        \/ /\ fn = "cosine" /\ x \in NonZero /\ y \in {<<"1", "2", "0">>, <<"-1", "0", "2">>, <<"0", "0", "-1">>} /\ par \in {"0", "3"}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Close(a, b) == NClose(a, b, "1e-12", "1e-12")
Ev(xx) == IF fn \in {"softmax", "cosine", "smooth"} THEN RowLoss(fn, xx, y, par) ELSE <<ElemLoss(fn, xx[1], y[1], par)>>
G(xx) == IF fn \in {"softmax", "cosine"} THEN RowLoss("d_" \o fn, xx, y, par) ELSE <<ElemLoss("d_" \o fn, xx[1], y[1], par)>>
F(xx) == Ev(xx)[1]
\* convex losses lie above every tangent, so the specified gradient is one
Convex == fn \in {"l2", "huber", "sigmoid", "softmax"} =>
  \A i \in 1..Len(x) : \A t \in {"0", "0.5", "-1", "30"} :
    LET xx == [x EXCEPT ![i] = t]
        lin == NAdd(F(x), NMul(G(x)[i], NSub(t, x[i])))
        slack == NMul("1e-9", NAdd("1", NAdd(NAbs(F(x)), NAdd(NAbs(F(xx)), NAbs(lin)))))
    IN NLe(lin, NAdd(F(xx), slack))
\* huber: the infimal convolution of the l2 and the scaled l1 loss
Huber == fn = "huber" =>
  LET e == NSub(x[1], y[1])
      Cand(z) == NAdd(NMul("0.5", NMul(z, z)), NMul(par, NAbs(NSub(e, z))))
  IN (\A z \in {"0", "0.5", "-0.5", "1", "-1", "2", "-2", "5"} : NLe(F(x), Cand(z))) /\ Close(F(x), Cand(NMax(NNeg(par), NMin(par, e))))
\* the probabilities of the two (of the K) classes sum to one and their odds
\* are the exponential of the logit differences
Sig(q) == SigmoidXent(x[1], q)
Sigmoids == fn = "sigmoid" =>
  /\ Close(NSub(Sig("0"), Sig("1")), x[1])
  /\ Close(NAdd(NExp(NNeg(Sig("0"))), NExp(NNeg(Sig("1")))), "1")
  /\ Close(Sig(y[1]), NAdd(NMul(y[1], Sig("1")), NMul(NSub("1", y[1]), Sig("0"))))
One(i) == [j \in 1..Len(x) |-> IF i = j THEN "1" ELSE "0"]
Ce(i) == SoftmaxXent(x, One(i))
Softmaxes == fn = "softmax" =>
  /\ Close(NSum([i \in 1..3 |-> NExp(NNeg(Ce(i)))]), "1")
  /\ \A i, j \in 1..3 : Close(NSub(Ce(i), Ce(j)), NSub(x[j], x[i]))
  /\ Close(F(x), NSum([i \in 1..3 |-> NMul(y[i], Ce(i))]))
  /\ Close(F(x), F([i \in 1..3 |-> NAdd(x[i], "1000")]))
\* label smoothing mixes with the uniform distribution
Smooths == fn = "smooth" => /\ Close(NSum(Ev(x)), "1")
                            /\ \A i, j \in 1..3 : Close(NSub(Ev(x)[i], Ev(x)[j]), NMul(NSub("1", par), NSub(x[i], x[j])))
\* cosine: bounded, symmetric, dot = cos |x||y|; scaling above the floor is free
Nrm(v) == NSqrt(NSumSq(v))
Cosines == fn = "cosine" =>
  /\ NLe(NAbs(F(x)), "1.0000000000001")
  /\ Close(F(x), RowLoss("cosine", y, x, par)[1])
  /\ par = "0" => /\ Close(NMul(F(x), NMul(Nrm(x), Nrm(y))), NDot(x, y))
                  /\ Close(F(x), F([i \in 1..3 |-> NMul("7", x[i])]))
  /\ par = "3" => Close(NMul(F(x), NMul(NMax("3", Nrm(x)), "3")), NDot(x, y))
\* its gradient: orthogonal to x where the norm counts, and the right change
CosGrad == (fn = "cosine" /\ par = "0") =>
  /\ Close(NDot(G(x), x), "0")
  /\ \A i \in 1..3 : LET h == "1e-6"
                          up == F([x EXCEPT ![i] = NAdd(@, h)])
                          dn == F([x EXCEPT ![i] = NSub(@, h)])
                      IN NClose(NDiv(NSub(up, dn), "2e-6"), G(x)[i], "1e-5", "1e-9")
Emit == PrintT("@@PLAN " \o ToJson([fn |-> fn, x |-> x, y |-> y, par |-> par]))
===============================================================================
