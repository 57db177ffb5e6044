------------------------------- MODULE MC_sge -------------------------------
(* Unbiasedness of the estimators, decided exactly: for polynomials f the     *)
(* expectation over the noise is a Gauss quadrature, and the true gradients   *)
(* of E f follow from the Gaussian moments.                                   *)
EXTENDS Estimators, Json, IOUtils
Thorough == "OPTAX_TIER" \in DOMAIN IOEnv /\ IOEnv.OPTAX_TIER = "thorough"
Exps == {<<1, 0>>, <<0, 1>>, <<2, 0>>, <<1, 1>>, <<0, 3>>, <<2, 1>>, <<2, 2>>, <<4, 0>>}
Mono(e, c) == [c |-> c, e |-> e]
P(ms) == [k |-> "poly", ms |-> ms]
Fs == {P(<<Mono(e, "1")>>) : e \in Exps} \cup {P(<<Mono(e, "2"), Mono(<<1, 0>>, "-1"), Mono(<<0, 0>>, "3"), Mono(<<1, 2>>, "0.5")>>) : e \in {<<0, 2>>, <<3, 0>>, <<1, 1>>}}
      \cup {P(<<Mono(<<0, 0>>, "5")>>), P(<<Mono(<<2, 0>>, "1"), Mono(<<0, 2>>, "2"), Mono(<<1, 1>>, "-1"), Mono(<<0, 0>>, "1")>>)}
Prms == { <<<<"1", "-2">>, <<"0", "0">>>>, <<<<"0.5", "0">>, <<"-0.5", "0.25">>>> } \cup (IF Thorough THEN { <<<<"0", "3">>, <<"0.5", "-1">>>> } ELSE {})
VARIABLES f, prm
vars == <<f, prm>>
Init == f \in Fs /\ prm \in Prms
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Close(a, b) == NClose(a, b, "1e-11", "1e-11")
CloseJ(a, b) == \A j \in 1..2, i \in 1..2 : Close(a[j][i], b[j][i])
R6 == NSqrt("6")
Na == NSqrt(NSub("3", R6))
Nb == NSqrt(NAdd("3", R6))
Nodes == <<Na, NNeg(Na), Nb, NNeg(Nb)>>            \* standard normal, degree 7
Wts == LET a == NDiv(NAdd("3", R6), "12")
           b == NDiv(NSub("3", R6), "12") IN <<a, a, b, b>>
X(a, b) == <<NAdd(prm[1][1], NMul(NExp(prm[2][1]), a)), NAdd(prm[1][2], NMul(NExp(prm[2][2]), b))>>
\* expectation over both coordinates of an operator giving a number
E2(Op(_, _)) == NSum([q \in 1..16 |-> LET i == (q - 1) \div 4 + 1
                                          j == ((q - 1) % 4) + 1
                                      IN NMul(NMul(Wts[i], Wts[j]), Op(Nodes[i], Nodes[j]))])
Exp2(Op(_)) == [j \in 1..2 |-> [i \in 1..2 |-> E2(LAMBDA a, b : Op(X(a, b))[j][i])]]
\* E x^a for x normal, and its derivatives in mean and log-scale
S2(i) == NExp(NMul("2", prm[2][i]))
RECURSIVE Mom(_, _)
Mom(i, a) == IF a = 0 THEN "1" ELSE IF a = 1 THEN prm[1][i]
             ELSE NAdd(NMul(prm[1][i], Mom(i, a - 1)), NMul(NMul(NOfInt(a - 1), S2(i)), Mom(i, a - 2)))
MomD(i, a, j) == IF j = 1 THEN IF a = 0 THEN "0" ELSE NMul(NOfInt(a), Mom(i, a - 1))
                 ELSE IF a < 2 THEN "0" ELSE NMul(S2(i), NMul(NOfInt(a * (a - 1)), Mom(i, a - 2)))
Truth == [j \in 1..2 |-> [i \in 1..2 |-> NSum([k \in 1..Len(f.ms) |->
          LET m == f.ms[k] IN NMul(m.c, NMul(MomD(i, m.e[i], j), Mom(3 - i, m.e[3 - i])))])]]
TrueMean == NSum([k \in 1..Len(f.ms) |-> NMul(f.ms[k].c, NMul(Mom(1, f.ms[k].e[1]), Mom(2, f.ms[k].e[2])))])
Quadrature == Close(E2(LAMBDA a, b : FnAt(f, X(a, b))), TrueMean)
Score == CloseJ(Exp2(LAMBDA x : ScoreEst(f, "normal", prm, x)), Truth)
Path == CloseJ(Exp2(LAMBDA x : PathEst(f, "normal", prm, x)), Truth)
\* measure-valued: the drawn coordinate against the other one's nodes.  The
\* Weibull(2) law: E g(w) = sqrt(pi/2) E[e g(e)] for odd g; the double-sided
\* Maxwell law: E h(m) = E[e^2 h(e)]; uniform: Gauss-Legendre
RtPi2 == "1.2533141373155002512078826424055226265034933703050"
Us == <<"0.5", NSub("0.5", NDiv(NSqrt("15"), "10")), NAdd("0.5", NDiv(NSqrt("15"), "10"))>>
Uw == <<NDiv("4", "9"), NDiv("5", "18"), NDiv("5", "18")>>
Dup(z) == <<z, z>>
Wd(wp, wm, m, n) == [wp |-> Dup(wp), wm |-> Dup(wm), m |-> Dup(m), n |-> Dup(n)]
Mv(x, w) == MvEst(f, prm, x, w)
XOther(i, b) == IF i = 1 THEN X("0", b) ELSE X(b, "0")
MvMean == \A i \in 1..2 : Close(Truth[1][i],
  NSum([q \in 1..16 |-> LET s == (q - 1) \div 4 + 1
                            o == ((q - 1) % 4) + 1
                        IN NMul(NMul(RtPi2, NMul(Wts[s], Nodes[s])), NMul(Wts[o], Mv(XOther(i, Nodes[o]), Wd(Nodes[s], Nodes[s], "0", "0"))[1][i]))]))
MvScale == \A i \in 1..2 : Close(Truth[2][i],
  NSum([q \in 1..48 |-> LET s == (q - 1) \div 12 + 1
                            o == (((q - 1) \div 3) % 4) + 1
                            u == ((q - 1) % 3) + 1
                        IN NMul(NMul(NMul(Wts[s], NMul(Nodes[s], Nodes[s])), Uw[u]),
                                NMul(Wts[o], Mv(XOther(i, Nodes[o]), Wd("0", "0", Nodes[s], NMul(Us[u], Nodes[s])))[2][i]))]))
MvScaleFree == \A i \in 1..2 : Close(Truth[2][i],       \* uncoupled: n is normal
  NSum([q \in 1..64 |-> LET s == (q - 1) \div 16 + 1
                            o == (((q - 1) \div 4) % 4) + 1
                            u == ((q - 1) % 4) + 1
                        IN NMul(NMul(NMul(Wts[s], NMul(Nodes[s], Nodes[s])), Wts[u]),
                                NMul(Wts[o], Mv(XOther(i, Nodes[o]), Wd("0", "0", Nodes[s], Nodes[u]))[2][i]))]))
\* independent draws on the two sides have the expectation of coupled ones
Exchange == LET x == X(Na, Nb)
                a == Mv(x, Wd("1", "2", "0", "0"))[1]
                b == Mv(x, Wd("2", "1", "0", "0"))[1]
                c == Mv(x, Wd("1", "1", "0", "0"))[1]
                d == Mv(x, Wd("2", "2", "0", "0"))[1]
            IN \A i \in 1..2 : Close(NAdd(a[i], b[i]), NAdd(c[i], d[i]))
\* control variates leave the expectation alone, whatever the coefficient, and
\* remove all variance from quadratics
NoW == Wd("0", "0", "0", "0")
Jac(est, cv, c, x) == CvJacobians(est, cv, f, prm, <<x>>, <<NoW>>, "4", <<c, c>>)[1]
CvUnbiased == \A est \in {"score", "path"}, cv \in {"delta", "base"}, c \in {"1", "0.5"} :
                 CloseJ(Exp2(LAMBDA x : Jac(est, cv, c, x)), Truth)
DeltaExpected == /\ Close(E2(LAMBDA a, b : DeltaAt(f, prm, X(a, b))), DeltaMean(f, prm))
                 /\ Close(DeltaAt(f, prm, prm[1]), FnAt(f, prm[1]))
Quadratic == \A k \in 1..Len(f.ms) : f.ms[k].e[1] + f.ms[k].e[2] <= 2
NoVariance == Quadratic =>
  /\ \A a \in {"0.7", "-1.5", "1"}, b \in {"0.3", "-2"} : /\ CloseJ(Jac("path", "delta", "1", X(a, b)), Truth)
                                               /\ CloseJ(Jac("score", "delta", "1", X(a, b)), Truth)
                                               /\ Close(DeltaAt(f, prm, X(a, b)), FnAt(f, X(a, b)))
\* the estimated coefficient is optimal: it minimises the empirical variance
Xs == <<X("0.3", "-1"), X("-1.2", "0.4"), X("1", "2"), X("0.1", "-0.5")>>
OptCoef == \A j \in 1..2 :
  LET ws == <<NoW, NoW, NoW, NoW>>
      c == CvCoefs("score", "base", f, prm, Xs, ws, "2", "0")
      a == [k \in 1..4 |-> ScoreEst(f, "normal", prm, Xs[k])]
      b == [k \in 1..4 |-> ScoreEst(CvPoly("base", f, prm, "2"), "normal", prm, Xs[k])]
      Tot(q) == NSum([i \in 1..2 |-> Var([k \in 1..4 |-> NSub(a[k][j][i], NMul(q, b[k][j][i]))])])
  IN \A h \in {"0.1", "-0.1", "1", "-1"} : NLe(Tot(c[j]), Tot(NAdd(c[j], h)))
Emit == PrintT("@@PLAN " \o ToJson([f |-> f, prm |-> prm]))
===============================================================================
