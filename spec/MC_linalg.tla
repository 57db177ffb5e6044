----------------------------- MODULE MC_linalg ------------------------------
(* Symmetric positive matrices with exactly known spectra: A = Q diag(d) Q^T  *)
(* with rational rotations Q.  Powers, inverse roots and dominant pairs.      *)
EXTENDS PureFns, Json, IOUtils
Thorough == "OPTAX_TIER" \in DOMAIN IOEnv /\ IOEnv.OPTAX_TIER = "thorough"
T(a) == NDiv(a, "3")
Qs == << << <<"0.6", "-0.8">>, <<"0.8", "0.6">> >>,
         << <<"1", "0">>, <<"0", "1">> >>,
         << <<"0", "1">>, <<"1", "0">> >>,
         << <<T("1"), T("2"), T("2")>>, <<T("2"), T("1"), T("-2")>>, <<T("2"), T("-2"), T("1")>> >>,
         << <<"0.6", "0", "-0.8">>, <<"0", "1", "0">>, <<"0.8", "0", "0.6">> >>,
         << <<"1">> >>,
         << <<"0.5", "0.5", "0.5", "0.5">>, <<"0.5", "-0.5", "0.5", "-0.5">>, <<"0.5", "0.5", "-0.5", "-0.5">>, <<"0.5", "-0.5", "-0.5", "0.5">> >> >>
Ds == << <<"4", "1", "0.5", "2">>, <<"1", "16", "2", "0.25">>, <<"9", "3", "1", "1">>, <<"1", "1", "1", "1">>, <<"0.5", "20", "4", "1">>, <<"100", "7", "30", "11">>, <<"0.01", "0.03", "0.002", "0.01">> >>
Ps == IF Thorough THEN 1..9 ELSE {1, 2, 3, 4, 5, 8}
VARIABLES q, d, p
vars == <<q, d, p>>
Init == q \in 1..Len(Qs) /\ d \in 1..Len(Ds) /\ p \in Ps
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Q == Qs[q]
n == Len(Q)
D == SubSeq(Ds[d], 1, n)
Transp(a) == [i \in 1..Len(a) |-> MCol(a, i)]
Conj(e) == MMul([i \in 1..n |-> [j \in 1..n |-> NMul(Q[i][j], e[j])]], Transp(Q))
A == Conj(D)
Root == Conj([i \in 1..n |-> NPow(D[i], NDiv("-1", NOfInt(p)))])
CloseM(a, b) == NLt(MaxDev(MFlat(a), MFlat(b)), "1e-12")
Orthogonal == CloseM(MMul(Q, Transp(Q)), MId(n))
\* the inverse root: its p-th power times A is the identity; it commutes
Inverse == CloseM(MMul(MPow(Root, p), A), MId(n))
Commutes == CloseM(MMul(Root, A), MMul(A, Root)) /\ CloseM(Root, Transp(Root))
Powers == CloseM(MMul(MPow(A, p), A), MPow(A, p + 1))
\* the dominant pair
RECURSIVE MaxOf(_)
MaxOf(s) == IF Len(s) = 1 THEN s[1] ELSE NMax(s[1], MaxOf(Tail(s)))
Lam == MaxOf(D)
Top == CHOOSE i \in 1..n : NEq(D[i], Lam)
Vtop == MCol(Q, Top)
Eigen == NLt(MaxDev(MVec(A, Vtop), [i \in 1..n |-> NMul(Lam, Vtop[i])]), "1e-12")
Dominates == \A i, j \in 1..n : LET x == [k \in 1..n |-> IF k = i THEN "1" ELSE IF k = j THEN "-2" ELSE "0.5"]
                                IN NLe(NDot(x, MVec(A, x)), NMul(NMul(Lam, NSumSq(x)), "1.000000001"))
\* well separated: every other eigenvalue at most 0.6 of it
Separated == \A i \in 1..n : i = Top \/ NLe(D[i], NMul("0.6", Lam))
\* the norm bounded below: continuous, convex along lines, gradient by differences
Xs == << <<"3", "4">>, <<"0", "0">>, <<"0.3", "-0.4">>, <<"1e-9", "0">>, <<"-2", "1e5">> >>
Bs == <<"0", "0.5", "5", "1e-12">>
Bounded ==
  \A i \in 1..Len(Xs), j \in 1..Len(Bs) :
    LET x == Xs[i]
        m == Bs[j]
        nx == SafeNorm(x, m)
        g == SafeNormGrad(x, m)
    IN /\ NLe(m, nx) /\ NLe(VNorm(x), nx)
       /\ \A k \in 1..Len(g) : NIsFinite(g[k])
       /\ NLe(NSumSq(g), "1.0000000001")
       \* subgradient inequality
       /\ \A k \in 1..Len(Xs) : LET df == [e \in 1..2 |-> NSub(Xs[k][e], x[e])]
                                 IN NLe(NAdd(nx, NDot(g, df)), NMul(NAdd(SafeNorm(Xs[k], m), "1e-12"), "1.0000000001"))
Emit == PrintT("@@PLAN " \o ToJson([p |-> p, a |-> [i \in 1..n |-> [j \in 1..n |-> NStr(A[i][j])]],
                                    root |-> [i \in 1..n |-> [j \in 1..n |-> NStr(Root[i][j])]],
                                    lam |-> NStr(Lam), v |-> [i \in 1..n |-> NStr(Vtop[i])], sep |-> Separated]))
===============================================================================
