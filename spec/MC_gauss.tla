------------------------------ MODULE MC_gauss ------------------------------
(* Small diagonal Gaussians with every way of broadcasting: their density is  *)
(* normalised, has the declared moments, factorises, transforms with the      *)
(* samples, and the score is its derivative.                                  *)
EXTENDS Gaussian, Json, IOUtils, TLC
Thorough == "OPTAX_TIER" \in DOMAIN IOEnv /\ IOEnv.OPTAX_TIER = "thorough"
Ms == <<"0.5", "-1.5", "3", "0", "-20", "1">>
Ss == <<"0.3", "-1", "0", "1.2", "-4", "2">>
Shapes == { << <<>>, <<>> >>, << <<1>>, <<>> >>, << <<2>>, <<2>> >>, << <<>>, <<3>> >>, << <<3>>, <<>> >>, << <<2, 1>>, <<2>> >>,
            << <<2>>, <<2, 1>> >>, << <<1, 3>>, <<2, 1>> >>, << <<2, 2>>, <<2>> >>, << <<2>>, <<1>> >>, << <<1, 1>>, <<2>> >>, << <<3>>, <<2, 3>> >> }
Rot(q, k) == SubSeq(q, k, Len(q)) \o SubSeq(q, 1, k - 1)
VARIABLES g, eps
vars == <<g, eps>>
Init == \E sh \in Shapes, a \in 1..6, b \in IF Thorough THEN 1..6 ELSE {1, 4} :
          /\ g = [msh |-> sh[1], m |-> SubSeq(Rot(Ms, a), 1, GSize(sh[1])), ssh |-> sh[2], s |-> SubSeq(Rot(Ss, b), 1, GSize(sh[2]))]
          /\ eps = [k \in 1..(2 * PSize(g)) |-> <<"0.5", "-1.25", "2", "0", "-0.1">>[((k + a) % 5) + 1]]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
n == PSize(g)
X == SampleAt(g, SubSeq(eps, 1, n))
Near(a, b, tol) == NLe(NAbs(NSub(a, b)), NMul(tol, NMax("1", NAbs(b))))
\* one coordinate as a distribution of its own
One(j) == [msh |-> <<>>, m |-> <<Mu(g, j)>>, ssh |-> <<>>, s |-> <<Ls(g, j)>>]
Std(j) == [msh |-> <<>>, m |-> <<"0">>, ssh |-> <<>>, s |-> <<"0">>]
\* moments of a coordinate by the trapezoid rule (exact to far below 1e-12)
Grid == [i \in 1..33 |-> NMul("0.5", NOfInt(i - 17))]
Integral(j, h(_)) == NMul(NMul("0.5", NExp(Ls(g, j))),
   NSum([i \in 1..33 |-> LET x == SampleAt(One(j), <<Grid[i]>>)[1] IN NMul(h(x), NExp(LogDens(One(j), <<x>>)))]))
Normalised == \A j \in 1..n : Near(Integral(j, LAMBDA x : "1"), "1", "1e-12")
MeanIs == \A j \in 1..n : Near(Integral(j, LAMBDA x : x), Mu(g, j), "1e-11")
VarianceIs == \A j \in 1..n : LET v == NExp(NMul("2", Ls(g, j))) IN
  Near(NDiv(Integral(j, LAMBDA x : NMul(NSub(x, Mu(g, j)), NSub(x, Mu(g, j)))), v), "1", "1e-11")
Factorises == Near(LogDens(g, X), NSum([j \in 1..n |-> LogDens(One(j), <<X[j]>>)]), "1e-13")
\* change of variables: samples carry the density of the standard normals
Pushforward == Near(NAdd(LogDens(g, X), NSum([j \in 1..n |-> Ls(g, j)])), NSum([j \in 1..n |-> LogDens(Std(j), <<eps[j]>>)]), "1e-12")
\* the mode is at the location
Mode == LET top == LogDens(g, [j \in 1..n |-> Mu(g, j)]) IN NLe(LogDens(g, X), NAdd(top, "1e-13"))
\* the score by central differences
H == "1e-4"
Move(i, d) == IF i <= Len(g.m) THEN [g EXCEPT !.m[i] = NAdd(@, d)] ELSE [g EXCEPT !.s[i - Len(g.m)] = NAdd(@, d)]
Total(q) == NSum(LogDensRows(q, SampleAt(g, eps)))
ScoreIs == \A i \in 1..(Len(g.m) + Len(g.s)) :
  LET d == IF i <= Len(g.m) THEN NMul(H, NExp(NMin(Ls(g, 1), "-4"))) ELSE H
  IN Near(NDiv(NSub(Total(Move(i, d)), Total(Move(i, NNeg(d)))), NMul("2", d)), ScoreAt(g, SampleAt(g, eps))[i], "1e-5")
\* ... and has mean zero
ScoreMean == \A j \in 1..n : Near(Integral(j, LAMBDA x : NMul(NExp(Ls(g, j)), ScoreAt(One(j), <<x>>)[1])), "0", "1e-11")
                          /\ Near(Integral(j, LAMBDA x : ScoreAt(One(j), <<x>>)[2]), "0", "1e-10")
Emit == PrintT("@@PLAN " \o ToJson([g |-> g, eps |-> eps]))
=============================================================================
