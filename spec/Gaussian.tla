------------------------------ MODULE Gaussian ------------------------------
(* The diagonal Gaussian multi_normal(loc, log_scale).  A distribution is a   *)
(* record [msh, m, ssh, s]: shapes and row-major entries of the location and  *)
(* of the log-scale, which broadcast against each other.                      *)
EXTENDS Num
GLast(q) == q[Len(q)]
GFront(q) == SubSeq(q, 1, Len(q) - 1)
RECURSIVE BShape(_, _)
BShape(a, b) ==
  IF a = <<>> THEN b ELSE IF b = <<>> THEN a
  ELSE Append(BShape(GFront(a), GFront(b)), IF GLast(a) = 1 THEN GLast(b) ELSE GLast(a))
RECURSIVE GSize(_)
GSize(sh) == IF sh = <<>> THEN 1 ELSE sh[1] * GSize(Tail(sh))
\* the entry (from 0) of an array of shape a at the position k of shape o
RECURSIVE Src(_, _, _)
Src(k, o, a) ==
  IF a = <<>> THEN 0
  ELSE Src(k \div GLast(o), GFront(o), GFront(a)) * GLast(a) + (IF GLast(a) = 1 THEN 0 ELSE k % GLast(o))
PShape(g) == BShape(g.msh, g.ssh)
PSize(g) == GSize(PShape(g))
Mu(g, j) == g.m[Src(j - 1, PShape(g), g.msh) + 1]
Ls(g, j) == g.s[Src(j - 1, PShape(g), g.ssh) + 1]
\* samples of the standard normals eps (any number of rows)
SampleAt(g, eps) ==
  LET n == PSize(g)
      mu == Force([j \in 1..n |-> Mu(g, j)])
      sc == Force([j \in 1..n |-> NExp(Ls(g, j))])
  IN [k \in 1..Len(eps) |-> LET j == ((k - 1) % n) + 1 IN NAdd(mu[j], NMul(sc[j], eps[k]))]
Z(g, x) == [j \in 1..PSize(g) |-> NDiv(NSub(x[j], Mu(g, j)), NExp(Ls(g, j)))]
HalfLog2Pi == NMul("0.5", NLog("6.2831853071795864769252867665590057683943387987502"))
LogDens(g, x) ==
  LET n == PSize(g)
  IN NSub(NMul("-0.5", NSumSq(Z(g, x))), NAdd(NSum([j \in 1..n |-> Ls(g, j)]), NMul(NOfInt(n), HalfLog2Pi)))
Rows(g, xs) == [r \in 1..(Len(xs) \div PSize(g)) |-> SubSeq(xs, (r - 1) * PSize(g) + 1, r * PSize(g))]
LogDensRows(g, xs) == LET R == Rows(g, xs) IN [r \in 1..Len(R) |-> LogDens(g, R[r])]
\* the score: derivatives of the total log-density by the entries of m and of s
ScoreAt(g, xs) ==
  LET n == PSize(g)
      R == Rows(g, xs)
      zs == Force([r \in 1..Len(R) |-> Force(Z(g, R[r]))])
      over(sh, i, v(_, _)) == NSum([q \in 1..(n * Len(R)) |->
         LET j == ((q - 1) % n) + 1 IN IF Src(j - 1, PShape(g), sh) + 1 = i THEN v(((q - 1) \div n) + 1, j) ELSE "0"])
  IN [i \in 1..Len(g.m) |-> over(g.msh, i, LAMBDA r, j : NDiv(zs[r][j], NExp(Ls(g, j))))]
     \o [i \in 1..Len(g.s) |-> over(g.ssh, i, LAMBDA r, j : NSub(NMul(zs[r][j], zs[r][j]), "1"))]
=============================================================================
