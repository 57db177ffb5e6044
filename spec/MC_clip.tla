-------------------------------- MODULE MC_clip -------------------------------
(* Element-wise, global-norm and unit-wise clipping of every tree over a small *)
(* lattice, against statements of what clipping means.                         *)
EXTENDS Model
X == IF Thorough THEN {"0", "3", "-4", "1.5"} ELSE {"0", "3", "-4"}
L(sh, v, n) == [sh |-> sh, dt |-> "float64", path |-> <<n>>, v |-> v]
Shapes2 == {<<2>>, <<1, 2>>, <<2, 1>>}
Shapes4 == {<<2, 2>>, <<2, 1, 2>>, <<1, 2, 1, 2>>, <<2, 2, 1, 1>>, <<1, 1, 2, 2>>, <<1, 2, 2>>, <<4>>}
\* two leaves (global norm couples them), or one leaf of rank 0..4
Trees2 == {Tree(<<L(<<2>>, <<a, b>>, "a"), L(<<>>, <<c>>, "b")>>) : a \in X, b \in X, c \in X}
Trees1 == {Tree(<<L(sh, <<a, b>>, "a")>>) : sh \in Shapes2, a \in X, b \in X}
     \cup {Tree(<<L(<<>>, <<a>>, "a")>>) : a \in X}
     \cup {Tree(<<L(sh, <<a, b, c, d>>, "a")>>) : sh \in Shapes4, a \in X, b \in X, c \in X, d \in {"0", "-4"}}
Par(u, q) == [u EXCEPT !.l = [i \in 1..Len(u.l) |-> [u.l[i] EXCEPT !.v = [j \in 1..Len(u.l[i].v) |-> q[((j - 1) % Len(q)) + 1]]]]]
Params == {<<"3", "0.5", "-4", "0">>, <<"0", "0", "0", "0">>}
VARIABLES u, p
cvars == <<cfg, st, hist, outs, u, p>>
Mk(k, c) == [k |-> k, c |-> Num(c)]
Init == /\ \/ /\ cfg \in {Mk("clip", "1"), Mk("clip", "3"), Mk("cgn", "5"), Mk("cgn", "1"), Mk("cgn", "100")}
              /\ u \in Trees2 /\ p = u
           \/ /\ cfg \in {[k |-> "agc", c |-> Num(c), eps |-> Num(e)] : c \in {"0.5", "2"}, e \in {"0.001", "1"}}
              /\ u \in Trees1
              /\ \E q \in Params : p = Par(u, q)
        /\ st = InitT(cfg, p) /\ hist = <<>> /\ outs = <<>>
Next == /\ outs = <<>>
        /\ MStep("x", u, IF cfg.k = "agc" THEN <<p>> ELSE <<>>)
        /\ UNCHANGED <<u, p>>
Spec == Init /\ [][Next]_cvars

Done == outs # <<>>
O == outs[1]
Close(a, b) == NClose(a, b, "1e-13", "1e-13")
LeC(a, b) == NLe(a, NAdd(b, "1e-13"))
C == V(cfg.c)
\* nearest value of the interval
Clip == (cfg.k = "clip" /\ Done) => \A j \in 1..Len(Entries(u)) :
  LET x == Entries(u)[j]
      y == Entries(O)[j]
  IN NLe(NAbs(y), C) /\ \A z \in X : NLe(NAbs(z), C) => NLe(NAbs(NSub(x, y)), NAbs(NSub(x, z)))
Par2(a, b) == \A i, j \in 1..Len(a) : Close(NMul(a[i], b[j]), NMul(a[j], b[i]))
\* the clipped vector: same direction, norm as asked, untouched when below
Clipped(a, b, limit) ==
  LET n == NSqrt(NSumSq(a))
  IN IF NLt(n, limit) THEN a = b
     ELSE /\ Par2(a, b)
          /\ \A j \in 1..Len(a) : NLe("0", NMul(a[j], b[j]))
          /\ Close(NSqrt(NSumSq(b)), limit)
Global == (cfg.k = "cgn" /\ Done) => Clipped(Entries(u), Entries(O), C)
\* units by rank (Brock et al. 2021): fan-in extent
Units(x) ==
  LET all == {1..Len(x.v)}
      byLast(k) == {{j \in 1..Len(x.v) : (j - 1) % k = m} : m \in 0..(k - 1)}
      N == Cardinality({d \in 1..Len(x.sh) : x.sh[d] > 1})
  IN IF N <= 1 THEN all
     ELSE IF Len(x.sh) = 4 THEN byLast(x.sh[4])
     ELSE byLast(Len(x.v) \div x.sh[1])
Pick(v, S) == LET s == SetToSortSeq(S, <) IN [i \in 1..Len(s) |-> v[s[i]]]
Unit == (cfg.k = "agc" /\ Done) => \A S \in Units(u.l[1]) :
  Clipped(Pick(u.l[1].v, S), Pick(O.l[1].v, S), NMul(C, NMax(NSqrt(NSumSq(Pick(p.l[1].v, S))), V(cfg.eps))))
\* the units partition the tensor
Partition == cfg.k = "agc" => UNION Units(u.l[1]) = 1..Len(u.l[1].v)
                              /\ \A S, T \in Units(u.l[1]) : S = T \/ S \cap T = {}
Emit == Done => EmitPlan([cfg |-> cfg, u |-> u, p |-> p])
===============================================================================
