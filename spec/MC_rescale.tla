------------------------------- MODULE MC_rescale -----------------------------
(* The stateless rescalings on every tree over a small lattice.                *)
EXTENDS Model
X == IF Thorough THEN {"0", "3", "-4", "0.5"} ELSE {"0", "3", "-4"}
L(sh, v, n) == [sh |-> sh, dt |-> "float64", path |-> <<n>>, v |-> v]
Sh4 == {<<2, 2>>, <<4>>, <<1, 4>>, <<4, 1>>, <<2, 1, 2>>, <<1, 2, 2>>, <<2, 2, 1>>, <<1, 2, 1, 2>>, <<2, 1, 1, 2>>}
Two == {Tree(<<L(<<2>>, <<a, b>>, "a"), L(<<>>, <<c>>, "b")>>) : a \in X, b \in X, c \in X}
Four == {Tree(<<L(sh, <<a, b, c, "1">>, "a")>>) : sh \in Sh4, a \in X, b \in X, c \in X}
ParOf(u, q) == [u EXCEPT !.l = [i \in 1..Len(u.l) |-> [u.l[i] EXCEPT !.v = [j \in 1..Len(u.l[i].v) |-> q[i][j]]]]]
Params == {<< <<"3", "4">>, <<"-2">> >>, << <<"0", "0">>, <<"0.25">> >>, << <<"0", "0.25">>, <<"0">> >>}
VARIABLES u, p
cvars == <<cfg, st, hist, outs, u, p>>
Init == /\ \/ /\ cfg \in {[k |-> "identity"], [k |-> "scale", c |-> Num("-0.5")], [k |-> "scale", c |-> Num("0")],
                          [k |-> "wd", c |-> Num("0.125")], [k |-> "wd", c |-> Num("0")],
                          [k |-> "trust", min |-> Num("0")], [k |-> "trust", min |-> Num("1")]}
              /\ u \in Two /\ \E q \in Params : p = ParOf(u, q)
           \/ /\ cfg = [k |-> "centralize"] /\ u \in Four \cup Two /\ p = u
        /\ st = InitT(cfg, p) /\ hist = <<>> /\ outs = <<>>
Next == /\ outs = <<>>
        /\ MStep("x", u, IF cfg.k \in {"wd", "trust"} THEN <<p>> ELSE <<>>)
        /\ UNCHANGED <<u, p>>
Spec == Init /\ [][Next]_cvars
Done == outs # <<>>
O == outs[1]
Close(a, b) == NClose(a, b, "1e-13", "1e-13")
E(t) == Entries(t)
Rng == 1..Len(E(u))
Linearity == Done =>
  CASE cfg.k = "identity" -> O = u
    [] cfg.k = "scale" -> \A j \in Rng : NEq(E(O)[j], NMul(V(cfg.c), E(u)[j]))
    [] cfg.k = "wd" -> \A j \in Rng : NEq(NSub(E(O)[j], E(u)[j]), NMul(V(cfg.c), E(p)[j]))
    [] OTHER -> TRUE
\* LARS: the norm of every non-zero rescaled update is that of its (non-zero)
\* parameter, both floored; zero norms leave the update alone
Trust == (cfg.k = "trust" /\ Done) => \A i \in 1..Len(u.l) :
  LET un == LeafNorm(u.l[i])
      pn == LeafNorm(p.l[i])
      on == LeafNorm(O.l[i])
      lo == V(cfg.min)
  IN IF NEq(lo, "0")
     THEN Close(on, IF NEq(un, "0") \/ NEq(pn, "0") THEN un ELSE pn)
     ELSE Close(NMul(on, NMax(un, lo)), NMul(un, NMax(pn, lo)))
Direction == (cfg.k = "trust" /\ Done) => \A i \in 1..Len(u.l) : \A a, b \in 1..Len(u.l[i].v) :
  /\ Close(NMul(u.l[i].v[a], O.l[i].v[b]), NMul(u.l[i].v[b], O.l[i].v[a]))
  /\ NLe("0", NMul(u.l[i].v[a], O.l[i].v[a]))
\* centralised tensors have zero mean in every slice of the first axis, the
\* differences inside a slice are kept, vectors and scalars are untouched
Central == (cfg.k = "centralize" /\ Done) => \A i \in 1..Len(u.l) :
  LET x == u.l[i]
      y == O.l[i]
      w == Len(x.v) \div x.sh[1]
  IN IF Len(x.sh) < 2 THEN x = y
     ELSE \A s \in 0..(x.sh[1] - 1) :
            /\ Close(NSum(SubSeq(y.v, s * w + 1, (s + 1) * w)), "0")
            /\ \A a, b \in (s * w + 1)..((s + 1) * w) : Close(NSub(y.v[a], y.v[b]), NSub(x.v[a], x.v[b]))
Emit == Done => EmitPlan([cfg |-> cfg, u |-> u, p |-> p])
===============================================================================
