------------------------------- MODULE MC_flat -------------------------------
(* flatten: every small tree of vectors, a transformation coupling all       *)
(* entries and one that acts by entry.                                       *)
EXTENDS Model
Depth == 2
Sizes == {0, 1, 2, 3}
Inners == {[k |-> "probe", a |-> 2, needs |-> n, couple |-> TRUE] : n \in BOOLEAN}
     \cup {[k |-> "probe", a |-> 2, needs |-> FALSE, couple |-> FALSE], [k |-> "cgn", c |-> Num("1")]}
Cfgs == {[k |-> "flatten", in |-> i, sizes |-> z] : i \in Inners, z \in UNION {[1..n -> Sizes] : n \in 1..3}}
VecAt(n, off, name) == VecL([i \in 1..n |-> NStr(NOfInt((off + i) * (off + i) - 3))], name)
RECURSIVE Off(_, _)
Off(z, i) == IF i = 1 THEN 0 ELSE Off(z, i - 1) + z[i - 1]
Big(z, d) == Tree([i \in 1..Len(z) |-> VecAt(z[i], d + Off(z, i), "x")])
Whole(z, d) == Tree(<<VecAt(Off(z, Len(z)) + z[Len(z)], d, "x")>>)
Init == \E c \in {c \in Cfgs : \E i \in DOMAIN c.sizes : c.sizes[i] > 0} :
          /\ cfg = c /\ st = InitT(c, Big(c.sizes, 1)) /\ hist = <<>> /\ outs = <<>>
Next == Len(hist) < Depth /\ MStep("u", Big(cfg.sizes, 5 + Len(hist)), <<Big(cfg.sizes, Len(hist))>>)
Spec == Init /\ [][Next]_mvars
InnerRun == RunT(cfg.in, InitT(cfg.in, Whole(cfg.sizes, 1)),
                 [i \in 1..Len(hist) |-> Whole(cfg.sizes, 4 + i)], [i \in 1..Len(hist) |-> <<Whole(cfg.sizes, i - 1)>>])
Outputs == \A i \in 1..Len(hist) :
             /\ SameShapes(outs[i], Big(cfg.sizes, 1))
             /\ Eq(FlatTree(outs[i]), InnerRun.o[i])
\* without coupling, flattening is invisible
Transparent ==
  (cfg.in.k = "probe" /\ ~cfg.in.couple) =>
    LET q == RunT(cfg.in, InitT(cfg.in, Big(cfg.sizes, 1)),
                  [i \in 1..Len(hist) |-> Big(cfg.sizes, 4 + i)], [i \in 1..Len(hist) |-> <<Big(cfg.sizes, i - 1)>>])
    IN \A i \in 1..Len(hist) : Eq(outs[i], q.o[i])
Emit == Len(hist) = Depth => EmitPlan([sizes |-> cfg.sizes, in |-> cfg.in])
=============================================================================
