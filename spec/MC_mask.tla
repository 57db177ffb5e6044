------------------------------- MODULE MC_mask -------------------------------
(* masked: every selection of a small nested tree, given leaf by leaf or as  *)
(* a prefix; non-interference between selected and other leaves.             *)
EXTENDS Model
Depth == 2
Inner == [k |-> "probe", a |-> 2, needs |-> TRUE, couple |-> TRUE]
\* {'a': {'x', 'y'}, 'b'}
Leaf(path, x) == [sh |-> <<>>, dt |-> "float64", path |-> path, v |-> <<x>>]
T(x, y, z) == Tree(<<Leaf(<<"a", "x">>, x), Leaf(<<"a", "y">>, y), Leaf(<<"b">>, z)>>)
Sel(path, b) == [path |-> path, sel |-> b]
Masks == {[fn |-> "table", m |-> <<Sel(<<"a", "x">>, i), Sel(<<"a", "y">>, j), Sel(<<"b">>, k)>>] : i, j, k \in BOOLEAN}
    \cup {[fn |-> "table", m |-> <<Sel(<<"a">>, i), Sel(<<"b">>, k)>>] : i, k \in BOOLEAN}
    \cup {[fn |-> "table", m |-> <<Sel(<<>>, i)>>] : i \in BOOLEAN}
Cfgs == {[k |-> "masked", mask |-> m, in |-> Inner] : m \in Masks}
P0 == T("3", "5", "-1")
Vals == {"1", "nan"}
Par(i) == T(NStr(NOfInt(i)), NStr(NOfInt(2 * i)), NStr(NOfInt(i - 3)))
Init == MInit(Cfgs, P0)
Next == /\ Len(hist) < Depth
        /\ \E x, y, z \in Vals : MStep(<<x, y, z>>, T(x, y, z), <<Par(Len(hist) + 1)>>)
Spec == Init /\ [][Next]_mvars

Chosen == {i \in 1..3 : Selected(cfg.mask, P0.l[i])}
Only(t) == [t EXCEPT !.l = SelectSeq(t.l, LAMBDA x : Selected(cfg.mask, x))]
InnerRun == RunT(Inner, InitT(Inner, Only(P0)),
                 [i \in 1..Len(hist) |-> Only(T(hist[i][1], hist[i][2], hist[i][3]))],
                 [i \in 1..Len(hist) |-> <<Only(Par(i))>>])
Outputs ==
  \A i \in 1..Len(hist) :
    /\ Eq(Only(outs[i]), InnerRun.o[i])
    /\ \A j \in 1..3 : j \notin Chosen => outs[i].l[j] = T(hist[i][1], hist[i][2], hist[i][3]).l[j]
\* NaNs in leaves that are not selected never reach the others
NonInterference ==
  \A i \in 1..Len(hist) :
    (\A n \in 1..i : \A j \in Chosen : hist[n][j] = "1") =>
      \A j \in Chosen : NIsFinite(outs[i].l[j].v[1])
Emit == Len(hist) = Depth => EmitPlan([m |-> cfg.mask.m, h |-> hist])
=============================================================================
