------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* Tensors and trees.                                                      *)
(*   tensor: [sh |-> shape (Seq(Nat)), dt |-> dtype name,                  *)
(*            v |-> row-major entries (Seq of numbers), path |-> the key   *)
(*            path of the leaf in its tree (Seq(STRING))]                  *)
(*   tree:   [td |-> description of the container structure,               *)
(*            l  |-> leaves in flattening order]                           *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets, TLC

Map1(t, Op(_)) ==
  [t EXCEPT !.v = Force([i \in 1..Len(t.v) |-> Op(t.v[i])])]
Map2(t, b, Op(_, _)) ==
  [t EXCEPT !.v = Force([i \in 1..Len(t.v) |-> Op(t.v[i], b.v[i])])]
Map3(t, b, c, Op(_, _, _)) ==
  [t EXCEPT !.v = Force([i \in 1..Len(t.v) |-> Op(t.v[i], b.v[i], c.v[i])])]

\* leafwise on trees; the first tree gives structure, shape and dtype
TLeaf1(t, Op(_)) == [t EXCEPT !.l = Force([i \in 1..Len(t.l) |-> Op(t.l[i])])]
TLeaf2(t, b, Op(_, _)) ==
  [t EXCEPT !.l = Force([i \in 1..Len(t.l) |-> Op(t.l[i], b.l[i])])]
TMap1(t, Op(_)) == TLeaf1(t, LAMBDA x : Map1(x, Op))
TMap2(t, b, Op(_, _)) == TLeaf2(t, b, LAMBDA x, y : Map2(x, y, Op))
TMap3(t, b, c, Op(_, _, _)) ==
  [t EXCEPT !.l = Force([i \in 1..Len(t.l) |-> Map3(t.l[i], b.l[i], c.l[i], Op)])]

Fill(t, x)  == TMap1(t, LAMBDA e : x)
Zeros(t)    == Fill(t, "0")
TAdd(t, b)  == TMap2(t, b, NAdd)
TSub(t, b)  == TMap2(t, b, NSub)
TScale(c, t) == TMap1(t, LAMBDA e : NMul(c, e))

RECURSIVE ConcatAll(_)
ConcatAll(ss) == IF Len(ss) = 0 THEN <<>>
                 ELSE IF Len(ss) = 1 THEN ss[1]
                 ELSE LET h == Len(ss) \div 2
                      IN ConcatAll(SubSeq(ss, 1, h)) \o ConcatAll(SubSeq(ss, h + 1, Len(ss)))
Entries(t) == ConcatAll([i \in 1..Len(t.l) |-> t.l[i].v])
GlobalNorm(t) == NSqrt(NSumSq(Entries(t)))
LeafNorm(x) == NSqrt(NSumSq(x.v))
AllFinite(t) == \A i \in 1..Len(t.l) : \A j \in 1..Len(t.l[i].v) : NIsFinite(t.l[i].v[j])

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
\* row-major index arithmetic: the coordinates (0-based) of entry i (1-based)
Strides(sh) == [k \in 1..Len(sh) |-> Prod(SubSeq(sh, k + 1, Len(sh)))]
Coord(sh, i, k) == ((i - 1) \div Prod(SubSeq(sh, k + 1, Len(sh)))) % sh[k]

\* indices of the entries of a tensor of shape sh that agree with entry i on
\* the axes in `axes`
Group(sh, i, axes) ==
  {j \in 1..Prod(sh) : \A k \in axes : Coord(sh, j, k) = Coord(sh, i, k)}
\* the same as a sequence (index order)
GroupSeq(sh, i, axes) ==
  SelectSeq([j \in 1..Prod(sh) |-> j],
            LAMBDA j : \A k \in axes : Coord(sh, j, k) = Coord(sh, i, k))

SameStruct(a, b) ==
  /\ a.td = b.td
  /\ Len(a.l) = Len(b.l)
  /\ \A i \in 1..Len(a.l) : a.l[i].sh = b.l[i].sh /\ a.l[i].dt = b.l[i].dt
SameShapes(a, b) ==
  /\ a.td = b.td
  /\ Len(a.l) = Len(b.l)
  /\ \A i \in 1..Len(a.l) : a.l[i].sh = b.l[i].sh

\* numeric closeness of a recorded leaf to the leaf the model computed: rt
\* gives the relative tolerance of a dtype; the absolute one is relative to
\* the largest entry of the expected leaf (with a floor for values that are
\* small by cancellation)
ATol(want, rt) == NMax(NMul(rt[want.dt], NMaxAbs(want.v)), rt.floor[want.dt])
\* (which non-finite value overflowed arithmetic ends in depends on the order
\* of the operations: rt.anynf)
CloseNum(a, b, tol, at, rt) ==
  \/ NClose(a, b, tol, at)
  \/ "anynf" \in DOMAIN rt /\ ~NIsFinite(a) /\ ~NIsFinite(b)
CloseLeaf(got, want, rt) ==
  LET tol == rt[want.dt]
      at == ATol(want, rt)
  IN /\ Len(got.v) = Len(want.v)
     /\ \A j \in 1..Len(want.v) : CloseNum(got.v[j], want.v[j], tol, at, rt)
CloseTree(got, want, rt) ==
  /\ Len(got.l) = Len(want.l)
  /\ \A i \in 1..Len(want.l) : CloseLeaf(got.l[i], want.l[i], rt)
\* first differing entry, for the report
DiffAt(got, want, rt) ==
  IF Len(got.l) # Len(want.l) THEN <<"leaves", Len(got.l), Len(want.l)>>
  ELSE LET i == CHOOSE i \in 1..Len(want.l) : ~CloseLeaf(got.l[i], want.l[i], rt)
           tol == rt[want.l[i].dt]
       IN IF Len(got.l[i].v) # Len(want.l[i].v)
          THEN <<"size", i, Len(got.l[i].v), Len(want.l[i].v)>>
          ELSE LET at == ATol(want.l[i], rt)
                   j == CHOOSE j \in 1..Len(want.l[i].v) :
                          ~CloseNum(got.l[i].v[j], want.l[i].v[j], tol, at, rt)
               IN <<"leaf", i, "entry", j, "got", NStr(got.l[i].v[j]),
                    "want", NStr(want.l[i].v[j])>>
=============================================================================
