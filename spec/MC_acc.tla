-------------------------------- MODULE MC_acc --------------------------------
(* rss, rms, stddev and sm3 over every short history. *)
EXTENDS Model
Depth == IF Thorough THEN 5 ELSE 3
\* tensors of two entries: a vector, a column, and a 2x2 matrix with entries (x, y, y, 0)
Shapes == {"vec", "mat", "scalar"}
VARIABLES shape
avars == <<cfg, st, hist, outs, shape>>
In(s, x) == Tree(<<[sh |-> CASE s = "vec" -> <<2>> [] s = "mat" -> <<2, 2>> [] s = "scalar" -> <<>>,
                    dt |-> "float64", path |-> <<>>,
                    v |-> CASE s = "vec" -> <<x[1], x[2]>> [] s = "mat" -> <<x[1], x[2], x[2], "0">> [] s = "scalar" -> <<x[1]>>]>>)
Cfgs == {[k |-> "rss", init |-> Num(i), eps |-> Num(e)] : i \in {"0", "0.5"}, e \in {"0.25"}}
   \cup {[k |-> "rms", decay |-> Num(d), eps |-> Num("0.25"), init |-> Num(i)] : d \in {"0.5", "0.9"}, i \in {"0", "0.5"}}
   \cup {[k |-> "stddev", decay |-> Num(d), eps |-> Num("0.25"), init |-> Num(i)] : d \in {"0.5", "0.9"}, i \in {"0", "0.5"}}
   \cup {[k |-> "sm3", b1 |-> Num(b), b2 |-> Num(c), eps |-> Num("0.25")] : b \in {"0", "0.5"}, c \in {"1", "0.5"}}
Grads == {<<"1", "-2">>, <<"0", "0.5">>, <<"3", "0">>}
Init == /\ shape \in Shapes /\ cfg \in Cfgs /\ hist = <<>> /\ outs = <<>>
        /\ st = InitT(cfg, In(shape, <<"7", "7">>))
Next == /\ Len(hist) < Depth
        /\ \E x \in Grads : MStep(x, In(shape, x), <<>>)
        /\ UNCHANGED shape
Spec == Init /\ [][Next]_avars

N0 == Len(hist)
Sq(x) == NMul(x, x)
Size == Len(st.q.l[1].v)
G(i, j) == In(shape, hist[i]).l[1].v[j]
Val(n, j) == outs[n].l[1].v[j]
Close(a, b) == NClose(a, b, "1e-13", "1e-13")
RECURSIVE SumSq(_, _)
SumSq(n, j) == IF n = 0 THEN "0" ELSE NAdd(SumSq(n - 1, j), Sq(G(n, j)))
RECURSIVE Wt(_, _, _, _)     \* sum of d^(n-i) * g_i^p
Wt(d, p, n, j) == IF n = 0 THEN "0" ELSE NAdd(NMul(d, Wt(d, p, n - 1, j)), IF p = 1 THEN G(n, j) ELSE Sq(G(n, j)))
Cases == \A n \in 1..N0 : \A j \in 1..Size :
  CASE cfg.k = "rss" ->
         LET s == NAdd(V(cfg.init), SumSq(n, j))
         IN Close(Val(n, j), IF NEq(s, "0") THEN "0" ELSE NDiv(G(n, j), NSqrt(NAdd(s, V(cfg.eps)))))
    [] cfg.k \in {"rms", "stddev"} ->
         LET d == V(cfg.decay)
             q == NAdd(NMul(NPow(d, NOfInt(n)), V(cfg.init)), NMul(NSub("1", d), Wt(d, 2, n, j)))
             m == IF cfg.k = "rms" THEN "0" ELSE NMul(NSub("1", d), Wt(d, 1, n, j))
         IN Close(Val(n, j), NDiv(G(n, j), NSqrt(NAdd(NSub(q, Sq(m)), V(cfg.eps)))))
    [] OTHER -> TRUE
\* SM3-II (Anil et al. 2019, Algorithm 2): the preconditioner of an entry is at
\* least the sum of its squared gradients, and at most the minimum over its
\* axes of the running maxima plus the square of the current gradient; with a
\* vector or a scalar, it is that sum
RECURSIVE Pre(_, _)          \* preconditioned update of entry j at step n
RECURSIVE Mom3(_, _)
Nu(n, j) ==     \* via the axes' maxima, computed from scratch
  LET RECURSIVE A(_)
      A(t) == IF t = 0 THEN [i \in 1..Size |-> "0"]
              ELSE LET prev == A(t - 1)
                       sh == In(shape, hist[1]).l[1].sh
                       R(k, i) == IF sh = <<>> THEN {1} ELSE {m \in 1..Size : Coord(sh, m, k) = Coord(sh, i, k)}
                       MaxOf(S) == CHOOSE x \in {prev[m] : m \in S} : \A m \in S : NLe(prev[m], x)
                       Cov(i) == IF sh = <<>> THEN prev[1]
                                 ELSE CHOOSE x \in {MaxOf(R(k, i)) : k \in 1..Len(sh)} : \A k \in 1..Len(sh) : NLe(x, MaxOf(R(k, i)))
                       w == IF V(cfg.b2) = "1" THEN "1" ELSE NSub("1", V(cfg.b2))
                   IN [i \in 1..Size |-> NAdd(NMul(V(cfg.b2), Cov(i)), NMul(w, Sq(G(t, i))))]
  IN A(n)[j]
Pre(n, j) == IF NEq(Nu(n, j), "0") THEN "0" ELSE NDiv(G(n, j), NSqrt(NAdd(Nu(n, j), V(cfg.eps))))
Mom3(n, j) == IF n = 0 THEN "0" ELSE NAdd(NMul(V(cfg.b1), Mom3(n - 1, j)), NMul(NSub("1", V(cfg.b1)), Pre(n, j)))
Sm3 == cfg.k = "sm3" => \A j \in 1..Size : N0 > 0 => Close(Val(N0, j), Mom3(N0, j))
Cover == (cfg.k = "sm3" /\ V(cfg.b2) = "1" /\ N0 > 0) =>
  \A j \in 1..Size : /\ NLe(SumSq(N0, j), Nu(N0, j))
                     /\ shape # "mat" => NEq(SumSq(N0, j), Nu(N0, j))
Emit == N0 = Depth => EmitPlan([cfg |-> cfg, shape |-> shape, h |-> hist])
===============================================================================
