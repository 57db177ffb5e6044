----------------------------- MODULE Transforms -----------------------------
(***************************************************************************)
(* What every gradient transformation, wrapper and alias means.            *)
(*                                                                         *)
(* A transformation is described by a configuration record cfg (cfg.k is   *)
(* its kind).  Its abstract state after init on params p is InitT(cfg, p); *)
(* one update with updates u, state s and optional params p (<<>> or       *)
(* <<tree>>) is UpdT(cfg, u, s, p): [e |-> error ("" if none),             *)
(* u |-> returned updates, s |-> new state].                               *)
(* Hyperparameters are records of Schedules.tla; V(h) reads a constant.    *)
(***************************************************************************)
EXTENDS Tensor, Schedules

MaxInt32 == 2147483647
Inc(c) == IF c < MaxInt32 THEN c + 1 ELSE c
V(h) == h.v
Num(x) == [s |-> "num", v |-> x]

Ok(u, s) == [e |-> "", u |-> u, s |-> s]
Err(m)   == [e |-> m, u |-> <<>>, s |-> <<>>]
NoParams == "no params"

\* (1 - d) * g^order + d * m
Moment1(u, m, d) == TMap2(u, m, LAMBDA g, t : NAdd(NMul(NSub("1", d), g), NMul(d, t)))
Moment2(u, m, d) == TMap2(u, m, LAMBDA g, t : NAdd(NMul(NSub("1", d), NMul(g, g)), NMul(d, t)))
Debias(m, d, c) ==
  LET w == NSub("1", NPow(d, NOfInt(c))) IN TMap1(m, LAMBDA t : NDiv(t, w))
RootRatio(m, v, eps, root) ==
  TMap2(m, v, LAMBDA a, b : NDiv(a, NAdd(NSqrt(NAdd(b, root)), eps)))
RSqrt(x) == NDiv("1", NSqrt(x))

--------------------------------------------------------------------------
\* Leaf-local pieces

\* AGC: the axes over which a unit's norm is taken are all but UnitAxes(sh)
NonOne(sh) == {k \in 1..Len(sh) : sh[k] # 1}
UnitAxes(sh) ==
  IF Cardinality(NonOne(sh)) <= 1 THEN {}               \* one unit
  ELSE IF Len(sh) \in {2, 3} THEN 2..Len(sh)            \* norm over axis 0
  ELSE {4}                                              \* HWIO: per output
UnitNorm(x, i) ==
  LET js == GroupSeq(x.sh, i, UnitAxes(x.sh))
  IN NSqrt(NSumSq([j \in 1..Len(js) |-> x.v[js[j]]]))
AgcLeaf(g, p, c, eps) ==
  [g EXCEPT !.v = Force([i \in 1..Len(g.v) |->
     LET gn == UnitNorm(g, i)
         mx == NMul(c, NMax(UnitNorm(p, i), eps))
     IN IF NLt(gn, mx) THEN g.v[i]
        ELSE NMul(g.v[i], NDiv(mx, NMax(gn, "1e-6")))])]

Floored(n, lo) == IF NLe(n, lo) THEN lo ELSE n
TrustLeaf(u, p, lo) ==
  LET pn == Floored(LeafNorm(p), lo)
      un == Floored(LeafNorm(u), lo)
      r  == IF NEq(pn, "0") \/ NEq(un, "0") THEN "1" ELSE NDiv(pn, un)
  IN Map1(u, LAMBDA x : NMul(x, r))

CentralLeaf(g) ==
  IF Len(g.sh) < 2 THEN g
  ELSE [g EXCEPT !.v = Force([i \in 1..Len(g.v) |->
          LET js == GroupSeq(g.sh, i, {1})
          IN NSub(g.v[i], NDiv(NSum([j \in 1..Len(js) |-> g.v[js[j]]]), NOfInt(Len(js))))])]

\* SM3.  Per leaf, acc[k][c+1] is the accumulator of coordinate c on axis k
\* (rank 0: one accumulator).
Sm3Axes(sh) == IF sh = <<>> THEN 1 ELSE Len(sh)
Sm3Dim(sh, k) == IF sh = <<>> THEN 1 ELSE sh[k]
Sm3Coord(sh, i, k) == IF sh = <<>> THEN 0 ELSE Coord(sh, i, k)
Sm3Init(x) == [k \in 1..Sm3Axes(x.sh) |-> [c \in 1..Sm3Dim(x.sh, k) |-> "0"]]
RECURSIVE MinOver(_, _, _, _)
MinOver(acc, sh, i, k) ==
  LET a == acc[k][Sm3Coord(sh, i, k) + 1]
  IN IF k = 1 THEN a ELSE NMin(MinOver(acc, sh, i, k - 1), a)
Sm3Accum(g, acc, b2) ==
  LET w == IF NEq(b2, "1") THEN "1" ELSE NSub("1", b2)
  IN Map1([g EXCEPT !.v = Force([i \in 1..Len(g.v) |->
       NAdd(NMul(w, NMul(g.v[i], g.v[i])),
            NMul(b2, MinOver(acc, g.sh, i, Sm3Axes(g.sh))))])], LAMBDA x : x)
RECURSIVE MaxSeq(_)
MaxSeq(s) == IF Len(s) = 1 THEN s[1] ELSE NMax(s[1], MaxSeq(Tail(s)))
Sm3New(a) ==
  Force([k \in 1..Sm3Axes(a.sh) |-> Force([c \in 1..Sm3Dim(a.sh, k) |->
    LET js == SelectSeq([j \in 1..Len(a.v) |-> j], LAMBDA j : Sm3Coord(a.sh, j, k) = c - 1)
    IN MaxSeq([j \in 1..Len(js) |-> a.v[js[j]]])])])

--------------------------------------------------------------------------
\* Private aggregation: leaves have the example axis first
PerEx(x) == Len(x.v) \div x.sh[1]
Example(x, b) == SubSeq(x.v, (b - 1) * PerEx(x) + 1, b * PerEx(x))
DpShapesOk(u) ==
  \A i \in 1..Len(u.l) : u.l[i].sh # <<>> /\ u.l[1].sh # <<>> /\ u.l[i].sh[1] = u.l[1].sh[1]
ExNorm(u, b) == NSqrt(NSumSq(ConcatAll([i \in 1..Len(u.l) |-> Example(u.l[i], b)])))
DpClipped(u, clip) ==   \* sum over examples of the clipped gradients
  LET B  == u.l[1].sh[1]
      dv == Force([b \in 1..B |-> NMax(NDiv(ExNorm(u, b), clip), "1")])
  IN TLeaf1(u, LAMBDA x :
       [sh |-> Tail(x.sh), dt |-> x.dt, path |-> x.path,
        v |-> Force([j \in 1..PerEx(x) |->
               NSum([b \in 1..B |-> NDiv(x.v[(b - 1) * PerEx(x) + j], dv[b])])])])

--------------------------------------------------------------------------
\* Masks
IsPathPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Selected(mask, x) ==
  CASE mask.fn = "table" -> \E j \in 1..Len(mask.m) : mask.m[j].sel /\ IsPathPrefix(mask.m[j].path, x.path)
    [] mask.fn = "rank_ne_1" -> Len(x.sh) # 1
    [] mask.fn = "rank_eq_0" -> Len(x.sh) = 0
    [] mask.fn = "all" -> TRUE
    [] mask.fn = "none" -> FALSE
SelIdx(mask, t) == SelectSeq([i \in 1..Len(t.l) |-> i], LAMBDA i : Selected(mask, t.l[i]))
SubTree(t, idx) == [t EXCEPT !.l = Force([j \in 1..Len(idx) |-> t.l[idx[j]]])]
PosIn(idx, i) == CHOOSE j \in 1..Len(idx) : idx[j] = i
Merge(t, idx, sub) ==
  [t EXCEPT !.l = Force([i \in 1..Len(t.l) |->
     IF \E j \in 1..Len(idx) : idx[j] = i THEN sub.l[PosIn(idx, i)] ELSE t.l[i]])]

\* flatten
\* leaves of different dtypes are concatenated in their common dtype
Wider(a, b) == IF a = b THEN a
               ELSE IF "float64" \in {a, b} THEN "float64"
               ELSE "float32"
RECURSIVE CommonDt(_)
CommonDt(l) == IF Len(l) = 1 THEN l[1].dt ELSE Wider(l[1].dt, CommonDt(Tail(l)))
FlatTree(t) ==
  LET e == Entries(t)
  IN [t EXCEPT !.l = << [sh |-> <<Len(e)>>, dt |-> CommonDt(t.l), path |-> <<>>, v |-> e] >>]
RECURSIVE SizeBefore(_, _)
SizeBefore(t, i) == IF i = 1 THEN 0 ELSE SizeBefore(t, i - 1) + Len(t.l[i - 1].v)
UnflatTree(t, f) ==
  [t EXCEPT !.l = Force([i \in 1..Len(t.l) |->
     [t.l[i] EXCEPT !.v = SubSeq(f.l[1].v, SizeBefore(t, i) + 1, SizeBefore(t, i) + Len(t.l[i].v))]])]

--------------------------------------------------------------------------
\* Named optimisers as the compositions they are documented to be
LrStep(lr) == IF lr.s = "num" THEN [k |-> "scale", c |-> Num(NNeg(lr.v))]
              ELSE [k |-> "sched", fn |-> lr, neg |-> TRUE]
Id == [k |-> "identity"]
Mom(c) == IF c.momentum = <<>> THEN Id
          ELSE [k |-> "trace", decay |-> c.momentum[1], nesterov |-> c.nesterov, acc |-> ""]
AdamOf(c) == [k |-> "adam", b1 |-> c.b1, b2 |-> c.b2, eps |-> c.eps, root |-> c.root]
Chain(m) == [k |-> "chain", m |-> m]
AliasKinds == {"a_sgd", "a_adam", "a_adamw", "a_adagrad", "a_adabelief", "a_yogi", "a_radam",
               "a_rmsprop", "a_lamb", "a_fromage", "a_noisy_sgd", "a_sm3", "a_dpsgd"}
AliasOf(c) ==
  CASE c.k = "a_sgd"   -> Chain(<<Mom(c), LrStep(c.lr)>>)
    [] c.k = "a_adam"  -> Chain(<<AdamOf(c), LrStep(c.lr)>>)
    [] c.k = "a_adamw" -> Chain(<<AdamOf(c), [k |-> "wd", c |-> c.wd], LrStep(c.lr)>>)
    [] c.k = "a_adagrad" -> Chain(<<[k |-> "rss", init |-> c.init, eps |-> c.eps], LrStep(c.lr)>>)
    [] c.k = "a_adabelief" -> Chain(<<[k |-> "belief", b1 |-> c.b1, b2 |-> c.b2, eps |-> c.eps,
                                       root |-> Num("1e-16")], LrStep(c.lr)>>)
    [] c.k = "a_yogi"  -> Chain(<<[k |-> "yogi", b1 |-> c.b1, b2 |-> c.b2, eps |-> c.eps, root |-> Num("0"),
                                   init |-> Num("1e-6"), rule |-> c.rule], LrStep(c.lr)>>)
    [] c.k = "a_radam" -> Chain(<<[k |-> "radam", b1 |-> c.b1, b2 |-> c.b2, eps |-> c.eps,
                                   root |-> c.root, thr |-> c.thr], LrStep(c.lr)>>)
    [] c.k = "a_rmsprop" -> Chain(<<[k |-> IF c.centered THEN "stddev" ELSE "rms", decay |-> c.decay,
                                     eps |-> c.eps, init |-> c.init], LrStep(c.lr), Mom(c)>>)
    [] c.k = "a_lamb"  -> Chain(<<AdamOf(c), [k |-> "wd", c |-> c.wd],
                                  [k |-> "trust", min |-> Num("0")], LrStep(c.lr)>>)
    [] c.k = "a_fromage" ->
         LET m == RSqrt(NAdd("1", NMul(V(c.lr), V(c.lr))))
         IN Chain(<<[k |-> "trust", min |-> c.min], LrStep(Num(NMul(V(c.lr), m))),
                    [k |-> "wd", c |-> Num(NSub(m, "1"))]>>)
    [] c.k = "a_noisy_sgd" -> Chain(<<[k |-> "noise", eta |-> c.eta, gamma |-> c.gamma,
                                       draws |-> c.draws], LrStep(c.lr)>>)
    [] c.k = "a_sm3"   -> Chain(<<[k |-> "sm3", b1 |-> c.momentum, b2 |-> Num("1"),
                                   eps |-> Num("1e-8")], LrStep(c.lr)>>)
    [] c.k = "a_dpsgd" -> Chain(<<[k |-> "dp", clip |-> c.clip, mult |-> c.mult, draws |-> c.draws],
                                  Mom(c), LrStep(c.lr)>>)

Subst(c, env) == [f \in DOMAIN c |-> IF f \in DOMAIN env THEN Num(env[f]) ELSE c[f]]

--------------------------------------------------------------------------
RECURSIVE InitT(_, _)
InitT(c, p) ==
  CASE c.k = "trace" -> [t |-> Zeros(p)]
    [] c.k = "ema" -> [n |-> 0, m |-> Zeros(p)]
    [] c.k = "rss" -> [q |-> Fill(p, V(c.init))]
    [] c.k = "rms" -> [q |-> Fill(p, V(c.init))]
    [] c.k = "stddev" -> [m |-> Zeros(p), q |-> Fill(p, V(c.init))]
    [] c.k \in {"adam", "belief", "radam"} -> [n |-> 0, m |-> Zeros(p), q |-> Zeros(p)]
    [] c.k = "yogi" -> [n |-> 0, m |-> Fill(p, V(c.init)), q |-> Fill(p, V(c.init))]
    [] c.k = "sched" -> [n |-> 0]
    [] c.k \in {"noise", "dp"} -> [n |-> 0, d |-> 0]     \* d: draws made
    [] c.k = "apply_every" -> [n |-> 0, acc |-> Zeros(p)]
    [] c.k = "sm3" -> [a |-> Force([i \in 1..Len(p.l) |-> Force(Sm3Init(p.l[i]))]), q |-> Zeros(p)]
    [] c.k = "zero_nans" -> [f |-> [i \in 1..Len(p.l) |-> FALSE]]
    [] c.k = "probe" -> [n |-> 0, acc |-> Zeros(p), p0 |-> p]
    [] c.k = "chain" -> [i \in 1..Len(c.m) |-> InitT(c.m[i], p)]
    [] c.k = "flatten" -> [in |-> InitT(c.in, FlatTree(p))]
    [] c.k = "aif" -> [nf |-> 0, lf |-> TRUE, tot |-> 0, in |-> InitT(c.in, p)]
    [] c.k = "multi" -> [mini |-> 0, gs |-> 0, acc |-> Zeros(p), in |-> InitT(c.in, p)]
    [] c.k = "masked" -> [in |-> InitT(c.in, SubTree(p, SelIdx(c.mask, p)))]
    [] c.k = "maybe" -> [n |-> 0, in |-> InitT(c.in, p)]
    [] c.k = "lookahead" -> [j |-> 0, in |-> InitT(c.in, p)]     \* p: the fast params
    [] c.k = "inject" ->
         LET env == [x \in DOMAIN c.scheds \cup DOMAIN c.consts |->
                       IF x \in DOMAIN c.scheds THEN Sched(c.scheds[x], "0") ELSE c.consts[x]]
         IN [n |-> 0, hp |-> env, in |-> InitT(Subst(c.in, env), p)]
    [] c.k \in AliasKinds -> InitT(AliasOf(c), p)
    [] OTHER -> <<>>            \* stateless

\* -- one-step rules of the primitives --------------------------------------
UpdTrace(c, u, s) ==
  LET f(g, t) == NAdd(g, NMul(V(c.decay), t))
      nt == TMap2(u, s.t, f)
      kept == IF c.acc = "" THEN nt ELSE TMap1(nt, LAMBDA x : NCast(x, c.acc))
  IN Ok(IF c.nesterov THEN TMap2(u, nt, f) ELSE nt, [t |-> kept])

UpdEma(c, u, s) ==
  LET nm == Moment1(u, s.m, V(c.decay))
      n1 == Inc(s.n)
      kept == IF c.acc = "" THEN nm ELSE TMap1(nm, LAMBDA x : NCast(x, c.acc))
  IN Ok(IF c.debias THEN Debias(nm, V(c.decay), n1) ELSE nm, [n |-> n1, m |-> kept])

UpdRss(c, u, s) ==
  LET q1 == TMap2(u, s.q, LAMBDA g, q : NAdd(NMul(g, g), q))
  IN Ok(TMap2(u, q1, LAMBDA g, q : IF NLt("0", q) THEN NMul(RSqrt(NAdd(q, V(c.eps))), g)
                                   ELSE NMul("0", g)), [q |-> q1])
UpdRms(c, u, s) ==
  LET q1 == Moment2(u, s.q, V(c.decay))
  IN Ok(TMap2(u, q1, LAMBDA g, q : NMul(g, RSqrt(NAdd(q, V(c.eps))))), [q |-> q1])
UpdStddev(c, u, s) ==
  LET m1 == Moment1(u, s.m, V(c.decay))
      q1 == Moment2(u, s.q, V(c.decay))
  IN Ok(TMap3(u, m1, q1, LAMBDA g, m, q : NMul(g, RSqrt(NAdd(NSub(q, NMul(m, m)), V(c.eps))))),
        [m |-> m1, q |-> q1])

\* second moments of the Adam family
Second(c, u, s) ==
  CASE c.k \in {"adam", "radam"} -> Moment2(u, s.q, V(c.b2))
    [] c.k = "belief" -> Moment2(TSub(u, s.m), s.q, V(c.b2))
    \* Zaheer et al. 2018: move by (1 - b2) g^2 towards g^2
    [] c.k = "yogi" /\ c.rule = "paper" ->
         TMap2(u, s.q, LAMBDA g, q :
           LET g2 == NMul(g, g)
           IN NSub(q, NMul(NMul(NSub("1", V(c.b2)), NSign(NSub(q, g2))), g2)))
    \* the deviation recorded in known_findings.json
    [] c.k = "yogi" /\ c.rule = "deviation" ->
         Moment2(TMap2(u, s.q, LAMBDA g, q :
           LET g2 == NMul(g, g) IN NMul(NSign(NSub(q, g2)), g2)), s.q, V(c.b2))
RadamLength(c, n) ==
  LET inf == NSub(NDiv("2", NSub("1", V(c.b2))), "1")
      bt  == NPow(V(c.b2), NOfInt(n))
  IN NSub(inf, NDiv(NMul(NMul("2", NOfInt(n)), bt), NSub("1", bt)))
RadamFactor(c, n) ==
  LET inf == NSub(NDiv("2", NSub("1", V(c.b2))), "1")
      ro  == RadamLength(c, n)
  IN NSqrt(NDiv(NMul(NMul(NSub(ro, "4"), NSub(ro, "2")), inf),
                NMul(NMul(NSub(inf, "4"), NSub(inf, "2")), ro)))
UpdAdamLike(c, u, s) ==
  LET m1 == Moment1(u, s.m, V(c.b1))
      q1 == Second(c, u, s)
      n1 == Inc(s.n)
      mh == Debias(m1, V(c.b1), n1)
      qh == Debias(q1, V(c.b2), n1)
      full == RootRatio(mh, qh, V(c.eps), V(c.root))
      out == IF c.k = "radam"
             THEN IF NLe(V(c.thr), RadamLength(c, n1))
                  THEN LET r == RadamFactor(c, n1) IN TMap1(full, LAMBDA x : NMul(r, x))
                  ELSE mh
             ELSE full
  IN Ok(out, [n |-> n1, m |-> m1, q |-> q1])

UpdSched(c, u, s) ==
  LET x == Sched(c.fn, NOfInt(s.n))
      f == IF c.neg THEN NNeg(x) ELSE x
  IN Ok(TScale(f, u), [n |-> Inc(s.n)])

\* the unit normals drawn at the n-th update are unlogged by the code under
\* test; the recorder supplies them as c.draws (see harness/noise)
UpdNoise(c, u, s) ==
  LET n1 == Inc(s.n)
      sd == NSqrt(NDiv(V(c.eta), NPow(NOfInt(n1), V(c.gamma))))
      s1 == [n |-> n1, d |-> s.d + 1]
  IN IF NEq(V(c.eta), "0") THEN Ok(u, s1)
     ELSE Ok(TMap2(u, c.draws[s1.d], LAMBDA g, z : NAdd(g, NMul(sd, z))), s1)

UpdDp(c, u, s) ==
  IF ~DpShapesOk(u) THEN Err("batch axis")
  ELSE LET B  == NOfInt(u.l[1].sh[1])
           sm == DpClipped(u, V(c.clip))
           sd == NMul(V(c.clip), V(c.mult))
           s1 == [n |-> s.n, d |-> s.d + 1]
       IN Ok(IF NEq(sd, "0") THEN TMap1(sm, LAMBDA g : NDiv(g, B))
             ELSE TMap2(sm, c.draws[s1.d], LAMBDA g, z : NDiv(NAdd(g, NMul(sd, z)), B)), s1)

UpdApplyEvery(c, u, s) ==
  LET acc == IF s.n = 0 THEN u ELSE TAdd(s.acc, u)
  IN Ok(IF s.n = c.every - 1 THEN acc ELSE Zeros(u),
        [n |-> (s.n + 1) % c.every, acc |-> acc])

UpdSm3(c, u, s) ==
  LET acc == TLeaf1(u, LAMBDA x : x)     \* same leaves
      A   == Force([i \in 1..Len(u.l) |-> Sm3Accum(u.l[i], s.a[i], V(c.b2))])
      pre == [u EXCEPT !.l = Force([i \in 1..Len(u.l) |->
                Map2(u.l[i], A[i], LAMBDA g, a :
                  IF NLt("0", a) THEN NMul(g, RSqrt(NAdd(a, V(c.eps)))) ELSE NMul(g, "0"))])]
      q1  == Moment1(pre, s.q, V(c.b1))
  IN Ok(q1, [a |-> Force([i \in 1..Len(u.l) |-> Sm3New(A[i])]), q |-> q1])

UpdCgn(c, u) ==
  LET n == GlobalNorm(u)
  IN IF NLt(n, V(c.c)) THEN u
     ELSE TMap1(u, LAMBDA x : NMul(NDiv(x, n), V(c.c)))

\* an instrumented user transformation (harness/optaxir.py: probe): integer
\* valued, order- and history-sensitive, optionally params-dependent and
\* coupling all leaves
UpdProbe(c, u, s, p) ==
  IF c.needs /\ p = <<>> THEN Err(NoParams)
  ELSE LET n1  == s.n + 1
           acc == TAdd(s.acc, u)
           tot == IF c.couple THEN NSum(Entries(u)) ELSE "0"
           o1  == TMap3(u, acc, s.p0, LAMBDA g, a, q :
                    NAdd(NAdd(NMul(NOfInt(c.a), g), NMul("3", a)), NAdd(NMul("5", q), NAdd(NOfInt(7 * n1), tot))))
           o2  == IF c.needs THEN TMap2(o1, p[1], LAMBDA x, q : NAdd(x, NMul("11", q))) ELSE o1
       IN Ok(o2, [n |-> n1, acc |-> acc, p0 |-> s.p0])

RECURSIVE UpdT(_, _, _, _)
RECURSIVE ChainFold(_, _, _, _, _)
ChainFold(c, u, s, p, i) ==     \* members i..; s: all old slots
  IF i > Len(c.m) THEN [e |-> "", u |-> u, s |-> <<>>]
  ELSE LET r == UpdT(c.m[i], u, s[i], p)
       IN IF r.e # "" THEN r
          ELSE LET q == ChainFold(c, r.u, s, p, i + 1)
               IN IF q.e # "" THEN q ELSE [e |-> "", u |-> q.u, s |-> <<r.s>> \o q.s]

UpdAif(c, u, s, p) ==
  LET fin == AllFinite(u)
      nf1 == IF fin THEN 0 ELSE Inc(s.nf)
      nxt(in) == [nf |-> nf1, lf |-> fin, tot |-> IF fin THEN s.tot ELSE Inc(s.tot), in |-> in]
  IN IF fin \/ nf1 > c.max
     THEN LET r == UpdT(c.in, u, s.in, p)
          IN IF r.e # "" THEN r ELSE Ok(r.u, nxt(r.s))
     ELSE Ok(Zeros(u), nxt(s.in))

UpdMulti(c, u, s, p) ==
  LET k   == NToInt(Sched(c.every, NOfInt(s.gs)))
      acc == TAdd(u, s.acc)
  IN IF s.mini < k - 1
     THEN Ok(Zeros(u), [s EXCEPT !.mini = @ + 1, !.acc = acc])
     ELSE LET g == IF c.mean THEN TMap1(acc, LAMBDA x : NDiv(x, NOfInt(k))) ELSE acc
              r == UpdT(c.in, g, s.in, p)
          IN IF r.e # "" THEN r
             ELSE Ok(r.u, [mini |-> 0, gs |-> Inc(s.gs), acc |-> Zeros(acc), in |-> r.s])

UpdMasked(c, u, s, p) ==
  LET idx == SelIdx(c.mask, u)
      r == UpdT(c.in, SubTree(u, idx), s.in, IF p = <<>> THEN p ELSE <<SubTree(p[1], idx)>>)
  IN IF r.e # "" THEN r ELSE Ok(Merge(u, idx, r.u), [in |-> r.s])

UpdMaybe(c, u, s, p) ==
  IF ~NEq(Sched(c.pred, NOfInt(s.n)), "0")
  THEN LET r == UpdT(c.in, u, s.in, p)
       IN IF r.e # "" THEN r ELSE Ok(r.u, [n |-> Inc(s.n), in |-> r.s])
  ELSE Ok(u, [n |-> Inc(s.n), in |-> s.in])

UpdFlatten(c, u, s, p) ==
  LET r == UpdT(c.in, FlatTree(u), s.in, IF p = <<>> THEN p ELSE <<FlatTree(p[1])>>)
  IN IF r.e # "" THEN r ELSE Ok(UnflatTree(u, r.u), [in |-> r.s])

\* params: fast leaves followed by slow leaves
FastOf(p) == [p EXCEPT !.l = SubSeq(p.l, 1, Len(p.l) \div 2)]
SlowOf(p) == [p EXCEPT !.l = SubSeq(p.l, Len(p.l) \div 2 + 1, Len(p.l))]
UpdLookahead(c, u, s, p) ==
  IF p = <<>> THEN Err(NoParams)
  ELSE LET F == FastOf(p[1])
           S == SlowOf(p[1])
           r == UpdT(c.in, u, s.in, <<F>>)
           sync == s.j = c.period - 1
           F1 == TAdd(F, r.u)                          \* fast after its step
           S1 == TMap2(S, F1, LAMBDA a, b : NAdd(a, NMul(V(c.alpha), NSub(b, a))))
       IN IF r.e # "" THEN r
          ELSE Ok([p[1] EXCEPT !.l = IF sync THEN TSub(S1, F).l \o TSub(S1, S).l
                                     ELSE r.u.l \o Zeros(S).l],
                  [j |-> (s.j + 1) % c.period,
                   in |-> IF sync /\ c.reset THEN InitT(c.in, F) ELSE r.s])

UpdInject(c, u, s, p) ==
  LET n1  == Inc(s.n)
      env == [x \in DOMAIN s.hp |-> IF x \in DOMAIN c.scheds
                                    THEN Sched(c.scheds[x], NOfInt(n1)) ELSE s.hp[x]]
      r == UpdT(Subst(c.in, env), u, s.in, p)
  IN IF r.e # "" THEN r ELSE Ok(r.u, [n |-> n1, hp |-> env, in |-> r.s])

NeedsParams == {"wd", "trust", "agc", "nonneg"}
UpdT(c, u, s, p) ==
  IF c.k \in NeedsParams /\ p = <<>> THEN Err(NoParams)
  ELSE
  CASE c.k = "identity" -> Ok(u, s)
    [] c.k = "scale" -> Ok(TScale(V(c.c), u), s)
    [] c.k = "clip" -> Ok(TMap1(u, LAMBDA x : NMax(NNeg(V(c.c)), NMin(x, V(c.c)))), s)
    [] c.k = "cgn" -> Ok(UpdCgn(c, u), s)
    [] c.k = "agc" -> Ok(TLeaf2(u, p[1], LAMBDA g, q : AgcLeaf(g, q, V(c.c), V(c.eps))), s)
    [] c.k = "wd" -> Ok(TMap2(u, p[1], LAMBDA g, q : NAdd(g, NMul(V(c.c), q))), s)
    [] c.k = "trust" -> Ok(TLeaf2(u, p[1], LAMBDA g, q : TrustLeaf(g, q, V(c.min))), s)
    [] c.k = "centralize" -> Ok(TLeaf1(u, CentralLeaf), s)
    [] c.k = "nonneg" -> Ok(TMap2(u, p[1], LAMBDA g, q :
                              IF NLt(NAdd(q, g), "0") THEN NNeg(q) ELSE g), s)
    [] c.k = "zero_nans" ->
         Ok(TMap1(u, LAMBDA x : IF NIsNan(x) THEN "0" ELSE x),
            [f |-> [i \in 1..Len(u.l) |-> \E j \in 1..Len(u.l[i].v) : NIsNan(u.l[i].v[j])]])
    [] c.k = "trace" -> UpdTrace(c, u, s)
    [] c.k = "ema" -> UpdEma(c, u, s)
    [] c.k = "rss" -> UpdRss(c, u, s)
    [] c.k = "rms" -> UpdRms(c, u, s)
    [] c.k = "stddev" -> UpdStddev(c, u, s)
    [] c.k \in {"adam", "belief", "yogi", "radam"} -> UpdAdamLike(c, u, s)
    [] c.k = "sched" -> UpdSched(c, u, s)
    [] c.k = "noise" -> UpdNoise(c, u, s)
    [] c.k = "dp" -> UpdDp(c, u, s)
    [] c.k = "apply_every" -> UpdApplyEvery(c, u, s)
    [] c.k = "sm3" -> UpdSm3(c, u, s)
    [] c.k = "probe" -> UpdProbe(c, u, s, p)
    [] c.k = "chain" -> IF Len(s) # Len(c.m) THEN Err("slots") ELSE ChainFold(c, u, s, p, 1)
    [] c.k = "flatten" -> UpdFlatten(c, u, s, p)
    [] c.k = "aif" -> UpdAif(c, u, s, p)
    [] c.k = "multi" -> UpdMulti(c, u, s, p)
    [] c.k = "masked" -> UpdMasked(c, u, s, p)
    [] c.k = "maybe" -> UpdMaybe(c, u, s, p)
    [] c.k = "lookahead" -> UpdLookahead(c, u, s, p)
    [] c.k = "inject" -> UpdInject(c, u, s, p)
    [] c.k \in AliasKinds -> UpdT(AliasOf(c), u, s, p)

--------------------------------------------------------------------------
\* Documented, publicly readable parts of a state, as <<label, number>> pairs
\* in a fixed order (harness/optaxir.py: observe mirrors it)
B2N(b) == IF b THEN "1" ELSE "0"
RECURSIVE ObsT(_, _)
RECURSIVE ObsSeq(_, _, _)
ObsSeq(cs, ss, i) == IF i > Len(cs) THEN <<>> ELSE ObsT(cs[i], ss[i]) \o ObsSeq(cs, ss, i + 1)
ObsT(c, s) ==
  CASE c.k \in {"ema", "adam", "belief", "yogi", "radam", "sched", "noise"} ->
         << <<"count", NOfInt(s.n)>> >>
    [] c.k = "zero_nans" -> [i \in 1..Len(s.f) |-> <<"found_nan", B2N(s.f[i])>>]
    [] c.k = "probe" -> << <<"probe_n", NOfInt(s.n)>>,
                           <<"probe_acc", GlobalNorm(s.acc)>> >>
    [] c.k = "chain" -> ObsSeq(c.m, s, 1)
    [] c.k = "aif" -> << <<"notfinite_count", NOfInt(s.nf)>>, <<"last_finite", B2N(s.lf)>>,
                         <<"total_notfinite", NOfInt(s.tot)>> >> \o ObsT(c.in, s.in)
    [] c.k = "multi" -> << <<"mini_step", NOfInt(s.mini)>>, <<"gradient_step", NOfInt(s.gs)>>,
                           <<"has_updated", B2N(s.mini = 0 /\ s.gs > 0)>> >> \o ObsT(c.in, s.in)
    [] c.k = "maybe" -> << <<"step", NOfInt(s.n)>> >> \o ObsT(c.in, s.in)
    [] c.k = "lookahead" -> << <<"steps_since_sync", NOfInt(s.j)>> >> \o ObsT(c.in, s.in)
    [] c.k \in {"masked", "flatten"} -> ObsT(c.in, s.in)
    [] c.k = "inject" ->
         << <<"count", NOfInt(s.n)>> >>
         \o [i \in 1..Len(c.names) |-> <<"hp:" \o c.names[i], s.hp[c.names[i]]>>]
         \o ObsT(Subst(c.in, s.hp), s.in)
    [] OTHER -> <<>>

\* Every saturating step counter set to v (to reach counts near the limit)
RECURSIVE SetCounts(_, _, _)
SetCounts(c, s, v) ==
  CASE c.k \in {"ema", "adam", "belief", "yogi", "radam", "sched", "noise"} -> [s EXCEPT !.n = v]
    [] c.k = "chain" -> [i \in 1..Len(c.m) |-> SetCounts(c.m[i], s[i], v)]
    [] c.k = "inject" -> [s EXCEPT !.n = v, !.in = SetCounts(Subst(c.in, s.hp), s.in, v)]
    [] c.k \in {"masked", "flatten", "lookahead"} -> [s EXCEPT !.in = SetCounts(c.in, s.in, v)]
    [] c.k = "aif" -> [s EXCEPT !.nf = v, !.tot = v, !.in = SetCounts(c.in, s.in, v)]
    [] c.k = "multi" -> [s EXCEPT !.mini = 0, !.acc = Zeros(s.acc), !.gs = v, !.in = SetCounts(c.in, s.in, v)]  \* at the start of a window
    [] c.k = "maybe" -> [s EXCEPT !.n = v, !.in = SetCounts(c.in, s.in, v)]
    [] c.k \in AliasKinds -> SetCounts(AliasOf(c), s, v)
    [] OTHER -> s
--------------------------------------------------------------------------
\* Transformations whose updates depend on the params: they require them.
RECURSIVE NeedsP(_)
NeedsP(c) ==
  CASE c.k \in NeedsParams \cup {"lookahead"} -> TRUE
    [] c.k = "probe" -> c.needs
    [] c.k = "chain" -> \E i \in 1..Len(c.m) : NeedsP(c.m[i])
    [] c.k \in {"masked", "flatten", "aif", "multi", "maybe", "inject"} -> NeedsP(c.in)
    [] c.k \in AliasKinds -> NeedsP(AliasOf(c))
    [] OTHER -> FALSE
\* Transformations that can be built
RECURSIVE ValidTx(_)
ValidTx(c) ==
  CASE c.k = "lookahead" -> c.period >= 1 /\ ValidTx(c.in)
    [] c.k = "sched" -> ValidSched(c.fn)
    [] c.k = "chain" -> \A i \in 1..Len(c.m) : ValidTx(c.m[i])
    [] c.k \in {"masked", "flatten", "aif", "multi", "maybe", "inject"} -> ValidTx(c.in)
    [] OTHER -> TRUE
--------------------------------------------------------------------------
\* The tensors kept in a state, tree by tree (counters and flags left out)
RECURSIVE StateTrees(_, _)
StateTrees(c, s) ==
  CASE c.k = "trace" -> <<s.t>>
    [] c.k = "ema" -> <<s.m>>
    [] c.k \in {"rss", "rms"} -> <<s.q>>
    [] c.k \in {"stddev", "adam", "belief", "yogi", "radam"} -> <<s.m, s.q>>
    [] c.k = "apply_every" -> <<s.acc>>
    [] c.k = "sm3" -> <<s.q>>
    [] c.k = "probe" -> <<s.acc, s.p0>>
    [] c.k = "chain" -> ConcatAll([i \in 1..Len(c.m) |-> StateTrees(c.m[i], s[i])])
    [] c.k = "multi" -> <<s.acc>> \o StateTrees(c.in, s.in)
    [] c.k \in {"flatten", "aif", "masked", "maybe", "lookahead"} -> StateTrees(c.in, s.in)
    [] c.k = "inject" -> StateTrees(Subst(c.in, s.hp), s.in)
    [] c.k \in AliasKinds -> StateTrees(AliasOf(c), s)
    [] OTHER -> <<>>
=============================================================================
