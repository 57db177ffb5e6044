----------------------------- MODULE Schedules ------------------------------
(***************************************************************************)
(* Schedules, as functions of a step count.  A hyperparameter is           *)
(*   a record [s |-> kind, ...], s = "num" being a constant.               *)
(* Sched(h, n) is its value at count n (a number).                         *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences

Half == "0.5"
Clamp(x, lo, hi) == NMax(lo, NMin(x, hi))

Poly(h, n) ==
  IF h.steps <= 0 THEN h.init
  ELSE LET b == NMax("0", NOfInt(h.begin))
           c == Clamp(NSub(n, b), "0", NOfInt(h.steps))
           f == NSub("1", NDiv(c, NOfInt(h.steps)))
       IN NAdd(NMul(NSub(h.init, h.end), NPow(f, h.power)), h.end)

\* end: <<>> when absent, else <<value>>
Expo(h, n) ==
  IF h.steps <= 0 \/ NEq(h.rate, "0") THEN h.init
  ELSE LET b == NMax("0", NOfInt(h.begin))
           d == NSub(n, b)
           q == NDiv(d, NOfInt(h.steps))
           e == IF h.stair THEN NFloor(q) ELSE q
           x == IF NLe(d, "0") THEN h.init ELSE NMul(h.init, NPow(h.rate, e))
       IN IF h.end = <<>> THEN x
          ELSE IF NLt(h.rate, "1") THEN NMax(x, h.end[1]) ELSE NMin(x, h.end[1])

Cosine(h, n) ==
  LET c == NMin(n, NOfInt(h.steps))
      w == NMul(Half, NAdd("1", NCosPi(NDiv(c, NOfInt(h.steps)))))
  IN NMul(h.init, NAdd(NMul(NSub("1", h.alpha), w), h.alpha))

\* bs: sequence of <<boundary, factor>>
RECURSIVE PcFold(_, _, _)
PcFold(bs, v, n) ==
  IF bs = <<>> THEN v
  ELSE PcFold(Tail(bs), IF NLe(NOfInt(bs[1][1]), n) THEN NMul(v, bs[1][2]) ELSE v, n)
PiecewiseConst(h, n) == PcFold(h.bs, h.init, n)

\* value reached at the k-th boundary (k = 0: at step 0); bs sorted by boundary
RECURSIVE PiAt(_, _, _)
PiAt(bs, v, k) == IF k = 0 THEN v ELSE NMul(PiAt(bs, v, k - 1), bs[k][2])
Interp(type, a, b, pct) ==
  IF type = "linear" THEN NAdd(NMul(NSub(b, a), pct), a)
  ELSE NAdd(b, NMul(NDiv(NSub(a, b), "2"), NAdd(NCosPi(pct), "1")))
PiecewiseInterp(h, n) ==
  LET bs == h.bs
      K  == Len(bs)
      B(k) == IF k = 0 THEN "0" ELSE NOfInt(bs[k][1])
  IN IF K = 0 \/ NLe(B(K), n) THEN PiAt(bs, h.init, K)
     ELSE LET k == CHOOSE k \in 0..(K - 1) : NLe(B(k), n) /\ NLt(n, B(k + 1))
          IN Interp(h.type, PiAt(bs, h.init, k), PiAt(bs, h.init, k + 1),
                    NDiv(NSub(n, B(k)), NSub(B(k + 1), B(k))))

\* the documented shape of the one-cycle schedules; defined when the phase
\* boundaries are distinct
LinOneCycle(h) ==
  [s |-> "pinterp", type |-> "linear", init |-> NDiv(h.peak, h.div),
   bs |-> << <<h.b1, h.div>>, <<h.b2, NDiv("1", h.div)>>,
             <<h.steps, NDiv("1", h.fdiv)>> >>]
CosOneCycle(h) ==
  [s |-> "pinterp", type |-> "cosine", init |-> NDiv(h.peak, h.div),
   bs |-> << <<h.b1, h.div>>,
             <<h.steps, NDiv("1", NMul(h.div, h.fdiv))>> >>]
Lin(a, b, k) == [s |-> "poly", init |-> a, end |-> b, power |-> "1", steps |-> k, begin |-> 0]
WarmupCos(h) ==
  [s |-> "join", bounds |-> <<h.warm>>,
   parts |-> << Lin(h.init, h.peak, h.warm),
                [s |-> "cosine", init |-> h.peak, steps |-> h.steps - h.warm,
                 alpha |-> NDiv(h.end, h.peak)] >>]
WarmupExp(h) ==
  [s |-> "join", bounds |-> <<h.warm>>,
   parts |-> << Lin(h.init, h.peak, h.warm),
                [s |-> "expo", init |-> h.peak, steps |-> h.steps, rate |-> h.rate,
                 begin |-> h.begin, stair |-> h.stair, end |-> h.end] >>]
RECURSIVE SumSteps(_, _)
SumSteps(cs, k) == IF k = 0 THEN 0 ELSE SumSteps(cs, k - 1) + cs[k].steps
Sgdr(h) ==
  [s |-> "join", bounds |-> [k \in 1..(Len(h.cycles) - 1) |-> SumSteps(h.cycles, k)],
   parts |-> [k \in 1..Len(h.cycles) |-> WarmupCos(h.cycles[k])]]

RECURSIVE Sched(_, _)
Join(h, n) ==
  LET past == {k \in 1..Len(h.bounds) : NLe(NOfInt(h.bounds[k]), n)}
      \* boundaries increase: the last piece entered
      k == IF past = {} THEN 0 ELSE CHOOSE k \in past : \A j \in past : j <= k
  IN Sched(h.parts[k + 1], IF k = 0 THEN n ELSE NSub(n, NOfInt(h.bounds[k])))
Sched(h, n) ==
  CASE h.s = "num"     -> h.v
    [] h.s = "poly"    -> Poly(h, n)
    [] h.s = "expo"    -> Expo(h, n)
    [] h.s = "cosine"  -> Cosine(h, n)
    [] h.s = "pconst"  -> PiecewiseConst(h, n)
    [] h.s = "pinterp" -> PiecewiseInterp(h, n)
    [] h.s = "lin1c"   -> PiecewiseInterp(LinOneCycle(h), n)
    [] h.s = "cos1c"   -> PiecewiseInterp(CosOneCycle(h), n)
    [] h.s = "join"    -> Join(h, n)
    [] h.s = "wcos"    -> Join(WarmupCos(h), n)
    [] h.s = "wexp"    -> Join(WarmupExp(h), n)
    [] h.s = "sgdr"    -> Join(Sgdr(h), n)
    \* a table of values for counts 0, 1, ..; the last one is held
    [] h.s = "table"   -> LET m == Len(h.vs) IN
                          IF NLe(NOfInt(m), n) THEN h.vs[m] ELSE h.vs[NToInt(n) + 1]
    \* the same values over and over
    [] h.s = "cyc"     -> h.vs[(NToInt(n) % Len(h.vs)) + 1]
--------------------------------------------------------------------------
\* Settings a constructor accepts; all others it must reject.
Factors(bs) == \A k \in 1..Len(bs) : NLe("0", bs[k][2])
ValidWcos(c) == c.steps - c.warm > 0
RECURSIVE ValidSched(_)
ValidSched(h) ==
  CASE h.s = "pconst" -> Factors(h.bs)
    [] h.s = "pinterp" -> h.type \in {"linear", "cosine"} /\ Factors(h.bs)
    [] h.s = "cosine" -> h.steps > 0
    [] h.s = "lin1c" -> h.steps > 0 /\ NLt("0", h.div) /\ NLt("0", h.fdiv)
    [] h.s = "cos1c" -> h.steps > 0 /\ NLt("0", h.div) /\ NLt("0", h.fdiv)
    [] h.s = "join" -> \A k \in 1..Len(h.parts) : ValidSched(h.parts[k])
    [] h.s = "wcos" -> ValidWcos(h)
    [] h.s = "sgdr" -> \A k \in 1..Len(h.cycles) : ValidWcos(h.cycles[k])
    [] OTHER -> TRUE
=============================================================================
