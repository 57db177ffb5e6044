------------------------------ MODULE MC_meta -------------------------------
(* Histories of scalar gradients g_i with tangents d_i: the derivative of    *)
(* every returned update along the tangents (and along one hyperparameter)   *)
(* is compared with the derivative worked out by hand.                       *)
EXTENDS Meta, Json, IOUtils
Thorough == "OPTAX_TIER" \in DOMAIN IOEnv /\ IOEnv.OPTAX_TIER = "thorough"
Depth == IF Thorough THEN 4 ELSE 3
Leaf(x) == [sh |-> <<>>, dt |-> "float64", path |-> <<"x">>, v |-> <<x>>]
Sc(x) == [td |-> "*", l |-> <<Leaf(x)>>]
Val(t) == t.l[1].v[1]

Linear == {[k |-> "identity"], [k |-> "scale", c |-> Num("-0.5")], [k |-> "wd", c |-> Num("0.25")],
           [k |-> "trace", decay |-> Num("0.5"), nesterov |-> FALSE, acc |-> ""], [k |-> "trace", decay |-> Num("0.5"), nesterov |-> TRUE, acc |-> ""],
           [k |-> "ema", decay |-> Num("0.5"), debias |-> TRUE, acc |-> ""], [k |-> "ema", decay |-> Num("0.75"), debias |-> FALSE, acc |-> ""],
           [k |-> "apply_every", every |-> 2], [k |-> "multi", every |-> Num("2"), mean |-> TRUE, in |-> [k |-> "scale", c |-> Num("3")]],
           [k |-> "a_sgd", lr |-> Num("0.25"), momentum |-> <<Num("0.5")>>, nesterov |-> TRUE]}
\* hyperparameter moved: the field name, its configurations
SgdAt(x) == [k |-> "a_sgd", lr |-> Num(x), momentum |-> <<Num("0.5")>>, nesterov |-> FALSE]
AdamAt(x) == [k |-> "adam", b1 |-> Num("0.5"), b2 |-> Num("0.75"), eps |-> Num(x), root |-> Num("0.25")]
Others == {[k |-> "clip", c |-> Num("1.5")], [k |-> "rss", init |-> Num("0.25"), eps |-> Num("0")],
           [k |-> "aif", max |-> 1, in |-> [k |-> "scale", c |-> Num("2")]],
           [k |-> "maybe", pred |-> [s |-> "table", vs |-> <<"1", "0", "1">>], in |-> [k |-> "scale", c |-> Num("2")]], SgdAt("0.25"), AdamAt("0.125")}
Moved(c, h) == IF c = SgdAt("0.25") THEN SgdAt(NAdd("0.25", h))
               ELSE IF c = AdamAt("0.125") THEN AdamAt(NAdd("0.125", h)) ELSE c

VARIABLES cfg, hist        \* hist: sequence of [g, d]
vars == <<cfg, hist>>
Inputs == {[g |-> g, d |-> d] : g \in {"1", "-2", "0"}, d \in {"1", "0.5"}}
Init == cfg \in Linear \cup Others /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E x \in Inputs : hist' = Append(hist, x)
        /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars

N0 == Len(hist)
GS == [i \in 1..N0 |-> Sc(hist[i].g)]
DS == [i \in 1..N0 |-> Sc(hist[i].d)]
PS == [i \in 1..N0 |-> <<Sc("2")>>]
DP == [i \in 1..N0 |-> <<Sc("3")>>]
J == MetaJvp(Moved(cfg, Step), Moved(cfg, NNeg(Step)), Sc("1"), Sc("0"), GS, DS, PS, DP)
Close(a, b) == NClose(a, b, "1e-20", "1e-20")
\* the derivative of a linear rule is the rule applied to the tangents
LinearRule == cfg \in Linear =>
  LET w == Returned(cfg, InitT(cfg, Sc("1")), DS, DP) IN \A i \in 1..N0 : Close(Val(J[i]), Val(w[i]))
\* clip: the tangent passes exactly where the value is not clipped
ClipRule == cfg.k = "clip" => \A i \in 1..N0 : Close(Val(J[i]), IF hist[i].g = "-2" THEN "0" ELSE hist[i].d)
\* rss at step n: g / sqrt(a), a = init + sum g^2; derivative d / sqrt(a) - g (sum g d) / a^(3/2)
RssRule == cfg.k = "rss" => \A i \in 1..N0 :
  LET a == NAdd("0.25", NSumSq([j \in 1..i |-> hist[j].g]))
      b == NDot([j \in 1..i |-> hist[j].g], [j \in 1..i |-> hist[j].d])
  IN Close(Val(J[i]), NSub(NDiv(hist[i].d, NSqrt(a)), NDiv(NMul(hist[i].g, b), NMul(a, NSqrt(a)))))
\* wrappers pass tangents of the calls they let through
WrapRule == /\ cfg.k = "aif" => \A i \in 1..N0 : Close(Val(J[i]), NMul("2", hist[i].d))
            /\ cfg.k = "maybe" => \A i \in 1..N0 : Close(Val(J[i]), NMul(IF i = 2 THEN "1" ELSE "2", hist[i].d))
\* momentum SGD moved along its rate: -t_n - rate * dt_n
RateRule == cfg = SgdAt("0.25") =>
  LET tr == [k |-> "trace", decay |-> Num("0.5"), nesterov |-> FALSE, acc |-> ""]
      t == Returned(tr, InitT(tr, Sc("1")), GS, PS)
      d == Returned(tr, InitT(tr, Sc("1")), DS, DP)
  IN \A i \in 1..N0 : Close(Val(J[i]), NNeg(NAdd(Val(t[i]), NMul("0.25", Val(d[i])))))
\* Adam's first step along g and eps: finite at g = 0 thanks to eps_root
AdamRule == (cfg = AdamAt("0.125") /\ N0 >= 1) =>
  LET g == hist[1].g
      d == hist[1].d
      r == NSqrt(NAdd(NMul(g, g), "0.25"))
      q == NAdd(r, "0.125")
  IN Close(Val(J[1]), NSub(NDiv(d, q), NDiv(NMul(g, NAdd(NDiv(NMul(g, d), r), "1")), NMul(q, q))))
Emit == N0 = Depth => PrintT("@@PLAN " \o ToJson([cfg |-> cfg, h |-> hist,
          moved |-> IF cfg = SgdAt("0.25") THEN "lr" ELSE IF cfg = AdamAt("0.125") THEN "eps" ELSE ""]))
=============================================================================
