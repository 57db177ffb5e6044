------------------------------ MODULE MC_chain -------------------------------
(* chain: all sequences of up to three members and their nestings; the whole *)
(* is the left fold, nesting and identities are invisible.                   *)
EXTENDS Model
Depth == 2
Kinds == { [k |-> "identity"], [k |-> "scale", c |-> Num("-2")], [k |-> "wd", c |-> Num("3")],
           [k |-> "clip", c |-> Num("5")], [k |-> "trace", decay |-> Num("0.5"), nesterov |-> FALSE, acc |-> ""],
           [k |-> "apply_every", every |-> 2],
           [k |-> "probe", a |-> 2, needs |-> TRUE, couple |-> TRUE] }
Small == IF Thorough THEN Kinds ELSE {x \in Kinds : x.k \notin {"identity", "apply_every"}}
Flat == {<<a>> : a \in Kinds} \cup (Kinds \X Kinds) \cup (Small \X Small \X Small)
C(m) == [k |-> "chain", m |-> m]
Nest(m) ==       \* nestings of a flat sequence
  IF Len(m) = 1 THEN {C(m), C(<<C(m)>>)}
  ELSE IF Len(m) = 2 THEN {C(m), C(<<C(<<m[1]>>), m[2]>>)}
  ELSE {C(m), C(<<C(<<m[1], m[2]>>), m[3]>>), C(<<m[1], C(<<m[2], m[3]>>)>>)}
Cfgs == UNION {{[c |-> n, flat |-> m] : n \in Nest(m)} : m \in Flat}
P0 == Pair("3", "-1")
U(i) == Pair(NStr(NOfInt(4 - 3 * i)), NStr(NOfInt(7 * i)))
Par(i) == Pair(NStr(NOfInt(i)), "2")
VARIABLE flat
Init == \E x \in Cfgs : /\ cfg = x.c /\ flat = x.flat /\ st = InitT(x.c, P0) /\ hist = <<>> /\ outs = <<>>
Next == /\ Len(hist) < Depth
        /\ LET i == Len(hist) + 1 IN MStep(i, U(i), <<Par(i)>>)
        /\ UNCHANGED flat
Spec == Init /\ [][Next]_<<mvars, flat>>

\* member j run alone on its predecessor's outputs
RECURSIVE Stage(_)
Stage(j) ==
  LET L == Len(hist)
      in == IF j = 1 THEN [i \in 1..L |-> U(i)] ELSE Stage(j - 1)
  IN RunT(flat[j], InitT(flat[j], P0), in, [i \in 1..L |-> <<Par(i)>>]).o
Outputs == LET q == Stage(Len(flat)) IN \A i \in 1..Len(hist) : Eq(outs[i], q[i])
Slots == Len(st) = Len(cfg.m)
\* a state of another length is rejected
Rejects == \A keep \in {<<>>, <<1>>} : Len(keep) # Len(cfg.m) =>
             UpdT(cfg, U(1), DoSlots(st, keep).st, <<Par(1)>>).e # ""
Emit == Len(hist) = Depth => EmitPlan([cfg |-> cfg])
=============================================================================
