------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation.  The file named by the environment variable OPTAX_TRACE
   holds runs recorded from the real library: each run is a configuration and
   a list of events (one per public call, with arguments and results).  Every
   run is an initial state, every step consumes one event, computes what the
   specification allows and compares.  The verdict on an event is total: a
   mismatch is printed (with the failing clause and the first differing
   entry) and the run goes on from the specified state.                     *)
(***************************************************************************)
EXTENDS Optax, Calls, Json, IOUtils

File == JsonDeserialize(IOEnv.OPTAX_TRACE)
Runs == File.runs
NSlots == 16

VARIABLES r, l, store
vars == <<r, l, store>>

Ev == Runs[r].evs[l]
Cfg == Runs[r].cfg
RTol == Runs[r].rtol

ObsBad(want, got) ==
  IF Len(want) # Len(got) THEN <<"obs-fields", Len(want), Len(got)>>
  ELSE LET bad == {i \in 1..Len(want) :
                     \/ want[i][1] # got[i][1]
                     \/ ~NClose(got[i][2], want[i][2], RTol.obs, "0")}
       IN IF bad = {} THEN <<>>
          ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j
               IN <<"state", want[i][1], "got", NStr(got[i][2]), "want", NStr(want[i][2])>>

JudgeOut(ev, o) ==
  IF o.e # "" /\ ev.err = "" THEN <<"missing-error", o.e>>
  ELSE IF o.e = "" /\ ev.err # "" THEN <<"unexpected-error", ev.err>>
  ELSE IF o.e # "" THEN <<>>
  ELSE IF ev.out = <<>> THEN <<>>
  ELSE IF ~SameShapes(ev.out[1], o.u) THEN <<"structure", ev.out[1].td, o.u.td>>
  ELSE IF ev.dtypes /\ ~SameStruct(ev.out[1], o.u)
       THEN <<"dtype", [i \in 1..Len(o.u.l) |-> <<ev.out[1].l[i].dt, o.u.l[i].dt>>]>>
  ELSE IF ~CloseTree(ev.out[1], o.u, RTol) THEN <<"value">> \o DiffAt(ev.out[1], o.u, RTol)
  ELSE <<>>

\* outcome of a stateful event
Out(ev) ==
  CASE ev.op = "init"    -> DoInit(Cfg, ev.p)
    [] ev.op = "upd"     -> DoUpdate(Cfg, store[ev.src], ev.g, ev.p)
    [] ev.op = "restore" -> DoRestore(store[ev.src])
    [] ev.op = "setc"    -> DoSetCount(Cfg, store[ev.src], ev.v)
    [] ev.op = "sethp"   -> DoSetHyper(Cfg, store[ev.src], ev.name, ev.v)
    [] ev.op = "slots"   -> DoSlots(store[ev.src], ev.keep)

Report(why) == PrintT("@@MISMATCH " \o ToJson(<<Runs[r].id, l, Ev.op, why>>))

Stateful ==
  /\ Ev.op # "call"
  /\ LET o == Out(Ev)
         v == JudgeOut(Ev, o)
         w == IF v # <<>> \/ o.e # "" \/ Ev.obs = <<>> THEN <<>>
              ELSE ObsBad(ObsT(Cfg, o.st), Ev.obs[1])
     IN /\ IF v # <<>> THEN Report(v) ELSE IF w # <<>> THEN Report(w) ELSE TRUE
        /\ store' = IF o.e # "" THEN store ELSE [store EXCEPT ![Ev.dst] = o.st]

\* pure functions (losses, schedules, linear algebra, ...): Calls.tla
Pure ==
  /\ Ev.op = "call"
  /\ LET v == JudgeCall(Ev, RTol) IN IF v # <<>> THEN Report(v) ELSE TRUE
  /\ UNCHANGED store

Init == /\ r \in 1..Len(Runs)
        /\ l = 1
        /\ store = [i \in 1..NSlots |-> <<>>]
Next == /\ l <= Len(Runs[r].evs)
        /\ Stateful \/ Pure
        /\ l' = l + 1
        /\ r' = r
Spec == Init /\ [][Next]_vars
View == <<r, l>>

RECURSIVE TotalEvents(_)
TotalEvents(n) == IF n = 0 THEN 0 ELSE TotalEvents(n - 1) + Len(Runs[n].evs)
\* every event of every run was consumed
Accepted == TLCGet("stats").distinct = Len(Runs) + TotalEvents(Len(Runs))
=============================================================================
