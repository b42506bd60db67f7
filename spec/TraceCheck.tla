----------------------------- MODULE TraceCheck -----------------------------
(***************************************************************************)
(* Checks recorded traces against the monitor: one initial state for each  *)
(* trace, one transition for each of its events.  The verdict of a trace   *)
(* is printed when its last event has been taken; every trace must get     *)
(* one.  After an event that breaks a clause the trace is followed no      *)
(* further: what comes after a departure from the specification is not     *)
(* evidence of anything else.                                              *)
(***************************************************************************)
EXTENDS Monitor, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, i, s, bad
vars == <<tr, i, s, bad>>

Init == /\ tr \in 1..Len(Traces)
        /\ i = 0
        /\ s = InitMon(Traces[tr].cfg)
        /\ bad = {}

Next ==
  LET ev == Traces[tr].ev
      j == i + 1 IN
  /\ i < Len(ev)
  /\ bad = {}
  /\ LET r == Step(s, ev[j]) IN
     /\ s' = r.s
     /\ i' = j
     /\ bad' = r.v
     /\ tr' = tr
     /\ (j = Len(ev) \/ r.v # {}) => PrintT(<<"VERDICT", tr, j, Len(ev), r.v>>)

Spec == Init /\ [][Next]_vars
View == <<tr, i>>
==============================================================================
