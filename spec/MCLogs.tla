-------------------------------- MODULE MCLogs --------------------------------
(***************************************************************************)
(* A session whose log fails now and then, one task of each execution:     *)
(* whatever fails to be written and whenever, what it leaves is what       *)
(* JudgeFaults expects of it, and it always gets to its end.               *)
(***************************************************************************)
EXTENDS Logs
CONSTANTS Names, N, MaxBad, Mode        \* Mode: "ok", or a way to go wrong: "stop" (a silenced failure ends it), "leave" (runs left under way)
VARIABLES silent, phase, cyc, todo, on, log, ev, err, bad
vars == <<silent, phase, cyc, todo, on, log, ev, err, bad>>

Ex == [a |-> "main", b |-> "async", c |-> "process"]
Out == [a |-> "success", b |-> "long", c |-> "fail"]
OutOf(n) == IF Out[n] = "long" THEN "terminate" ELSE Out[n]
E_(e, p) == [e |-> e, p |-> p, t |-> ""]
B_(n) == [e |-> "body", p |-> "", t |-> n]
R_(n, a, b) == [t |-> n, a |-> a, b |-> b]
Can(b) == b => bad < MaxBad
Fails(b) == b /\ (~silent \/ Mode = "stop")
Init == /\ silent \in BOOLEAN /\ phase = "cycle" /\ cyc = 0 /\ todo = Names /\ on = {} /\ log = <<>> /\ err = FALSE /\ bad = 0
        /\ ev = <<E_("startup", "pre"), E_("startup", "post"), E_("cycle", "pre")>>
Stop(b) == IF Fails(b) THEN phase' = "down" /\ err' = TRUE /\ ev' = Append(ev, E_("shutdown", "pre")) ELSE UNCHANGED <<phase, err, ev>>
(* A task's turn: it begins unless it is under way; a failure to log that fails the run (a process goes on) *)
Turn(n, b, b2) ==
  /\ phase = "cycle" /\ n \in todo /\ n \notin on /\ Can(b)
  /\ LET dead == b /\ Ex[n] # "process"
         now == Ex[n] = "main" /\ ~b IN                    \* the body of a main task is part of its turn
     /\ (b2 => (dead \/ now) /\ bad + (IF b THEN 1 ELSE 0) < MaxBad)
     /\ log' = log \o <<R_(n, "run", b)>> \o (IF dead THEN <<R_(n, "fail", b2)>> ELSE IF now THEN <<R_(n, OutOf(n), b2)>> ELSE <<>>)
     /\ on' = IF dead \/ now THEN on ELSE on \cup {n}
     /\ bad' = bad + (IF b THEN 1 ELSE 0) + (IF b2 THEN 1 ELSE 0)
     /\ todo' = todo \ {n}
     /\ LET evb == IF dead THEN ev ELSE Append(ev, B_(n)) IN
        IF Fails(b \/ b2) THEN phase' = "down" /\ err' = TRUE /\ ev' = Append(evb, E_("shutdown", "pre"))
        ELSE UNCHANGED <<phase, err>> /\ ev' = evb
  /\ UNCHANGED <<silent, cyc>>
Skip(n) == phase = "cycle" /\ n \in todo /\ n \in on /\ todo' = todo \ {n} /\ UNCHANGED <<silent, phase, cyc, on, log, ev, err, bad>>
(* A run under way ends: by itself, or stopped *)
Finish(n, b) ==
  /\ n \in on /\ Can(b) /\ ~(Mode = "leave" /\ phase = "down")
  /\ log' = Append(log, R_(n, IF phase = "down" /\ err THEN "terminate" ELSE OutOf(n), b))
  /\ on' = on \ {n} /\ bad' = bad + (IF b THEN 1 ELSE 0)
  /\ IF phase = "down" THEN err' = (err \/ Fails(b)) /\ UNCHANGED <<phase, ev>> ELSE Stop(b)
  /\ UNCHANGED <<silent, cyc, todo>>
Cycle == /\ phase = "cycle" /\ todo = {}
         /\ cyc' = cyc + 1
         /\ IF cyc' = N THEN phase' = "down" /\ todo' = {} /\ ev' = ev \o <<E_("cycle", "post"), E_("shutdown", "pre")>>
            ELSE phase' = phase /\ todo' = Names /\ ev' = ev \o <<E_("cycle", "post"), E_("cycle", "pre")>>
         /\ UNCHANGED <<silent, on, log, err, bad>>
Over == phase = "down" /\ (on = {} \/ Mode = "leave") /\ phase' = "over" /\ ev' = Append(ev, E_("shutdown", "post"))
        /\ UNCHANGED <<silent, cyc, todo, on, log, err, bad>>
Next == \/ \E n \in Names, b, b2 \in BOOLEAN : Turn(n, b, b2)
        \/ \E n \in Names : Skip(n) \/ \E b \in BOOLEAN : Finish(n, b)
        \/ Cycle \/ Over
Spec == Init /\ [][Next]_vars

Made == [silent |-> silent, n |-> N, ts |-> [n \in Names |-> [ex |-> Ex[n], when |-> "cycle", out |-> Out[n], was |-> FALSE]], log |-> log,
         e |-> IF err THEN "TaskLoggingError" ELSE "", alive |-> Cardinality(on), late |-> 0, ev |-> ev, first |-> TRUE,
         repo |-> [n \in Names |-> [i \in 1..Len(Of(log, n)) |-> Of(log, n)[i].a]], status |-> [n \in Names |-> StatusOf(Of(log, n))],
         cycles |-> CountOf(ev, LAMBDA e : e.e = "cycle" /\ e.p = "post")]
Judged == phase = "over" => JudgeFaults(Made)
CanEnd == phase # "over" => ENABLED Next
===============================================================================
