--------------------------------- MODULE Logs ---------------------------------
(***************************************************************************)
(* The log of the tasks: what is read from it is what was written to it,   *)
(* and what becomes of a session when a record cannot be written.          *)
(* A record of a log: [t |-> task, a |-> action, ...].                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ends == {"success", "fail", "inaction", "terminate"}
Of(log, t) == SelectSeq(log, LAMBDA r : r.t = t)
CountOf(s, P(_)) == Cardinality({i \in DOMAIN s : P(s[i])})

(***************************************************************************)
(* Faults: the records of each task, those that could not be written too   *)
(* (b |-> TRUE).  A run whose beginning could not be logged is failed      *)
(* without its body (a process, which runs on its own, goes on); a run     *)
(* whose end could not be logged has failed, which may be logged.          *)
(* st: "idle", "on" (a run under way), "fail" (a failure is still to be    *)
(* logged), "ended" (by a record that could not be written) or "was"       *)
(* (under way according to the log that is there at start-up)              *)
(***************************************************************************)
After(st, r, ex) ==                                         \* -> the next st, "?" when r may not come here
  CASE st \in {"idle", "ended"} /\ r.a = "run" -> IF r.b /\ ex # "process" THEN "fail" ELSE "on"
    [] st = "was" /\ r.a = "crash" -> IF r.b THEN "ended" ELSE "idle"
    [] st = "fail" /\ r.a = "fail" -> IF r.b THEN "ended" ELSE "idle"
    [] st = "ended" /\ r.a = "fail" -> IF r.b THEN "ended" ELSE "idle"
    [] st = "on" /\ r.a \in Ends -> IF r.b THEN "ended" ELSE "idle"
    [] OTHER -> "?"
RECURSIVE Run(_, _, _, _)
Run(log, i, st, ex) == IF i > Len(log) \/ st = "?" THEN st ELSE Run(log, i + 1, After(st, log[i], ex), ex)
StatusOf(log) == IF log = <<>> THEN "none" ELSE LET r == log[Len(log)] IN IF ~r.b THEN r.a ELSE IF r.a = "run" THEN "run" ELSE "fail"

Hit(c) == \E i \in DOMAIN c.log : c.log[i].b
Orderly(c) == c.silent \/ ~Hit(c)                           \* whether the session has to get to its end
TaskOk(c, n) ==
  LET t == c.ts[n]
      all == Of(c.log, n)
      log == IF t.was /\ all # <<>> /\ all[1].a = "crash" THEN Tail(all) ELSE all
      bodies == CountOf(c.ev, LAMBDA e : e.e = "body" /\ e.t = n)
      runs == CountOf(log, LAMBDA r : r.a = "run")
      begun == CountOf(log, LAMBDA r : r.a = "run" /\ (~r.b \/ t.ex = "process"))
      out == IF t.out = "long" THEN "terminate" ELSE t.out IN
  /\ Run(all, 1, IF t.was /\ (Orderly(c) \/ (all # <<>> /\ all[1].a = "crash")) THEN "was" ELSE "idle", t.ex) \in {"idle", "ended"}
  /\ c.status[n] = StatusOf(all)
  /\ bodies <= begun
  /\ \A i \in DOMAIN log : log[i].a \in Ends => log[i].a \in {out, "fail"} \cup (IF Orderly(c) THEN {} ELSE {"terminate"})
  /\ \A i \in DOMAIN log : i > 1 /\ log[i].a = "fail" /\ out # "fail" => \E j \in 1..(i - 1) : log[j].b     \* only for a record that could not be written
  /\ Orderly(c) => /\ bodies = begun \/ t.out = "long"              \* (may be stopped before it gets to its body)
                   /\ t.when # "cycle" => runs = 1
                   /\ t.when = "cycle" => runs >= 1
                   /\ t.when = "cycle" /\ t.ex = "main" => runs = c.n         \* in every cycle, faulty or not
  /\ c.repo[n] = [i \in 1..Len(SelectSeq(all, LAMBDA r : c.first \/ ~r.b)) |-> SelectSeq(all, LAMBDA r : c.first \/ ~r.b)[i].a]
PhasesOk(c) ==                                              \* start-up, whole cycles, shutdown to its end
  LET ph == SelectSeq(c.ev, LAMBDA e : e.e # "body") IN
  /\ Len(ph) >= 3 /\ ph[1].e = "startup" /\ ph[1].p = "pre"
  /\ c.ev[Len(c.ev)] = ph[Len(ph)] /\ ph[Len(ph)].e = "shutdown" /\ ph[Len(ph)].p = "post"
  /\ ph[Len(ph) - 1].e = "shutdown" /\ ph[Len(ph) - 1].p = "pre"
  /\ \A i \in DOMAIN ph : ph[i].e = "shutdown" => i >= Len(ph) - 1
JudgeFaults(c) ==
  /\ c.alive = 0 /\ c.late = 0
  /\ c.e = IF Orderly(c) THEN "" ELSE "TaskLoggingError"
  /\ IF Orderly(c) THEN c.cycles = c.n ELSE c.cycles <= c.n
  /\ PhasesOk(c)
  /\ \A n \in DOMAIN c.ts : TaskOk(c, n)

(***************************************************************************)
(* Reading: log is what was logged, in order; each reading of it gives the *)
(* records asked for, as they are, up to then, in that order.              *)
(***************************************************************************)
Asked(log, r) == SelectSeq(SubSeq(log, 1, r.upto), LAMBDA x : (r.t = "" \/ x.t = r.t) /\ (r.as = <<>> \/ \E i \in DOMAIN r.as : r.as[i] = x.a))
LastOnly(s) == IF s = <<>> THEN s ELSE <<s[Len(s)]>>
ReadOk(log, r) ==
  LET want == IF r.how = "latest" THEN LastOnly(Asked(log, r)) ELSE Asked(log, r) IN
  /\ Len(r.got) = Len(want)
  /\ \A n \in {want[i].t : i \in DOMAIN want} :               \* in order for each task (those of others may be logged at the same time)
       LET w == Of(want, n)
           g == Of(r.got, n) IN
       /\ Len(g) = Len(w)
       /\ \A i \in DOMAIN w : g[i].a = w[i].a /\ g[i].f = w[i].f
(* What the records of a run tell: its run's beginning, its end, how long it took *)
RecordsOk(log) == \A j \in DOMAIN log :
  /\ log[j].took                                            \* its times agree, by the session's clock
  /\ log[j].told                                            \* a failure tells its error, nothing else does
  /\ log[j].a = "run" => log[j].end = "none" /\ log[j].runtime = "none"
  /\ log[j].a \in Ends => \E i \in 1..(j - 1) : log[i].a = "run" /\ log[i].t = log[j].t /\ log[i].run = log[j].run /\ log[i].start = log[j].start
(* The status and the last times of a task, the same for a session that starts over the log *)
LastOf(log, n, a) == LET s == SelectSeq(log, LAMBDA x : x.t = n /\ x.a = a) IN IF s = <<>> THEN "none" ELSE s[Len(s)].at
StateOf(log, n) == LET s == Of(log, n) IN
  <<IF s = <<>> THEN "none" ELSE s[Len(s)].a, LastOf(log, n, "run"), LastOf(log, n, "success"), LastOf(log, n, "fail")>>
JudgeRead(c) ==
  /\ c.e = "" /\ c.wrote = 0
  /\ RecordsOk(c.log)
  /\ \A i \in DOMAIN c.reads : ReadOk(c.log, c.reads[i])
  /\ \A n \in DOMAIN c.status : c.status[n][1] = StateOf(c.log, n)[1] /\ c.status2[n] = StateOf(c.log, n)

JudgeLogs(c) ==
  /\ c.k # "broken"
  /\ c.k = "faults" => JudgeFaults(c)
  /\ c.k = "read" => JudgeRead(c)
===============================================================================
