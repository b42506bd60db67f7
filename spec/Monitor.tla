------------------------------- MODULE Monitor -------------------------------
(***************************************************************************)
(* The observable behaviour of a Rocketry scheduling session, as an        *)
(* event-level specification.                                              *)
(*                                                                         *)
(* A session is seen through events: what its environment does (requests,  *)
(* flags that conditions read, time), what the scheduler reports (log      *)
(* records, life-cycle hooks, snapshots of the public task attributes) and *)
(* what the task bodies do (begin, end).  Step(s, ev) gives the state      *)
(* after an event together with the set of clauses that the event breaks.  *)
(* A behaviour conforms iff no event breaks a clause.                      *)
(*                                                                         *)
(* The same module is used twice: composed with the mechanism model        *)
(* (Sched.tla), where TLC shows that the design satisfies every clause in  *)
(* all its reachable states, and over traces recorded from the real code   *)
(* (TraceCheck.tla).                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Finishes == {"success", "fail", "inaction", "terminate", "crash"}
Actions  == Finishes \cup {"run"}
Never    == -1                     \* "no such time"
EmptyFun == [x \in {} |-> 0]

(* -------------------------------- state -------------------------------- *)

Tasks(s) == DOMAIN s.cfg.tasks
Tk(s, t) == s.cfg.tasks[t]
Exec(s, t)  == Tk(s, t).x
Multi(s, t) == IF Tk(s, t).m = "none" THEN s.cfg.multi ELSE Tk(s, t).m = "yes"
Prio(s, t) == Tk(s, t).p
Timeout(s, t) == IF Tk(s, t).to = "none" THEN s.cfg.timeout ELSE Tk(s, t).ton
HasTimeout(s, t) == ~Tk(s, t).perm /\ Tk(s, t).to # "never"
Special(s, t) == Tk(s, t).su \/ Tk(s, t).sd
Parallel(s, t) == Exec(s, t) \in {"async", "thread", "process"}

RunsOf(s, t) == {r \in DOMAIN s.runs : s.runs[r].t = t}
IsLive(r)    == r.st = "run" /\ r.body # "off"
LiveOf(s, t) == {r \in RunsOf(s, t) : IsLive(s.runs[r])}
LiveAll(s)   == {r \in DOMAIN s.runs : IsLive(s.runs[r])}
LiveProc(s)  == {r \in LiveAll(s) : Exec(s, s.runs[r].t) = "process"}
\* a run whose process may still be there (the body has ended but it is not yet known that nothing of it is left)
CapFull(s)   == Cardinality(LiveProc(s)) >= s.cfg.maxproc
\* whether processes of tasks that were removed count is left open
CapOver(s)   == Cardinality({r \in LiveProc(s) : s.runs[r].t \in s.here}) >= s.cfg.maxproc
\* runs of tasks that (still) belong to the session
LiveHere(s)  == {r \in LiveAll(s) : s.runs[r].t \in s.here}

NoPhase == [in |-> FALSE, now0 |-> 0, eligEver |-> {}, eligAlways |-> {}, started |-> <<>>,
            endEver |-> {}, endAlways |-> {}, ftEver |-> {}, ft0 |-> {}, capEver |-> FALSE,
            live0 |-> {}, blocked |-> {}]

InitMon(c) ==
  [cfg |-> c,
   here |-> {t \in DOMAIN c.tasks : ~c.tasks[t].late},    \* the tasks of the session
   fresh |-> {},                         \* tasks created since the last cycle began: they take part from the next one on
   leave |-> {},                         \* tasks removed since: they may take part in the cycle under way
   ph |-> "init",                        \* init startup main shutdown done
   now |-> c.now,
   pend |-> [t \in DOMAIN c.tasks |-> <<>>],
   asked |-> {},                         \* tasks that have ever been asked to run
   cond |-> [t \in DOMAIN c.tasks |-> c.tasks[t].c0],     \* "T" "F" "E"(rror) "none"
   endc |-> [t \in DOMAIN c.tasks |-> c.tasks[t].e0],
   dis  |-> [t \in DOMAIN c.tasks |-> c.tasks[t].dis],
   hold |-> FALSE, shut |-> FALSE, force |-> FALSE,
   exc  |-> "none",                      \* why the main loop was left abnormally: none exit restart fatal
   ft   |-> [t \in DOMAIN c.tasks |-> FALSE],
   ftm  |-> [t \in DOMAIN c.tasks |-> FALSE],             \* a request to stop that may or may not have been used up
   grace |-> TRUE,                       \* whether the shutdown under way lets tasks finish
   up |-> FALSE,                         \* the start-up has been completed (what the log tells is taken in by then)
   off |-> TRUE,                         \* nothing has been started, or what was started has returned
   stops |-> 0,                          \* cycles begun after the session was told to stop
   dr   |-> [n |-> 0, since |-> EmptyFun, live |-> {}],
   log  |-> <<>>,
   runs |-> EmptyFun,
   last |-> [t \in DOMAIN c.tasks |-> [a \in Actions |-> c.tasks[t].h0[a]]],
   st   |-> [t \in DOMAIN c.tasks |-> "none"],
   crashed |-> {},                       \* tasks that got their recovery record in this start-up
   st0  |-> [t \in DOMAIN c.tasks |-> c.tasks[t].s0],     \* the last action in the log found at start-up
   ret  |-> [t \in DOMAIN c.tasks |-> "none"],
   cy   |-> NoPhase,
   ncyc |-> 0]

Elig(s, t) == t \in s.here \cup s.leave /\ (s.pend[t] # <<>> \/ (~s.dis[t] /\ s.cond[t] = "T"))
\* an end condition whose check fails counts as true when such failures are silenced
EndTrue(s, t)  == s.endc[t] = "T"
EndMaybe(s, t) == s.endc[t] \in {"T", "E"}

Graceful(s) == ~s.cfg.instant /\ ~s.force /\ s.exc \in {"none", "restart"}
Over(s, r, now) == HasTimeout(s, s.runs[r].t) /\ now - s.runs[r].start > Timeout(s, s.runs[r].t)

(* May run r (of the state s) be terminated now? *)
MayTerm(s, r) ==
  LET t == s.runs[r].t IN
  \/ s.ft[t] \/ s.ftm[t] \/ t \in s.cy.ftEver
  \/ EndMaybe(s, t) \/ t \in s.cy.endEver
  \/ Over(s, r, s.now)
  \/ s.ph = "shutdown" /\ (~Graceful(s) \/ Tk(s, t).perm)
  \/ t \notin s.here /\ s.ph # "main"

Unjustified(s) == {"term_unjustified"} \cup (IF s.ph = "shutdown" THEN {"sd_kill"} ELSE {})

(* ---------------------- cycle / phase bookkeeping ---------------------- *)

OpenPhase(s) ==
  LET el == {t \in Tasks(s) : (s.ph = "main" => ~s.hold) /\ Elig(s, t)} IN
  [in |-> TRUE, now0 |-> s.now, eligEver |-> el, eligAlways |-> (el \cap s.here) \ s.fresh, started |-> <<>>,
   endEver |-> {t \in Tasks(s) : EndMaybe(s, t)}, endAlways |-> {t \in Tasks(s) : EndTrue(s, t)},
   ftEver |-> {t \in Tasks(s) : s.ft[t]}, ft0 |-> {t \in Tasks(s) : s.ft[t]},
   capEver |-> CapFull(s), live0 |-> LiveAll(s),
   blocked |-> {t \in Tasks(s) : Parallel(s, t) /\ ~Multi(s, t) /\ LiveOf(s, t) # {}}]

(* Re-evaluate what may have changed in the middle of a cycle *)
Upd(s) ==
  IF ~s.cy.in THEN s ELSE
  LET el == {t \in Tasks(s) : (s.ph = "main" => ~s.hold) /\ Elig(s, t)}
      st == {s.cy.started[i] : i \in DOMAIN s.cy.started} IN
  [s EXCEPT !.cy.eligEver = @ \cup el,
            !.cy.eligAlways = @ \cap ((el \cap s.here) \cup st),
            !.cy.endEver = @ \cup {t \in Tasks(s) : EndMaybe(s, t)},
            !.cy.endAlways = @ \cap {t \in Tasks(s) : EndTrue(s, t)},
            !.cy.ftEver = @ \cup {t \in Tasks(s) : s.ft[t]},
            !.cy.capEver = @ \/ CapFull(s)]

Ok(s)    == [s |-> s, v |-> {}]
Out(s, v) == [s |-> s, v |-> v]
If(b, c) == IF b THEN {c} ELSE {}

(* ------------------------------ the events ----------------------------- *)

Env(s, ev) ==
  CASE ev.a = "req"  -> Ok(Upd([s EXCEPT !.pend[ev.t] = Append(@, ev.tag), !.asked = @ \cup {ev.t}]))
    [] ev.a = "cond" -> Ok(Upd([s EXCEPT !.cond[ev.t] = ev.v]))
    [] ev.a = "end"  -> Ok(Upd([s EXCEPT !.endc[ev.t] = ev.v]))
    [] ev.a = "dis"  -> Ok(Upd([s EXCEPT !.dis[ev.t] = ev.v]))
    [] ev.a = "term" -> Ok(Upd([s EXCEPT !.ft[ev.t] = TRUE]))
    [] ev.a = "hold" -> Ok(Upd([s EXCEPT !.hold = ev.v]))
    \* told both to shut down and to restart, it shuts down
    [] ev.a = "shut" -> Ok(Upd([s EXCEPT !.force = @ \/ ev.v \/ (s.shut /\ ev.again), !.shut = TRUE,
                                         !.exc = IF @ = "restart" /\ s.ph = "main" THEN "none" ELSE @]))
    [] ev.a = "exc"  -> Ok([s EXCEPT !.exc = IF ev.v = "restart" /\ s.shut THEN @ ELSE ev.v])
    [] ev.a = "add"  -> Out(Upd([s EXCEPT !.here = @ \cup {ev.t}, !.fresh = @ \cup {ev.t}]), {})
    [] ev.a = "del"  -> Out(Upd([s EXCEPT !.here = @ \ {ev.t}, !.leave = @ \cup {ev.t}]), {})
    [] OTHER -> Ok(s)

(* A log record that a run began *)
RecRun(s, ev) ==
  LET t == ev.t
      started == {s.cy.started[i] : i \in DOMAIN s.cy.started}
      rightPhase == \/ s.ph = "main" /\ s.cy.in /\ ~Special(s, t)
                    \/ s.ph = "startup" /\ Tk(s, t).su
                    \/ s.ph = "shutdown" /\ Tk(s, t).sd
      tag == IF s.pend[t] # <<>> THEN Head(s.pend[t]) ELSE "-"
      inv == {u \in Tasks(s) : /\ Prio(s, u) > Prio(s, t)
                               /\ u \in s.cy.eligAlways /\ u \notin started /\ u \notin s.cy.blocked
                               /\ CASE s.ph = "main" -> ~Special(s, u)
                                    [] s.ph = "startup" -> Tk(s, u).su
                                    [] s.ph = "shutdown" -> Tk(s, u).sd
                                    [] OTHER -> FALSE
                               /\ (Exec(s, u) = "process" => ~s.cy.capEver)}
      v == If(ev.rid \in DOMAIN s.runs, "dup_rid")
           \cup If(ev.rid = "none", "no_rid")
           \cup If(~rightPhase, "start_phase")
           \cup If((rightPhase /\ t \notin s.cy.eligEver) \/ (s.ph = "main" /\ s.hold), "start_unallowed")
           \cup If(rightPhase /\ t \notin s.cy.eligEver /\ s.ph # "main", "start_special")
           \cup If(t \notin s.here \cup s.leave, "start_removed")
           \cup If(rightPhase /\ t \notin s.cy.eligEver /\ s.cond[t] \in {"none", "F"} /\ t \in s.asked, "req_extra")
           \cup If(Parallel(s, t) /\ ~Multi(s, t) /\ LiveOf(s, t) # {}, "overlap")
           \cup If(Exec(s, t) = "process" /\ CapOver(s), "cap")
           \cup If(rightPhase /\ t \in started, "start_twice")
           \cup If(rightPhase /\ inv # {}, "prio")
           \cup If(ev.created # s.now \/ ev.start > s.now \/ (rightPhase /\ ev.start < s.cy.now0), "rec_time")
      run == [t |-> t, start |-> ev.start, st |-> "run", body |-> "no", out |-> "none", tag |-> tag,
              flag |-> FALSE, ret |-> "none", off |-> Never, n |-> Cardinality(DOMAIN s.runs)]
      s1 == [s EXCEPT !.runs = (ev.rid :> run) @@ @,
                      !.pend[t] = IF @ # <<>> THEN Tail(@) ELSE @,
                      !.last[t]["run"] = ev.created,
                      !.st[t] = "run",
                      !.cy.started = Append(@, t)]
      s2 == Upd(s1)
  IN Out([s2 EXCEPT !.cy.eligAlways = IF t \in s.cy.eligAlways THEN @ \cup {t} ELSE @], v)

Expect(out) == CASE out = "ok" -> {"success"} [] out = "exit" -> {"success"} [] out = "err" -> {"fail"}
                 [] out = "inact" -> {"inaction"} [] out = "selfterm" -> {"terminate"}
                 [] out = "bad" -> {"fail"}
                 [] out = "cancel" -> {"terminate"} [] out = "flagterm" -> {"terminate"}
                 [] OTHER -> {}

(* A log record that a run ended *)
RecEnd(s, ev) ==
  LET t == ev.t
      base == [s EXCEPT !.last[t][ev.act] = ev.created, !.st[t] = ev.act] IN
  IF ev.act = "crash"
  THEN Out([base EXCEPT !.crashed = @ \cup {t}],
           If(s.ph # "startup" \/ s.st0[t] \notin {"run", "any-run"} \/ t \in s.crashed, "crash_spurious"))
  ELSE IF ev.rid \notin DOMAIN s.runs
  THEN Out(base, {"finish_unknown"})
  ELSE
  LET r == s.runs[ev.rid]
      killed == ev.act = "terminate" /\ r.body \in {"no", "on"} /\ Exec(s, t) \in {"async", "process"}
      unset  == ev.act = "fail" /\ r.body = "no" /\ Tk(s, t).bad = "stage"
      v == If(r.st # "run", "finish_twice")
           \cup If(r.t # t, "finish_task")
           \cup If(r.body = "off" /\ ev.act \notin Expect(r.out), "outcome")
           \cup If(r.body # "off" /\ ~killed /\ ~unset, "finish_early")
           \cup If(r.body = "off" /\ r.out \in {"cancel", "flagterm"} /\ ev.act # "terminate", "term_outcome")
           \cup (IF killed /\ ~MayTerm(s, ev.rid) THEN Unjustified(s) ELSE {})
           \cup (IF r.body = "off" /\ r.out = "cancel" /\ ~MayTerm(s, ev.rid) THEN Unjustified(s) ELSE {})
           \cup If(ev.start # r.start \/ ev.end # ev.created, "rec_span")
           \cup If(ev.created > s.now \/ ev.created < r.start \/ ev.created < r.off \/ (Exec(s, t) = "process" /\ r.off # Never /\ ev.created # r.off)
                  \/ (r.off = Never /\ ev.created # s.now), "rec_time")
           \cup If(s.ph = "done" /\ t \in s.here, "late_record")
      s1 == [base EXCEPT !.runs[ev.rid].st = ev.act,
                         !.runs[ev.rid].body = "off",
                         \* a run that ends itself as terminated takes a request to terminate with it
                         !.cy.ft0 = IF r.out = "selfterm" THEN @ \ {t} ELSE @,
                         !.ftm[t] = @ \/ r.out = "selfterm",
                         !.ret[t] = IF ev.act = "success" /\ r.out = "ok" THEN r.ret ELSE @]
  IN Out(Upd(s1), v)

BodyBegin(s, ev) ==
  IF ev.rid \notin DOMAIN s.runs THEN Out(s, {"body_unlogged"})
  ELSE
  LET r == s.runs[ev.rid] t == r.t
      others == {q \in RunsOf(s, t) \ {ev.rid} : s.runs[q].body = "on"}
      v == If(r.body # "no", "body_twice")
           \cup If(r.st # "run", "body_after_finish")
           \cup If(~Multi(s, t) /\ others # {}, "overlap")
           \cup If(ev.tag # r.tag /\ ~(r.tag = "auto" /\ ev.tag = "-"), "req_param")
           \cup If(s.ph = "done" /\ t \in s.here, "late_body")
  IN Out([s EXCEPT !.runs[ev.rid].body = "on"], v)

BodyEnd(s, ev) ==
  IF ev.rid \notin DOMAIN s.runs THEN Out(s, {"body_unlogged"})
  ELSE LET r == s.runs[ev.rid] IN
  Out(Upd([s EXCEPT !.runs[ev.rid].body = "off", !.runs[ev.rid].out = ev.out, !.runs[ev.rid].off = s.now, !.runs[ev.rid].ret = ev.ret]),
      IF ev.out \in {"cancel", "flagterm"} /\ ~MayTerm(s, ev.rid) THEN Unjustified(s) ELSE {})

(* What the public attributes of the tasks show *)
SnapViol(s, ev, full) ==
  UNION {LET q == ev.tasks[t] IN
         If(full /\ s.st[t] \notin {"any", "any-run"} /\ q.st # s.st[t], "status")
         \cup If(full /\ \E a \in Actions : q.last[a] # s.last[t][a], "last_times")
         \cup If(q.n # Cardinality(LiveOf(s, t)) \/ q.alive # (LiveOf(s, t) # {}), "alive")
         \cup If(q.ret # s.ret[t], "returns")
         : t \in DOMAIN ev.tasks}

(* Runs that had to be ended during the cycle but are there, not even asked to stop *)
TermMissed(s, flags) ==
  {r \in s.cy.live0 \cap LiveAll(s) :
     LET t == s.runs[r].t IN
     /\ Parallel(s, t) /\ t \in s.here \ s.fresh
     /\ ~(Exec(s, t) = "thread" /\ r \in flags)
     /\ \/ t \in s.cy.ft0
        \/ t \in s.cy.endAlways
        \/ Over(s, r, s.cy.now0)}

StartMissed(s, who) ==
  {t \in who : /\ t \in s.cy.eligAlways
               /\ t \notin {s.cy.started[i] : i \in DOMAIN s.cy.started}
               /\ t \notin s.cy.blocked
               /\ (Exec(s, t) = "process" => ~s.cy.capEver)}

Flags(ev) == {ev.flags[i] : i \in DOMAIN ev.flags}
BadFlags(s, ev) == {r \in Flags(ev) : r \in DOMAIN s.runs /\ ~s.runs[r].flag /\ s.runs[r].body = "on" /\ ~MayTerm(s, r)}
MarkFlags(s, ev) == [s EXCEPT !.runs = [r \in DOMAIN @ |-> IF r \in Flags(ev) THEN [@[r] EXCEPT !.flag = TRUE] ELSE @[r]]]

(* Special tasks without a start condition get one run of their own *)
AutoReq(s, who) ==
  [s EXCEPT !.pend = [t \in DOMAIN @ |-> IF t \in who /\ s.cond[t] = "none" /\ ~s.dis[t]
                                         THEN Append(@[t], "auto") ELSE @[t]]]

SU(s) == {t \in s.here : Tk(s, t).su}
SD(s) == {t \in s.here : Tk(s, t).sd}

(* What the log tells of a task at start-up.  Records of a process are logged after they were made, so when there are
   several at the same time there is no telling which is the latest. *)
FromLog(s, t) ==
  IF s.ph = "init" THEN s.st0[t]
  ELSE IF Exec(s, t) # "process" THEN s.st[t]
  ELSE LET m == CHOOSE x \in {s.last[t][a] : a \in Actions} : \A a \in Actions : s.last[t][a] <= x
           c == {a \in Actions : s.last[t][a] = m} IN
       IF m = Never THEN "none" ELSE IF Cardinality(c) = 1 THEN CHOOSE a \in c : TRUE
       ELSE IF "run" \in c THEN "any-run" ELSE "any"

Startup0(s, ev) ==
  LET st0 == [t \in Tasks(s) |-> FromLog(s, t)]
      s1 == AutoReq([s EXCEPT !.ph = "startup", !.shut = FALSE, !.force = FALSE, !.hold = FALSE, !.exc = "none", !.ncyc = 0,
                              !.crashed = {}, !.stops = 0, !.fresh = {}, !.leave = {}, !.up = FALSE, !.off = FALSE, !.st0 = st0, !.st = st0,
                              !.ftm = [t \in Tasks(s) |-> s.ft[t] \/ s.ftm[t]],
                              !.ft = [t \in Tasks(s) |-> FALSE]], SU(s))
  IN Out([s1 EXCEPT !.cy = OpenPhase(s1)], If(s.ph \notin {"init", "done"}, "phase_order")
         \cup If(~s.off /\ s.exc # "restart", "restart_unasked"))

Startup1(s, ev) ==
  Out([s EXCEPT !.cy = NoPhase, !.ph = "main", !.up = TRUE],
      If(s.ph # "startup" \/ s.exc # "none", "phase_order")
      \cup If(StartMissed(s, SU(s)) # {}, "startup_missed")
      \cup If(~({t \in s.here : s.st0[t] = "run"} \subseteq s.crashed), "crash_missing")
      \cup SnapViol(s, ev, TRUE))

Stopping(s) == s.shut \/ s.exc = "restart"
Dead(s)     == s.exc \in {"exit", "fatal"}

Cyc0(s, ev) ==
  Out([s EXCEPT !.cy = OpenPhase(s), !.ncyc = @ + 1, !.stops = IF Stopping(s) THEN @ + 1 ELSE @],
      If(s.ph # "main" \/ s.cy.in, "phase_order")
      \* the session may be told to stop just before a cycle begins, but then no other cycle does
      \cup If(s.stops > 0 \/ Dead(s) \/ (s.cfg.shutcyc > 0 /\ s.ncyc >= s.cfg.shutcyc), "not_stopped"))

Cyc1(s, ev) ==
  LET normal == {t \in Tasks(s) : ~Special(s, t)}
      s1 == MarkFlags(s, ev)
      v == If(s.ph # "main" \/ ~s.cy.in, "phase_order")
           \cup If(Dead(s), "not_stopped")
           \cup If(StartMissed(s, normal) # {}, "start_missed")
           \cup If(\E t \in StartMissed(s, normal) : s.pend[t] # <<>>, "req_missed")
           \cup If(TermMissed(s, Flags(ev)) # {}, "term_missed")
           \cup If(BadFlags(s, ev) # {}, "term_unjustified")
           \* of a task that was removed: its runs go on, and their end is logged
           \cup If(\E r \in DOMAIN s.runs : s.runs[r].t \notin s.here /\ s.runs[r].st = "run" /\ s.runs[r].body = "off" /\ s.runs[r].off < s.cy.now0,
                  "removed_unlogged")
           \cup If(DOMAIN ev.tasks # s.here, "tasks")
           \cup SnapViol(s, ev, TRUE)
      ft1 == [t \in Tasks(s) |-> s.ft[t] /\ (t \notin s.cy.ftEver \/ t \in s.fresh)]
  IN Out([s1 EXCEPT !.cy = NoPhase, !.fresh = {}, !.leave = {}, !.ft = ft1, !.ftm = [t \in Tasks(s) |-> FALSE]], v)

Shutdown0(s, ev) ==
  LET s0 == [s EXCEPT !.ph = "shutdown", !.cy = NoPhase, !.fresh = {}, !.leave = {}, !.grace = Graceful(s), !.dr = [n |-> 0, since |-> EmptyFun, live |-> {}],
                      !.ftm = [t \in Tasks(s) |-> s.ft[t] \/ s.ftm[t] \/ t \in s.cy.ftEver]]
      s1 == AutoReq(s0, SD(s))
  IN Out([s1 EXCEPT !.cy = OpenPhase(s1)],
         If(\/ s.ph \notin {"main", "startup"}
            \/ s.ph = "startup" /\ ~Dead(s)
            \/ s.cy.in /\ ~Dead(s), "phase_order")
         \cup If(/\ s.ph = "main" /\ ~s.shut /\ s.exc = "none"
                 /\ ~(s.cfg.shutcyc > 0 /\ s.ncyc >= s.cfg.shutcyc), "stopped_early"))

(* A turn of the loop that waits for the tasks at shutdown.  Runs that have to be ended are ended, one by one,
   within a bounded number of turns. *)
DrainWindow == 20
MustEnd(s, r) ==
  LET t == s.runs[r].t IN
  Parallel(s, t) /\ (~s.grace \/ Tk(s, t).perm \/ EndTrue(s, t) \/ Over(s, r, s.now))
Drain(s, ev) ==
  LET must == {r \in LiveHere(s) : MustEnd(s, r) /\ ~(Exec(s, s.runs[r].t) = "thread" /\ r \in Flags(ev))}
      since == [r \in must |-> IF r \in DOMAIN s.dr.since /\ s.dr.live = LiveAll(s) THEN s.dr.since[r] ELSE s.dr.n]
      s1 == MarkFlags(s, ev)
  IN IF s.ph # "shutdown" THEN Ok(s) ELSE
     Out([s1 EXCEPT !.dr = [n |-> @.n + 1, since |-> since, live |-> LiveAll(s)]],
         (IF BadFlags(s, ev) # {} THEN Unjustified(s) ELSE {})
         \cup (IF \E r \in must : s.dr.n - since[r] > DrainWindow THEN {"term_missed", "sd_left"} ELSE {}))

Shutdown1(s, ev) ==
  Out([s EXCEPT !.ph = "done", !.cy = NoPhase],
      If(s.ph # "shutdown", "phase_order")
      \cup If(~Dead(s) /\ StartMissed(s, SD(s)) # {}, "shutdown_missed")
      \* what becomes of runs whose task was removed is left open
      \cup If(LiveHere(s) # {}, "alive_after")
      \cup If({r \in DOMAIN s.runs : s.runs[r].t \in s.here /\ s.runs[r].st = "run"} # {}, "unfinished")
      \cup SnapViol(s, ev, s.up))

Served(s, ev) ==
  Out([s EXCEPT !.off = TRUE],
         If(s.ph # "done", "phase_order")
         \cup If(ev.exc # "none" /\ s.exc # "fatal", "scheduler_died")
         \cup If(ev.exc = "none" /\ s.exc = "fatal", "error_lost")
         \cup If(s.exc = "restart", "restart_lost")
         \cup If(ev.isalive, "not_down"))

(* What is in the log in the end is what was logged, in that order *)
LogEv(s, ev) == Out(s, If(ev.log # s.log, "log"))

Step0(s, ev) ==
  CASE ev.e = "env" -> Env(s, ev)
    [] ev.e = "rec" /\ ev.t \notin Tasks(s) -> Out(s, {"unknown_task"})
    [] ev.e = "rec" /\ ev.act = "run" -> RecRun(s, ev)
    [] ev.e = "rec" -> RecEnd(s, ev)
    [] ev.e = "b0" -> BodyBegin(s, ev)
    [] ev.e = "b1" -> BodyEnd(s, ev)
    [] ev.e = "startup0" -> Startup0(s, ev)
    [] ev.e = "startup1" -> Startup1(s, ev)
    [] ev.e = "cyc0" -> Cyc0(s, ev)
    [] ev.e = "cyc1" -> Cyc1(s, ev)
    [] ev.e = "shutdown0" -> Shutdown0(s, ev)
    [] ev.e = "shutdown1" -> Shutdown1(s, ev)
    [] ev.e = "served" -> Served(s, ev)
    [] ev.e = "drain" -> Drain(s, ev)
    [] ev.e = "log" -> LogEv(s, ev)
    [] ev.e = "hang" -> Out(s, {"hang"})
    [] OTHER -> Ok(s)

Step(s, ev) ==
  LET back == ev.now < s.now
      s1 == IF ev.e = "rec" THEN [s EXCEPT !.now = ev.now, !.log = Append(@, <<ev.t, ev.act, ev.created>>)]
            ELSE [s EXCEPT !.now = ev.now]
      r == Step0(s1, ev)
  IN [s |-> r.s, v |-> r.v \cup If(back, "clock_back")]
==============================================================================
