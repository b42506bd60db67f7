-------------------------------- MODULE Sched --------------------------------
(***************************************************************************)
(* The mechanism of the scheduler: the cycle loop, run stacks, queued      *)
(* requests, termination, the log queue of the processes, start-up and     *)
(* shutdown, against a nondeterministic environment (requests, flags of    *)
(* conditions, time, how and when task bodies end).                        *)
(*                                                                         *)
(* Everything observable is emitted as events into the monitor             *)
(* (Monitor.tla); the invariant is that no clause is ever broken.  Bug     *)
(* selects a deliberately wrong mechanism, for which TLC has to find a     *)
(* broken clause: that shows that the clauses bite.                        *)
(*                                                                         *)
(* The choices of the environment along a behaviour make a script that is  *)
(* replayed on the real code (with -simulate, Emit = TRUE), together with  *)
(* what the mechanism predicts: which runs start and finish in each phase. *)
(***************************************************************************)
EXTENDS Monitor, SequencesExt, Json

CONSTANTS Cfgs,        \* the configurations to explore
          MaxCyc,      \* cycles of a serve
          MaxServe,    \* how many times the session is served
          MaxRuns,     \* bound on the number of runs
          ActKinds,    \* what the environment does before a cycle
          Outs,        \* how bodies end
          DTs,         \* how far the clock moves before a cycle
          Ends,        \* how serves are ended: "shut" "force" "restart" "rsshut" "shutrs" (both, in that order)
          DrainAt,     \* the turn of the shutdown at which the bodies are let go
          Bug, Emit

VARIABLES m, mon, v, pc
vars == <<m, mon, v, pc>>

Names(c) == DOMAIN c.tasks
\* tasks are inspected by priority; the configurations have distinct priorities
Order(c, rev) == LET n == Cardinality(Names(c)) IN
  SetToSortSeq(Names(c), LAMBDA a, b : IF rev THEN c.tasks[a].p < c.tasks[b].p ELSE c.tasks[a].p > c.tasks[b].p)

(* ------------------------- a functional state: x ----------------------- *)
(* x = [m |-> mechanism, mon |-> monitor, v |-> clauses broken]            *)

EmitEv(x, ev) ==
  LET r == Step(x.mon, [now |-> x.m.now] @@ ev)
      newg == ev.e \in {"startup0", "cyc0", "cyc1", "shutdown0"}
      rec == ev.e = "rec"
  IN [x EXCEPT !.mon = r.s, !.v = @ \cup r.v,
               !.m.pred = IF ~Emit THEN @ ELSE IF newg THEN Append(@, <<>>)
                          ELSE IF rec THEN [x.m.pred EXCEPT ![Len(x.m.pred)] = Append(@, <<ev.t, ev.act>>)] ELSE @]

Rec(x, t, act, rid, start, created) ==
  LET x1 == EmitEv(x, [e |-> "rec", t |-> t, act |-> act, rid |-> rid, created |-> created, start |-> start,
                       end |-> IF act = "run" THEN Never ELSE created])
  IN [x1 EXCEPT !.m.st[t] = act, !.m.last[t][act] = created]

B0(x, rid) == [EmitEv(x, [e |-> "b0", rid |-> rid, tag |-> x.m.runs[rid].tag]) EXCEPT !.m.runs[rid].begun = TRUE]

ActOf(out) == CASE out \in {"ok", "exit"} -> "success" [] out = "err" -> "fail" [] out = "inact" -> "inaction" [] OTHER -> "terminate"

X(x, t) == x.mon.cfg.tasks[t].x
Alive(x) == {r \in DOMAIN x.m.runs : x.m.runs[r].alive}
AliveOf(x, t) == {r \in Alive(x) : x.m.runs[r].t = t}
\* only tasks of the session are looked at
AliveHere(x) == {r \in Alive(x) : x.m.runs[r].t \in x.m.here}
ByAge(x, S) == SetToSortSeq(S, LAMBDA a, b : x.m.runs[a].n < x.m.runs[b].n)

(* The body of a run ends by itself *)
EndBody(x, r, out) ==
  LET q == x.m.runs[r]
      t == q.t
      val == IF out = "ok" THEN "1" ELSE "none"
      x1 == EmitEv(x, [e |-> "b1", rid |-> r, out |-> out, ret |-> val])
      x2 == [x1 EXCEPT !.m.runs[r].alive = FALSE]
      start == IF Bug = "span" THEN x.m.last[t]["run"] ELSE q.start
      rid == IF Bug = "norid" /\ out = "inact" THEN "none" ELSE r
  IN CASE X(x, t) = "process" ->
            [x2 EXCEPT !.m.q = Append(@, [t |-> t, act |-> ActOf(out), rid |-> r, start |-> start, created |-> x.m.now, ret |-> val])]
       [] Bug = "lost" /\ out = "selfterm" -> x2
       [] OTHER ->
            LET x3 == Rec(x2, t, IF Bug = "outcome" /\ out = "inact" THEN "success" ELSE ActOf(out), rid, start, x.m.now)
                x4 == IF out = "selfterm" THEN [x3 EXCEPT !.m.ft[t] = FALSE] ELSE x3 IN
            IF out = "ok" THEN [x4 EXCEPT !.m.ret[t] = val] ELSE x4

(* The event loop turns: coroutines begin and go on *)
Turn(x) ==
  FoldLeft(LAMBDA y, r :
             IF ~y.m.runs[r].alive THEN y
             ELSE LET y1 == IF y.m.runs[r].begun THEN y ELSE B0(y, r) IN
                  IF y1.m.runs[r].rel THEN EndBody(y1, r, y1.m.runs[r].out) ELSE y1,
           x, ByAge(x, {r \in Alive(x) : X(x, x.m.runs[r].t) = "async"}))

Terminate(x, r) ==
  LET t == x.m.runs[r].t IN
  CASE X(x, t) = "async" ->
         LET \* the others go on while this one is waited for
             x1 == [x EXCEPT !.m.runs[r].alive = FALSE]
             x2 == IF x.m.runs[r].begun THEN EmitEv(x1, [e |-> "b1", rid |-> r, out |-> "cancel", ret |-> "none"]) ELSE x1
             x3 == Rec(x2, t, "terminate", r, x.m.runs[r].start, x.m.now)
         IN Turn([x3 EXCEPT !.m.ft[t] = FALSE])
    [] X(x, t) = "process" ->
         Rec([x EXCEPT !.m.runs[r].alive = FALSE, !.m.ft[t] = FALSE], t, "terminate", r, x.m.runs[r].start, x.m.now)
    [] OTHER ->
         LET x1 == [x EXCEPT !.m.runs[r].flag = TRUE] IN
         IF x.m.runs[r].mode # "heed" THEN x1
         ELSE LET x2 == EmitEv(x1, [e |-> "b1", rid |-> r, out |-> "flagterm", ret |-> "none"]) IN
              Rec([x2 EXCEPT !.m.runs[r].alive = FALSE, !.m.ft[t] = FALSE], t, "terminate", r, x.m.runs[r].start, x.m.now)

TerminateAll(x, S) ==
  FoldLeft(LAMBDA y, r : IF y.m.runs[r].alive THEN Terminate(y, r) ELSE y, x,
           IF Bug = "killone" /\ S # {} THEN <<Head(ByAge(x, S))>> ELSE ByAge(x, S))

CheckTerm(x, t) ==
  LET c == x.mon.cfg.tasks[t]
      lim == IF c.to = "none" THEN x.mon.cfg.timeout ELSE c.ton
      over == {r \in AliveOf(x, t) : IF Bug = "timeout" THEN x.m.now - x.m.runs[r].start >= lim
                                     ELSE IF Bug = "lasttime" THEN x.m.now - x.m.last[t]["run"] > lim
                                     ELSE x.m.now - x.m.runs[r].start > lim} IN
  IF x.m.ft[t] \/ x.m.end[t] = "T"
  THEN [TerminateAll(x, AliveOf(x, t)) EXCEPT !.m.ft[t] = FALSE]
  ELSE IF c.perm \/ c.to = "never" THEN x ELSE TerminateAll(x, over)

HandleLogs(x) ==
  FoldLeft(LAMBDA y, q : IF Bug = "dropgone" /\ q.t \notin y.m.here THEN y ELSE
                         LET y1 == Rec(y, q.t, q.act, q.rid, q.start, IF Bug = "created" THEN y.m.now ELSE q.created) IN
                         IF q.ret = "none" THEN y1 ELSE [y1 EXCEPT !.m.ret[q.t] = q.ret],
           [x EXCEPT !.m.q = <<>>], x.m.q)

Runnable(x, t) ==
  LET c == x.mon.cfg.tasks[t]
      multi == IF c.m = "none" THEN x.mon.cfg.multi ELSE c.m = "yes" IN
  /\ (c.x = "process" /\ Bug # "nocap") =>
        Cardinality({r \in AliveHere(x) : X(x, x.m.runs[r].t) = "process"}) < x.mon.cfg.maxproc
  /\ (c.x # "main" /\ ~multi /\ Bug # "overlap") => AliveOf(x, t) = {}
  /\ IF x.m.bat[t] # <<>> THEN TRUE ELSE (~x.m.dis[t] \/ Bug = "disabled") /\ x.m.cond[t] = "T"

(* Bodies are let go.  Those of threads end right then, those of processes leave their record in the queue, coroutines
   go on when the loop turns. *)
Release(x, S, mid) ==
  FoldLeft(LAMBDA y, r :
             LET y1 == [y EXCEPT !.m.runs[r].rel = TRUE, !.m.runs[r].hold = IF mid THEN 99 ELSE y.m.rels - y.m.runs[r].s] IN
             IF X(y, y.m.runs[r].t) \in {"thread", "process"} THEN EndBody(y1, r, y1.m.runs[r].out) ELSE y1,
           x, ByAge(x, S))

(* Start a run of t whose body will end as out, at once if quick and it can *)
Start(x, t, out, quick, mode) ==
  LET n == x.m.n + 1
      rid == "r" \o ToString(n)
      had == x.m.bat[t] # <<>>
      \* what is at the head of the queue is what the run gets
      b == x.m.bat[t]
      tag == IF ~had THEN "-" ELSE IF Bug = "lifo" THEN b[Len(b)] ELSE Head(b)
      run == [t |-> t, n |-> n, start |-> x.m.now, alive |-> TRUE, begun |-> FALSE, rel |-> quick, out |-> out, mode |-> mode,
              flag |-> FALSE, tag |-> IF tag = "auto" THEN "-" ELSE tag, s |-> x.m.rels, hold |-> IF quick THEN 0 ELSE -1]
      x1 == [x EXCEPT !.m.n = n, !.m.runs = (rid :> run) @@ @,
                      !.m.bat[t] = IF ~had \/ Bug = "reqstay" THEN @ ELSE IF Bug = "lifo" THEN SubSeq(b, 1, Len(b) - 1) ELSE Tail(b)]
      x2 == Rec(x1, t, "run", rid, x.m.now, x.m.now)
  IN CASE X(x, t) = "async" -> x2
       [] X(x, t) \in {"thread", "process"} ->
            LET x3 == B0(x2, rid) IN
            IF quick /\ X(x, t) = "thread" THEN EndBody(x3, rid, out) ELSE x3
       [] OTHER ->
            LET x3a == B0(Turn(x2), rid)
                x3 == IF mode = "rel" THEN Release(x3a, {r \in Alive(x3a) : X(x3a, x3a.m.runs[r].t) = "process"}, TRUE) ELSE x3a
                x4 == IF out = "exit" THEN [EmitEv(x3, [e |-> "env", a |-> "exc", v |-> "exit"]) EXCEPT !.m.exc = "exit"] ELSE x3
            IN Turn(EndBody(x4, rid, out))

Snapshot(x) ==
  [t \in x.m.here |->
     [st |-> x.m.st[t], last |-> x.m.last[t], n |-> Cardinality(AliveOf(x, t)), alive |-> AliveOf(x, t) # {}, ret |-> x.m.ret[t]]]
FlagSeq(x) == SetToSeq({r \in Alive(x) : x.m.runs[r].flag})

(* ------------------------------- actions ------------------------------- *)

\* a thread heeds the flag or not; a main task may have to do with the end of processes
Modes(x) == CASE x = "thread" -> {"heed", "stubborn"}
              [] x = "main" /\ (\E t \in Names(mon.cfg) : mon.cfg.tasks[t].x = "process") -> {"heed", "rel"}
              [] OTHER -> {"heed"}

cur == [m |-> m, mon |-> mon, v |-> v]
Set(x, p) == m' = x.m /\ mon' = x.mon /\ v' = x.v /\ pc' = p

Init ==
  \E c \in Cfgs :
    /\ mon = InitMon(c)
    /\ m = [now |-> c.now, runs |-> EmptyFun, n |-> 0, bat |-> [t \in Names(c) |-> <<>>], ft |-> [t \in Names(c) |-> FALSE],
            cond |-> [t \in Names(c) |-> c.tasks[t].c0], end |-> [t \in Names(c) |-> c.tasks[t].e0],
            dis |-> [t \in Names(c) |-> c.tasks[t].dis], hold |-> FALSE, shut |-> FALSE, force |-> FALSE, exc |-> "none",
            q |-> <<>>, st |-> [t \in Names(c) |-> "none"], last |-> [t \in Names(c) |-> [a \in Actions |-> Never]],
            here |-> {t \in Names(c) : ~c.tasks[t].late}, list |-> {}, gone |-> {},
            ret |-> [t \in Names(c) |-> "none"], ncyc |-> 0, k |-> 1, reqs |-> 0, rels |-> 0, serve |-> 0, dn |-> 0,
            script |-> <<>>, pred |-> <<>>]
    /\ v = {} /\ pc = "startup"

Task(k, rev) == Order(mon.cfg, rev)[k]
NT == Cardinality(Names(mon.cfg))

Startup ==
  /\ pc = "startup"
  /\ LET x == [cur EXCEPT !.m.shut = FALSE, !.m.force = FALSE, !.m.hold = FALSE, !.m.exc = "none", !.m.ncyc = 0, !.m.k = 1,
                          !.m.serve = @ + 1, !.m.script = IF Emit THEN Append(@, <<>>) ELSE @]
     IN Set(EmitEv(x, [e |-> "startup0"]), "su")

(* The latest of the logged actions; what is only in the log (before the first serve) is taken in *)
Latest(x, t) ==
  LET l == x.m.last[t]
      mx == CHOOSE a \in Actions : \A b \in Actions : l[a] >= l[b] IN
  IF l[mx] = Never THEN "none" ELSE mx

StartUpTask ==
  /\ pc = "su" /\ m.k <= NT
  /\ LET t == Task(m.k, FALSE)
         c == mon.cfg.tasks[t]
         in == t \in m.here
         x0 == [cur EXCEPT !.m.last[t] = IF m.serve = 1 THEN c.h0 ELSE @,
                           !.m.st[t] = IF m.serve = 1 THEN c.s0 ELSE @, !.m.k = @ + 1]
         x1 == IF in /\ x0.m.st[t] = "run" /\ Bug # "nocrash" THEN Rec(x0, t, "crash", "none", Never, x0.m.now) ELSE x0
         x2 == IF in /\ c.su /\ x1.m.cond[t] = "none" /\ (~x1.m.dis[t] \/ Bug = "autodis") THEN [x1 EXCEPT !.m.bat[t] = Append(@, "auto")] ELSE x1
     IN IF in /\ c.su /\ Runnable(x2, t)
        THEN /\ m.n < MaxRuns
             /\ \E out \in Outs[c.x], mode \in Modes(c.x) :
                  /\ LET x3 == Start(x2, t, out, FALSE, mode) IN Set(x3, IF x3.m.exc = "none" THEN "su" ELSE "sd0")
        ELSE Set(x2, "su")

StartUpEnd ==
  /\ pc = "su" /\ m.k > NT
  /\ Set(EmitEv(cur, [e |-> "startup1", tasks |-> Snapshot(cur)]), "loop")

Acts(x) ==
  {[a |-> "none"]}
  \cup (IF "req" \in ActKinds /\ x.m.reqs < 3 THEN {[a |-> "req", t |-> t] : t \in x.m.here} ELSE {})
  \* tasks are created once at most
  \cup (IF "dyn" \in ActKinds THEN {[a |-> "add", t |-> t] : t \in {u \in Names(x.mon.cfg) : x.mon.cfg.tasks[u].late /\ u \notin x.m.here /\ u \notin x.m.gone}}
                                  \cup {[a |-> "del", t |-> t] : t \in x.m.here} ELSE {})
  \cup (IF "cond" \in ActKinds THEN {[a |-> "cond", t |-> t, v |-> w] : t \in {u \in Names(x.mon.cfg) : x.m.cond[u] # "none"}, w \in {"T", "F"}} ELSE {})
  \cup (IF "end" \in ActKinds THEN {[a |-> "end", t |-> t, v |-> w] : t \in {u \in Names(x.mon.cfg) : X(x, u) \in {"async", "thread"}}, w \in {"T", "F"}} ELSE {})
  \cup (IF "dis" \in ActKinds THEN {[a |-> "dis", t |-> t, v |-> w] : t \in Names(x.mon.cfg), w \in BOOLEAN} ELSE {})
  \cup (IF "term" \in ActKinds THEN {[a |-> "term", t |-> t] : t \in {u \in Names(x.mon.cfg) : X(x, u) # "process" \/ (AliveOf(x, u) # {} /\ x.m.bat[u] = <<>> /\ x.m.cond[u] # "T")}} ELSE {})
  \cup (IF "hold" \in ActKinds THEN {[a |-> "hold", v |-> w] : w \in BOOLEAN} ELSE {})

\* acts that change nothing are not worth exploring
Useful(x, a) ==
  CASE a.a = "cond" -> x.m.cond[a.t] # a.v [] a.a = "end" -> x.m.end[a.t] # a.v
    [] a.a = "dis" -> x.m.dis[a.t] # a.v [] a.a = "hold" -> x.m.hold # a.v [] OTHER -> TRUE

DoAct(x, a) ==
  CASE a.a = "none" -> x
    [] a.a = "req" -> LET tag == "q" \o ToString(x.m.reqs + 1)
                          x1 == EmitEv(x, [e |-> "env", a |-> "req", t |-> a.t, tag |-> tag]) IN
                      [x1 EXCEPT !.m.reqs = @ + 1,
                                 !.m.bat[a.t] = IF Bug = "reqlost" /\ @ # <<>> THEN @ ELSE Append(@, tag)]
    [] a.a = "cond" -> [EmitEv(x, [e |-> "env", a |-> "cond", t |-> a.t, v |-> a.v]) EXCEPT !.m.cond[a.t] = a.v]
    [] a.a = "end" -> [EmitEv(x, [e |-> "env", a |-> "end", t |-> a.t, v |-> a.v]) EXCEPT !.m.end[a.t] = a.v]
    [] a.a = "dis" -> [EmitEv(x, [e |-> "env", a |-> "dis", t |-> a.t, v |-> a.v]) EXCEPT !.m.dis[a.t] = a.v]
    [] a.a = "term" -> [EmitEv(x, [e |-> "env", a |-> "term", t |-> a.t]) EXCEPT !.m.ft[a.t] = TRUE]
    [] a.a = "hold" -> [EmitEv(x, [e |-> "env", a |-> "hold", v |-> a.v]) EXCEPT !.m.hold = a.v]
    [] a.a = "shut" -> [EmitEv(x, [e |-> "env", a |-> "shut", v |-> a.force, again |-> FALSE]) EXCEPT !.m.shut = TRUE, !.m.force = @ \/ a.force]
    [] a.a = "add" -> [EmitEv(x, [e |-> "env", a |-> "add", t |-> a.t]) EXCEPT !.m.here = @ \cup {a.t}]
    [] a.a = "del" -> [EmitEv(x, [e |-> "env", a |-> "del", t |-> a.t]) EXCEPT !.m.here = @ \ {a.t}, !.m.gone = @ \cup {a.t}]
    [] a.a = "restart" -> [EmitEv(x, [e |-> "env", a |-> "exc", v |-> "restart"]) EXCEPT !.m.exc = "restart"]

Held(x) == {r \in Alive(x) : ~x.m.runs[r].rel}

Pre ==
  /\ pc = "pre"
  /\ \E dt \in DTs, S \in SUBSET Held(cur) :
       LET \* the cycle is about the tasks there are before its hooks
           x0 == Release([cur EXCEPT !.m.now = @ + dt, !.m.rels = @ + 1,
                                     !.m.list = CASE Bug = "keepgone" -> @ \cup m.here [] Bug = "noadd" /\ m.ncyc > 0 -> @ [] OTHER -> m.here], S, FALSE)
           x1 == [x0 EXCEPT !.m.now = @ + 1]
           last == m.ncyc + 1 >= MaxCyc IN
       \E a \in Acts(x1), e \in IF last THEN {w \in Ends : w = "restart" => m.serve < MaxServe} ELSE {"no"} :
         LET fin == CASE e = "shut" -> [a |-> "shut", force |-> FALSE] [] e = "force" -> [a |-> "shut", force |-> TRUE]
                      [] e \in {"restart", "rsshut"} -> [a |-> "restart"] [] e = "shutrs" -> [a |-> "shut", force |-> FALSE]
                      [] OTHER -> [a |-> "none"]
             fin2 == CASE e = "rsshut" -> [a |-> "shut", force |-> FALSE] [] e = "shutrs" -> [a |-> "restart"] [] OTHER -> [a |-> "none"]
             x2 == DoAct(DoAct(DoAct(x1, a), fin), fin2)
             entry == [dt |-> dt, acts |-> SelectSeq(<<a, fin, fin2>>, LAMBDA z : z.a # "none")]
             x3 == IF Emit THEN [x2 EXCEPT !.m.script[Len(x2.m.script)] = Append(@, entry)] ELSE x2
         IN /\ Useful(x1, a)
            /\ Set([EmitEv(x3, [e |-> "cyc0"]) EXCEPT !.m.k = 1], "task")

OneTask ==
  /\ pc = "task" /\ m.k <= NT
  /\ LET t == Task(m.k, Bug = "prio")
         c == mon.cfg.tasks[t]
         x0 == HandleLogs([cur EXCEPT !.m.k = @ + 1])
         can == t \in m.list /\ (IF Bug = "special" THEN ~c.su ELSE ~c.su /\ ~c.sd) /\ (~m.hold \/ Bug = "hold") /\ Runnable(x0, t)
     IN IF can /\ ~(Bug = "skip" /\ c.p > 0 /\ m.ncyc = 1)
        THEN /\ m.n < MaxRuns
             /\ \E out \in Outs[c.x], quick \in BOOLEAN, mode \in Modes(c.x) :
                  /\ (c.x \in {"process", "main"} => ~quick)
                  /\ LET x1 == Start(x0, t, out, quick, mode) IN
                     IF x1.m.exc = "exit" THEN Set(x1, "sd0") ELSE Set(CheckTerm(x1, t), "task")
        ELSE Set(IF t \in m.list THEN CheckTerm(x0, t) ELSE x0, "task")

Post ==
  /\ pc = "task" /\ m.k > NT
  /\ LET x0 == HandleLogs(cur)
         x1 == EmitEv(x0, [e |-> "cyc1", tasks |-> Snapshot(x0), flags |-> FlagSeq(x0)])
     IN Set([x1 EXCEPT !.m.ncyc = @ + 1], "loop")

Loop ==
  /\ pc = "loop"
  /\ IF mon.cfg.shutcyc > 0 /\ m.ncyc >= mon.cfg.shutcyc THEN Set(cur, "sd0")
     ELSE LET x == Turn(cur) IN
          CASE m.shut /\ Bug # "noshut" /\ ~(Bug = "rsfirst" /\ m.exc = "restart") -> Set([x EXCEPT !.m.exc = IF @ = "restart" THEN "none" ELSE @], "sd0")
            [] m.exc = "restart" -> Set(x, "sd0")
            [] OTHER -> Set(x, "pre")

Sd0 ==
  /\ pc = "sd0"
  /\ Set([EmitEv(cur, [e |-> "shutdown0"]) EXCEPT !.m.k = 1, !.m.dn = 0], "sd")

ShutTask ==
  /\ pc = "sd" /\ m.k <= NT
  /\ LET t == Task(m.k, FALSE)
         c == mon.cfg.tasks[t]
         in == t \in m.here
         x0 == [cur EXCEPT !.m.k = @ + 1]
         x1 == IF in /\ c.sd /\ m.cond[t] = "none" /\ ~m.dis[t] THEN [x0 EXCEPT !.m.bat[t] = Append(@, "auto")] ELSE x0
     IN IF in /\ c.sd /\ Runnable(x1, t) /\ Bug # "nosd"
        THEN /\ m.n < MaxRuns
             /\ \E out \in Outs[c.x] \ {"exit"} : Set(Start(x1, t, out, FALSE, "heed"), "sd")
        ELSE Set(x1, "sd")

ShutTasksEnd ==
  /\ pc = "sd" /\ m.k > NT
  /\ LET grace == ~mon.cfg.instant /\ (~m.force \/ Bug = "noforce") /\ m.exc # "exit"
     IN IF grace THEN Set(cur, "drain")
        ELSE Set(IF Bug = "leave" THEN cur ELSE TerminateAll(cur, AliveHere(cur)), IF Bug = "leave" THEN "down" ELSE "wait")

(* Waiting for what is running *)
DrainRelease(x) ==
  LET x1 == [x EXCEPT !.m.dn = @ + 1, !.m.rels = @ + 1] IN
  IF x1.m.dn >= DrainAt THEN Release(x1, Held(x1), FALSE) ELSE x1

DrainTurn ==
  /\ pc = "drain"
  /\ IF AliveHere(cur) = {} THEN Set(cur, "down")
     ELSE LET x0 == DrainRelease(EmitEv(cur, [e |-> "drain", flags |-> FlagSeq(cur)]))
              x1 == HandleLogs(Turn(x0))
          IN Set(FoldLeft(LAMBDA y, t : IF t \notin y.m.here THEN y ELSE IF y.mon.cfg.tasks[t].perm \/ Bug = "killall" THEN TerminateAll(y, AliveOf(y, t)) ELSE CheckTerm(y, t),
                          x1, Order(mon.cfg, FALSE)), "drain")

WaitTurn ==
  /\ pc = "wait"
  /\ IF AliveHere(cur) = {} THEN Set(cur, "down")
     ELSE Set(Turn(DrainRelease(EmitEv(cur, [e |-> "drain", flags |-> FlagSeq(cur)]))), "wait")

Down ==
  /\ pc = "down"
  /\ LET x0 == IF Bug = "nolastlogs" THEN cur ELSE HandleLogs(cur)
         x1 == EmitEv(x0, [e |-> "shutdown1", tasks |-> Snapshot(x0)])
         x2 == [x1 EXCEPT !.m.now = @ + 1] IN
     IF m.exc = "restart" /\ Bug # "norestart" THEN Set(x2, "startup")
     ELSE LET x3 == EmitEv(x2, [e |-> "served", exc |-> "none", isalive |-> FALSE]) IN
          Set(x3, IF m.serve < MaxServe THEN "startup" ELSE "end")

End ==
  /\ pc = "end"
  /\ Emit /\ PrintT(<<"SCRIPT", ToJson([cfg |-> mon.cfg, script |-> m.script, pred |-> m.pred, st |-> m.st,
               runs |-> [r \in DOMAIN m.runs |-> [t |-> m.runs[r].t, n |-> m.runs[r].n, out |-> m.runs[r].out, mode |-> m.runs[r].mode,
                                                  hold |-> m.runs[r].hold, alive |-> m.runs[r].alive]]])>>)
  /\ pc' = "printed" /\ UNCHANGED <<m, mon, v>>

Next == Startup \/ StartUpTask \/ StartUpEnd \/ Pre \/ OneTask \/ Post \/ Loop \/ Sd0 \/ ShutTask \/ ShutTasksEnd
        \/ DrainTurn \/ WaitTurn \/ Down \/ End

Spec == Init /\ [][Next]_vars

Conforms == v = {}
(* What the future depends on: not the log kept by the monitor, nor the particulars of runs that are over (the number
   of runs so far is kept), nor the bookkeeping for the scripts. *)
ViewRuns == [r \in {q \in DOMAIN m.runs : m.runs[q].alive} |-> [m.runs[r] EXCEPT !.s = 0, !.hold = 0]]
ViewMon  == [r \in {q \in DOMAIN mon.runs : mon.runs[q].st = "run"} |-> mon.runs[r]]
View == <<[m EXCEPT !.runs = ViewRuns, !.rels = 0], [mon EXCEPT !.log = <<>>, !.runs = ViewMon], v, pc>>
==============================================================================
