--------------------------------- MODULE Hooks ---------------------------------
(***************************************************************************)
(* Hooks and callbacks: what they surround and in which order.             *)
(* A hook is "plain" (called before), "gen" (a generator: called before,   *)
(* continued after) or "short" (a generator that ends before).             *)
(* Events: [e |-> "hook", w |-> startup/cycle/shutdown/exec/init, h, p |-> *)
(* pre/post, ...], "body" and "end" of a run, "cond" (a start condition is *)
(* asked), "cb" (callback of a task's class), "make" (a task was made).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Gens(hs) == {i \in 1..Len(hs) : hs[i] = "gen"}
(* A bracket [i: hooks begun, j: last one continued, on] around something: before, in and after it *)
Out == [i |-> 0, j |-> 0]
CanPre(hs, b, h) == b.j = 0 /\ h = b.i + 1 /\ h <= Len(hs)
CanPost(hs, b, h) == b.i = Len(hs) /\ h \in Gens(hs) /\ h > b.j /\ ~\E g \in Gens(hs) : b.j < g /\ g < h
In(hs, b) == b.i = Len(hs) /\ b.j = 0
LastPost(hs, h) == \A g \in Gens(hs) : g <= h

Exc(out) == CASE out = "success" -> "none" [] out = "fail" -> "RuntimeError" [] out = "inaction" -> "TaskInactionException"
Final(out) == CASE out = "success" -> "succeeded" [] out = "fail" -> "failed" [] out = "inaction" -> "inaction"
(* The scheduler: ph is "out", "startup", "up" (between cycles), "cycle" or "shutdown"; cyc the cycles completed *)
Before(w) == CASE w = "startup" -> {"out"} [] w = "cycle" -> {"up"} [] w = "shutdown" -> {"up"}
After(w) == CASE w = "startup" -> "up" [] w = "cycle" -> "up" [] w = "shutdown" -> "out"
Phase(t) == t.when
Quiet(s) == \A t \in DOMAIN s.run : s.run[t].ph = "idle"
Idle == [ph |-> "idle", b |-> Out, out |-> ""]

(* After the end of a run: callbacks of its class, then the hooks continue; it is over when nothing is left *)
Rest(c, t, r) == IF r.ph \in {"ended", "finished"} /\ Gens(c.hooks.exec) = {} /\ (r.ph = "finished" \/ ~c.ts[t].cls) THEN Idle
                 ELSE IF r.ph = "ended" /\ ~c.ts[t].cls THEN [r EXCEPT !.ph = "finished"] ELSE r
(* Main tasks run inside of the part of the scheduler they belong to *)
Inside(c, s, t) == c.ts[t].ex = "main" => s.ph = Phase(c.ts[t]) /\ In(c.hooks[s.ph], s.b)
(* No run begins before the startup hooks *)
Step(c, s, e) ==   \* -> <<whether it may happen, the state after it>>
  CASE e.e = "hook" /\ e.w \in {"startup", "cycle", "shutdown"} /\ e.p = "pre" ->
         LET hs == c.hooks[e.w]
             first == e.h = 1 IN
         << /\ IF first THEN s.ph \in Before(e.w) ELSE s.ph = e.w
            /\ CanPre(hs, IF first THEN Out ELSE s.b, e.h)
            /\ e.mine
            /\ e.w = "cycle" => e.n = s.cyc,
            [s EXCEPT !.ph = e.w, !.b = [i |-> e.h, j |-> 0], !.cyc = IF e.w = "startup" THEN 0 ELSE @] >>
    [] e.e = "hook" /\ e.w \in {"startup", "cycle", "shutdown"} /\ e.p = "post" ->
         LET hs == c.hooks[e.w] last == LastPost(hs, e.h) IN
         << /\ s.ph = e.w /\ CanPost(hs, s.b, e.h)
            /\ e.w = "shutdown" => Quiet(s)                          \* all runs are over by then
            /\ \A t \in DOMAIN c.ts : c.ts[t].ex = "main" => s.run[t].ph = "idle"
            /\ e.w = "cycle" => e.n = s.cyc,
            IF last THEN [s EXCEPT !.ph = After(e.w), !.b = Out, !.cyc = IF e.w = "cycle" THEN @ + 1 ELSE @] ELSE [s EXCEPT !.b.j = e.h] >>
    [] e.e = "cond" -> << s.ph = Phase(c.ts[e.t]) /\ In(c.hooks[s.ph], s.b), s >>
    [] e.e = "hook" /\ e.w = "exec" /\ e.p = "pre" ->
         LET r == s.run[e.t] IN
         << /\ r.ph \in {"idle", "pre"} /\ CanPre(c.hooks.exec, r.b, e.h)
            /\ r.ph = "idle" => e.h = 1 /\ s.ph # "out"
            /\ Inside(c, s, e.t),
            [s EXCEPT !.run[e.t] = IF e.raises THEN Idle ELSE [@ EXCEPT !.ph = "pre", !.b.i = e.h]] >>
    [] e.e = "body" ->
         LET r == s.run[e.t] IN
         << /\ r.ph = (IF c.hooks.exec = <<>> THEN "idle" ELSE "pre") /\ r.b.i = Len(c.hooks.exec)
            /\ Inside(c, s, e.t),
            [s EXCEPT !.run[e.t].ph = "body"] >>
    [] e.e = "end" -> << s.run[e.t].ph = "body", [s EXCEPT !.run[e.t] = Rest(c, e.t, [@ EXCEPT !.ph = "ended", !.out = e.out])] >>
    [] e.e = "cb" ->
         LET r == s.run[e.t] IN
         (CASE e.w = "success" -> << r.ph = "ended" /\ r.out = "success" /\ e.v = "value", [s EXCEPT !.run[e.t].ph = "called"] >>
           [] e.w = "failure" -> << r.ph = "ended" /\ r.out = "fail" /\ e.v = "RuntimeError", [s EXCEPT !.run[e.t].ph = "called"] >>
           [] e.w = "finish" -> << r.ph = (IF r.out = "inaction" THEN "ended" ELSE "called") /\ e.v = Final(r.out),
                                   [s EXCEPT !.run[e.t] = Rest(c, e.t, [@ EXCEPT !.ph = "finished"])] >>)
    [] e.e = "hook" /\ e.w = "exec" /\ e.p = "post" ->
         LET r == s.run[e.t] IN
         << /\ r.ph = "finished" /\ CanPost(c.hooks.exec, r.b, e.h) /\ e.exc = Exc(r.out)
            /\ Inside(c, s, e.t),
            [s EXCEPT !.run[e.t] = IF LastPost(c.hooks.exec, e.h) THEN Idle ELSE [@ EXCEPT !.b.j = e.h]] >>
    [] e.e = "hook" /\ e.w = "init" ->
         LET hs == c.inits[e.s] IN
         IF e.p = "pre" THEN << (s.ini.s = e.s \/ s.ini.b.i = 0) /\ CanPre(hs, s.ini.b, e.h), [s EXCEPT !.ini = [s |-> e.s, t |-> "", b |-> [i |-> e.h, j |-> 0]]] >>
         ELSE << s.ini.s = e.s /\ CanPost(hs, s.ini.b, e.h) /\ (s.ini.t \in {"", e.t}), [s EXCEPT !.ini.b.j = e.h, !.ini.t = e.t] >>
    [] e.e = "make" ->     \* a task was made in e.s, or could not be
         LET hs == c.inits[e.s] b == s.ini.b IN
         << IF e.ok THEN /\ b.i = Len(hs) /\ b.j = (IF Gens(hs) = {} THEN 0 ELSE CHOOSE g \in Gens(hs) : LastPost(hs, g))
                         /\ hs # <<>> => s.ini.s = e.s
                         /\ Gens(hs) # {} => s.ini.t = e.t
            ELSE b.j = 0,
            [s EXCEPT !.ini = [s |-> "", t |-> "", b |-> Out]] >>

RECURSIVE Goes(_, _, _)
Goes(c, s, i) ==
  IF i > Len(c.ev) THEN s.ph = "out" /\ Quiet(s)
  ELSE LET r == Step(c, s, c.ev[i]) IN r[1] /\ Goes(c, r[2], i + 1)
JudgeHooks(c) ==
  /\ c.k # "broken" /\ c.e = ""
  /\ Goes(c, [ph |-> "out", b |-> Out, cyc |-> 0, run |-> [t \in DOMAIN c.ts |-> Idle], ini |-> [s |-> "", t |-> "", b |-> Out]], 1)
  /\ \A t \in DOMAIN c.ts : c.status[t] = c.expect[t]       \* a run whose hook fails before its body fails
================================================================================
