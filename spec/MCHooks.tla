-------------------------------- MODULE MCHooks --------------------------------
(***************************************************************************)
(* All sequences of events that Hooks allows, for small sets of hooks: in  *)
(* each of them every hook is called once for each start, cycle, shutdown  *)
(* and run, generators are continued once for each of their calls, nothing *)
(* is left open at the end, and brackets of the scheduler do not cross.    *)
(***************************************************************************)
EXTENDS Hooks
CONSTANTS MaxEv, MaxCyc
VARIABLES c, s, n, cnt       \* cnt: how often each thing happened
vars == <<c, s, n, cnt>>
HS == {<<"gen">>, <<"plain">>, <<"gen", "short">>, <<"plain", "gen">>, <<"gen", "gen">>}
Cs == {[hooks |-> [startup |-> a, cycle |-> b, shutdown |-> <<"gen">>, exec |-> d], inits |-> <<>>,
        ts |-> [t |-> [ex |-> x, when |-> "cycle", cls |-> cls]]]
        : a \in {<<"gen">>}, b \in HS, d \in HS \cup {<<>>}, x \in {"main", "async"}, cls \in BOOLEAN}
\* (with no generator at all the end of a phase cannot be seen)
Seen(hs) == Gens(hs) # {}
Init == /\ c \in {k \in Cs : Seen(k.hooks.cycle)}
        /\ s = [ph |-> "out", b |-> Out, cyc |-> 0, run |-> [t |-> Idle], ini |-> [s |-> "", t |-> "", b |-> Out]]
        /\ n = 0 /\ cnt = <<>>
W == {"startup", "cycle", "shutdown"}
Events ==
  {[e |-> "hook", w |-> w, p |-> p, h |-> h, mine |-> TRUE, n |-> s.cyc] : w \in W, p \in {"pre", "post"}, h \in 1..2}
  \cup {[e |-> "hook", w |-> "exec", p |-> "pre", h |-> h, t |-> "t", raises |-> r] : h \in 1..2, r \in BOOLEAN}
  \cup {[e |-> "hook", w |-> "exec", p |-> "post", h |-> h, t |-> "t", exc |-> x] : h \in 1..2, x \in {"none", "RuntimeError"}}
  \cup {[e |-> "body", t |-> "t"]}
  \cup {[e |-> "end", t |-> "t", out |-> o] : o \in {"success", "fail"}}
  \cup {[e |-> "cb", t |-> "t", w |-> w, v |-> v] : w \in {"success", "failure", "finish"}, v \in {"value", "RuntimeError", "succeeded", "failed"}}
Key(ev) == CASE ev.e = "hook" /\ ev.w = "exec" /\ ev.p = "pre" -> <<"exec", ev.p, ev.h, ev.raises>>
             [] ev.e = "hook" -> <<ev.w, ev.p, ev.h, FALSE>> [] ev.e = "cb" -> <<"cb", ev.w, 0, FALSE>> [] OTHER -> <<ev.e, "", 0, FALSE>>
Next ==
  /\ n < MaxEv /\ n' = n + 1 /\ UNCHANGED c
  /\ \E ev \in Events :
       LET r == Step(c, s, ev) IN
       /\ r[1]
       /\ ev.e = "hook" /\ ev.w \in W => ev.h <= Len(c.hooks[ev.w])
       /\ (ev.e = "hook" /\ ev.w = "cycle" /\ ev.p = "pre" /\ ev.h = 1) => s.cyc < MaxCyc
       /\ s' = r[2]
       /\ cnt' = (Key(ev) :> ((IF Key(ev) \in DOMAIN cnt THEN cnt[Key(ev)] ELSE 0) + 1)) @@ cnt
Spec == Init /\ [][Next]_vars
K(a, b, h, r) == IF <<a, b, h, r>> \in DOMAIN cnt THEN cnt[<<a, b, h, r>>] ELSE 0
Closed == s.ph = "out" /\ Quiet(s)
Matched == Closed =>
  /\ \A w \in W : \A h \in DOMAIN c.hooks[w] :
       /\ K(w, "pre", h, FALSE) = K(w, "pre", 1, FALSE)
       /\ K(w, "post", h, FALSE) = IF c.hooks[w][h] = "gen" THEN K(w, "pre", h, FALSE) ELSE 0
  /\ K("startup", "pre", 1, FALSE) = K("shutdown", "pre", 1, FALSE)
Bodies == Quiet(s) =>
  LET hs == c.hooks.exec IN
  /\ K("body", "", 0, FALSE) = K("end", "", 0, FALSE)
  /\ \A h \in DOMAIN hs : (hs[h] = "gen") => K("exec", "post", h, FALSE) = K("body", "", 0, FALSE)
  /\ hs # <<>> => K("body", "", 0, FALSE) = K("exec", "pre", Len(hs), FALSE)
  /\ c.ts["t"].cls => K("cb", "finish", 0, FALSE) = K("body", "", 0, FALSE)
                      /\ K("cb", "success", 0, FALSE) + K("cb", "failure", 0, FALSE) = K("body", "", 0, FALSE)
MainInside == c.ts["t"].ex = "main" /\ s.run["t"].ph # "idle" => s.ph = "cycle"
CanEnd == s.ph # "out" => ENABLED Next \/ n >= MaxEv          \* nothing that may happen leads into a corner
================================================================================
