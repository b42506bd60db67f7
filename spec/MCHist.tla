-------------------------------- MODULE MCHist --------------------------------
(***************************************************************************)
(* What the conditions of Hist.tla are for: a scheduler that starts task b *)
(* exactly when its condition is true and task a at will, with time that   *)
(* passes in between, keeps the promises below in every behaviour.         *)
(***************************************************************************)
EXTENDS Hist
CONSTANTS Focus,      \* "period", "every", "pipeline", "retry"
          N,          \* retries
          MaxLen, MaxTicks
VARIABLES h, now, ticks, asked
vars == <<h, now, ticks, asked>>

Minute == [op |-> "anchored", k |-> "minute", m |-> "full"]
Cond ==
  CASE Focus = "period" -> [c |-> "exec", t |-> "", p |-> Minute, retries |-> N]
    [] Focus = "every" -> [c |-> "status", t |-> "", acts |-> <<"run">>, p |-> [op |-> "delta", past |-> <<0, 40, 0>>], comps |-> <<[op |-> "eq", v |-> 0]>>]
    [] Focus = "pipeline" -> [c |-> "depend", t |-> "", dep |-> "a", acts |-> <<"success">>]
    [] Focus = "retry" -> [c |-> "retry", t |-> "", n |-> N]
Ms == <<0, 0, 1000>>
Start == <<19782, 30, 0>>
S == [now |-> now, cycles |-> 0, startup |-> Start]
Busy(t) == LET r == Of(h, t, AllActs) IN r # {} /\ h[MaxI(r)].a = "run"
Rec(t, a) == h' = Append(h, [t |-> t, a |-> a, at |-> now, rid |-> "-"]) /\ now' = Add(now, Ms)

Init == h = <<>> /\ now = Start /\ ticks = 0 /\ asked = {}
Tick == ticks < MaxTicks /\ now' = Add(now, <<0, 20, 0>>) /\ ticks' = ticks + 1 /\ UNCHANGED <<h, asked>>
Begin == /\ Len(h) < MaxLen /\ ~Busy("b") /\ True(Cond, h, "b", S)
         /\ Rec("b", "run") /\ UNCHANGED <<ticks, asked>>
Other == /\ Len(h) < MaxLen /\ Focus = "pipeline" /\ ~Busy("a") /\ Rec("a", "run") /\ UNCHANGED <<ticks, asked>>
ByHand == /\ Focus = "retry" /\ Len(h) < MaxLen /\ ~Busy("b") /\ asked' = asked \cup {Len(h) + 1} /\ Rec("b", "run") /\ UNCHANGED ticks
End == \E t \in {"a", "b"} : /\ Busy(t) /\ \E a \in {"success", "fail", "inaction"} : Rec(t, a)
                             /\ UNCHANGED <<ticks, asked>>
Next == Tick \/ Begin \/ Other \/ ByHand \/ End
Spec == Init /\ [][Next]_vars

MinuteNo(t) == t[1] * 1440 + t[2] \div 60
Bs(acts) == Of(h, "b", acts)
(* At most one success a minute, and at most N + 1 failures before it *)
OncePerPeriod == Focus = "period" =>
  /\ \A i, j \in Bs({"success", "inaction"}) : i # j => MinuteNo(h[i].at) # MinuteNo(h[j].at)
  /\ \A i \in Bs({"fail"}) : Cardinality({j \in Bs({"fail"}) : MinuteNo(h[j].at) = MinuteNo(h[i].at)}) <= N + 1
(* Starts are 40 seconds apart *)
Apart == Focus = "every" => \A i, j \in Bs({"run"}) : i < j => Lt(Add(h[i].at, <<0, 40, 0>>), h[j].at)
(* One run for each success of a, and none without one *)
OneForOne == Focus = "pipeline" =>
  /\ \A i \in Bs({"run"}) : \E j \in Of(h, "a", {"success"}) : j < i /\ \A k \in Bs({"run"}) : k < i => k < j
  /\ Cardinality(Bs({"run"})) <= Cardinality(Of(h, "a", {"success"}))
(* A run that was not asked for comes right after a failure, and at most N of them in a row *)
RetryRuns == Bs({"run"}) \ asked
PrevRun(i) == LET s == {k \in Bs({"run"}) : k < i} IN IF s = {} THEN 0 ELSE MaxI(s)
RECURSIVE Streak(_)
Streak(i) == IF i = 0 \/ i \in asked THEN 0 ELSE 1 + Streak(PrevRun(i))
Bounded == Focus = "retry" =>
  \A i \in RetryRuns : /\ LET r == {k \in Bs(AllActs) : k < i} IN r # {} /\ h[MaxI(r)].a = "fail"
                       /\ N >= 0 => Streak(i) <= N
===============================================================================
