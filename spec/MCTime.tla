------------------------------- MODULE MCTime -------------------------------
(* The rolls of TimeP agree with its membership: exhaustively over small families of periods and the instants around
   their ends.  (What the code does is compared with TimeP by Judge.tla.) *)
EXTENDS TimeP
CONSTANTS KindsC, DayLo, DayHi
VARIABLES p, t
Us(k) == CASE k \in {"minute", "hour"} -> {0, 1, 29, 59} [] k = "day" -> {0, 1, 12, 23} [] k = "week" -> 1..7
           [] k = "month" -> {1, 2, 15, 28, 29, 30, 31} [] k = "year" -> {1, 2, 3, 6, 12}
Pts(k) == {[f |-> "unit", i |-> i] : i \in Us(k)}
Per(k) == {[op |-> "anchored", k |-> k, m |-> m, a |-> a, b |-> b] : m \in {"between"}, a \in Pts(k), b \in Pts(k)}
          \cup {[op |-> "anchored", k |-> k, m |-> m, a |-> a, b |-> a] : m \in {"full", "at", "after", "before", "starting"}, a \in Pts(k)}
Secs == {0, 1, 59, 60, 61, 3599, 3600, 43200, 82800, 86399}
Init == p \in UNION {Per(k) : k \in KindsC} /\ t = <<DayLo, 0, 0>>
Next == t = <<DayLo, 0, 0>> /\ UNCHANGED p /\ t' \in {<<d, s, u>> : d \in DayLo..DayHi, s \in Secs, u \in {0, 999999}}
Spec == Init /\ [][Next]_<<p, t>>
Before(x) == Sub(x, Tiny)
Begins(x) == \E n, m \in -2..2 : IvStart(p, x, n) = x /\ IvEnd(p, x, m) = x    \* short cycles: two intervals may touch
FwdOk == LET f == Forward(p, t) IN
  /\ Le(t, f[1]) /\ Lt(f[1], f[2])
  /\ InAnchored(p, f[1]) /\ InAnchored(p, Before(f[2]))
  /\ InAnchored(p, t) => f[1] = t
  /\ ~IsFull(p) => ~InAnchored(p, f[2]) \/ Begins(f[2])
  /\ f[1] # t => ~InAnchored(p, Before(f[1])) /\ ~InAnchored(p, t)
BackOk == LET f == Back(p, t) IN
  /\ Le(f[2], t) /\ Le(f[1], f[2])
  /\ InAnchored(p, f[1]) /\ (f[1] # f[2] => InAnchored(p, Before(f[2])))
  /\ InAnchored(p, t) => f[2] = t
  /\ ~IsFull(p) => ~InAnchored(p, Before(f[1])) \/ Begins(f[1])
  /\ f[2] # t => ~InAnchored(p, f[2]) /\ ~InAnchored(p, Before(t))
CalOk == LET c == Civil(t[1]) IN Days(c.y, c.m, c.d) = t[1]
==============================================================================
