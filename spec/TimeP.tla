-------------------------------- MODULE TimeP --------------------------------
(***************************************************************************)
(* Time periods: which instants belong to a period, and to which interval  *)
(* of a period one rolls forward or back from an instant.                  *)
(*                                                                         *)
(* An instant is <<day, second of the day, microsecond>>, the day counted  *)
(* from 1970-01-01.  A place in a cycle (hour, day, week, ...) is an       *)
(* offset of the same shape from the beginning of the cycle; for years the *)
(* axis is that of a leap year.  TLC's integers have 32 bits.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* ------------------------------ arithmetic ----------------------------- *)
Lt(a, b) == \/ a[1] < b[1]
            \/ a[1] = b[1] /\ a[2] < b[2]
            \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
Le(a, b) == a = b \/ Lt(a, b)
Min2(a, b) == IF Lt(a, b) THEN a ELSE b
Max2(a, b) == IF Lt(a, b) THEN b ELSE a
DayS == 86400
Mil == 1000000
Norm(d, s, u) ==
  LET u1 == u % Mil
      s1 == s + u \div Mil
      s2 == s1 % DayS
      d1 == d + s1 \div DayS
  IN <<d1, s2, u1>>
Add(a, b) == Norm(a[1] + b[1], a[2] + b[2], a[3] + b[3])
Sub(a, b) == Norm(a[1] - b[1], a[2] - b[2], a[3] - b[3])
Zero == <<0, 0, 0>>
Tiny == <<0, 0, 1>>

(* ------------------------------- calendar ------------------------------ *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
\* days from 1970-01-01 (years from March to February)
Days(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - era * 400
      mp == (m + 9) % 12
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468
Civil(day) ==
  LET z == day + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
  IN [y |-> y, m |-> m, d |-> d]
Weekday(day) == (day + 3) % 7                       \* Monday is 0
Instant(c) == <<Days(c[1], c[2], c[3]), c[4] * 3600 + c[5] * 60 + c[6], c[7]>>
LeapStart == <<0, 31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366>>

(* ----------------------------- anchored cycles ------------------------- *)
Kinds == {"second", "minute", "hour", "day", "week", "month", "year"}
ScopeMax(k) == CASE k = "second" -> <<0, 1, 0>> [] k = "minute" -> <<0, 60, 0>> [] k = "hour" -> <<0, 3600, 0>> [] k = "day" -> <<1, 0, 0>>
                 [] k = "week" -> <<7, 0, 0>> [] k = "month" -> <<31, 0, 0>> [] k = "year" -> <<366, 0, 0>>
Unit(k) == CASE k = "second" -> <<0, 0, 1000>> [] k = "minute" -> <<0, 1, 0>> [] k = "hour" -> <<0, 60, 0>> [] k = "day" -> <<0, 3600, 0>> [] OTHER -> <<1, 0, 0>>
Times(o, n) == Norm(o[1] * n, o[2] * n, o[3] * n)

(* Where the nth unit of a cycle begins.  Seconds, minutes and hours count from 0, days and months from 1. *)
UnitAt(k, i) == CASE k \in {"second", "minute", "hour", "day"} -> Times(Unit(k), i)
                  [] k \in {"week", "month"} -> <<i - 1, 0, 0>>
                  [] k = "year" -> <<LeapStart[i], 0, 0>>
(* ... and ends.  (A month of a year ends a microsecond before the next one begins.) *)
UnitEnd(k, i) == IF k = "year" THEN Sub(<<LeapStart[i + 1], 0, 0>>, Tiny) ELSE UnitAt(k, i + 1)

(* An end point is given as a unit [f |-> "unit", i] (minute 20, Friday, the 5th, May) or exactly [f |-> "at", o] *)
StartOff(k, e) == IF e.f = "unit" THEN UnitAt(k, e.i) ELSE e.o
EndOff(k, e)   == IF e.f = "unit" THEN UnitEnd(k, e.i) ELSE e.o
PointEnd(k, e) ==
  IF k = "year" THEN UnitEnd(k, e.i)
  ELSE LET x == Add(StartOff(k, e), Unit(k)) IN IF Le(ScopeMax(k), x) THEN Sub(x, ScopeMax(k)) ELSE x

(* A period p = [k, m, a, b]:  m is full, between, after, before, at or starting *)
Aof(p) == IF p.m \in {"full", "before"} THEN Zero ELSE StartOff(p.k, p.a)
Bof(p) == CASE p.m \in {"full", "after"} -> ScopeMax(p.k)
            [] p.m = "at" -> PointEnd(p.k, p.a)
            [] p.m = "starting" -> Aof(p)
            [] OTHER -> EndOff(p.k, p.b)
IsFull(p) == Aof(p) = Bof(p) \/ (Aof(p) = Zero /\ Bof(p) = ScopeMax(p.k))

Within(k, t) ==
  CASE k = "second" -> <<0, 0, t[3]>>
    [] k = "minute" -> <<0, t[2] % 60, t[3]>>
    [] k = "hour" -> <<0, t[2] % 3600, t[3]>>
    [] k = "day" -> <<0, t[2], t[3]>>
    [] k = "week" -> <<Weekday(t[1]), t[2], t[3]>>
    [] k = "month" -> <<Civil(t[1]).d - 1, t[2], t[3]>>
    [] k = "year" -> LET c == Civil(t[1]) IN <<LeapStart[c.m] + c.d - 1, t[2], t[3]>>

InAnchored(p, t) ==
  LET a == Aof(p) b == Bof(p) w == Within(p.k, t) IN
  \/ IsFull(p)
  \/ Lt(a, b) /\ Le(a, w) /\ Lt(w, b)
  \/ Lt(b, a) /\ (Le(a, w) \/ Lt(w, b))

(* The beginning of the nth cycle from the one of t *)
CycleStart(k, t, n) ==
  CASE k = "second" -> Norm(t[1], t[2] + n, 0)
    [] k = "minute" -> Norm(t[1], t[2] - (t[2] % 60) + 60 * n, 0)
    [] k = "hour" -> Norm(t[1], t[2] - (t[2] % 3600) + 3600 * n, 0)
    [] k = "day" -> <<t[1] + n, 0, 0>>
    [] k = "week" -> <<t[1] - Weekday(t[1]) + 7 * n, 0, 0>>
    [] k = "month" -> LET c == Civil(t[1]) q == c.y * 12 + c.m - 1 + n IN <<Days(q \div 12, (q % 12) + 1, 1), 0, 0>>
    [] k = "year" -> <<Days(Civil(t[1]).y + n, 1, 1), 0, 0>>
(* From the axis to the actual length of that cycle: months may be short, years may have no 29th of February *)
Actual(k, o, start) ==
  CASE k = "month" -> LET c == Civil(start[1]) IN Min2(o, <<MonthLen(c.y, c.m), 0, 0>>)
    [] k = "year" -> IF Leap(Civil(start[1]).y) \/ Le(o, <<59, 0, 0>>) THEN o ELSE Sub(Max2(o, <<60, 0, 0>>), <<1, 0, 0>>)
    [] OTHER -> o
(* The interval of p that begins in the nth cycle from that of t *)
IvStart(p, t, n) == LET c == CycleStart(p.k, t, n) IN Add(c, Actual(p.k, Aof(p), c))
IvEnd(p, t, n) == LET c == CycleStart(p.k, t, IF Lt(Aof(p), Bof(p)) THEN n ELSE n + 1) IN Add(c, Actual(p.k, Bof(p), c))

Forward(p, t) ==
  LET ok(n) == Lt(IvStart(p, t, n), IvEnd(p, t, n)) /\ Lt(t, IvEnd(p, t, n))
      n == CHOOSE i \in -1..9 : ok(i) /\ \A j \in -1..(i - 1) : ~ok(j)
  IN <<Max2(IvStart(p, t, n), t), IvEnd(p, t, n)>>
Back(p, t) ==
  LET ok(n) == /\ Lt(IvStart(p, t, -n), IvEnd(p, t, -n))
               /\ Lt(IvStart(p, t, -n), t) \/ (IvStart(p, t, -n) = t /\ ~IsFull(p))
      n == CHOOSE i \in 0..10 : ok(i) /\ \A j \in 0..(i - 1) : ~ok(j)
  IN <<IvStart(p, t, -n), Min2(IvEnd(p, t, -n), t)>>

(* --------------------------------- cron -------------------------------- *)
(* A field is a sequence of items; an item has from, to (Never: unbounded on both sides, "*") and a step *)
Star == -1
Lo(f) == IF f \in {"dom", "month"} THEN 1 ELSE 0
Hi(f) == CASE f = "minute" -> 59 [] f = "hour" -> 23 [] f = "dom" -> 31 [] f = "month" -> 12 [] f = "dow" -> 6
Hit(f, it, x) ==
  CASE it.from = Star -> IF f = "dow" THEN ((x + 6) % 7) % it.step = 0     \* steps over the week count from Monday
                         ELSE (x - Lo(f)) % it.step = 0
    [] f = "dow" -> \* 0 and 7 are Sunday
         LET y == IF x = 0 THEN 7 ELSE x
             a == IF it.from = 0 THEN 7 ELSE it.from
             b == IF it.to = 0 THEN 7 ELSE it.to IN
         IF a <= b THEN a <= y /\ y <= b /\ (y - a) % it.step = 0
         ELSE (y >= a \/ y <= b) /\ ((y - a) % 7) % it.step = 0
    [] OTHER -> it.from <= x /\ x <= it.to /\ (x - it.from) % it.step = 0
Field(f, items, x) == \E i \in DOMAIN items : Hit(f, items[i], x)
IsStar(items) == Len(items) = 1 /\ items[1].from = Star /\ items[1].step = 1 /\ ~items[1].steps
\* (a month ends a microsecond early, see UnitEnd, unless the next one belongs to the same range)
MonthField(items, x, last) ==
  \/ IsStar(items)
  \/ IF ~last THEN Field("month", items, x)
     ELSE \E i \in DOMAIN items : ~items[i].steps /\ items[i].from # Star /\ items[i].from <= x /\ x < items[i].to
InCron(p, t) ==
  LET c == Civil(t[1])
      dom == Field("dom", p.dom, c.d)
      dow == Field("dow", p.dow, (Weekday(t[1]) + 1) % 7) IN
  /\ Field("minute", p.minute, (t[2] \div 60) % 60)
  /\ Field("hour", p.hour, t[2] \div 3600)
  /\ MonthField(p.month, c.m, Within("year", t) = UnitEnd("year", c.m))
  /\ IF IsStar(p.dom) THEN dow ELSE IF IsStar(p.dow) THEN dom ELSE dom \/ dow

(* ------------------------------ any period ----------------------------- *)
RECURSIVE In(_, _)
In(p, t) ==
  CASE p.op = "anchored" -> InAnchored(p, t)
    [] p.op = "cron" -> InCron(p, t)
    [] p.op = "all" -> \A i \in DOMAIN p.ps : In(p.ps[i], t)
    [] p.op = "any" -> \E i \in DOMAIN p.ps : In(p.ps[i], t)
    [] p.op = "static" -> Le(p.a, t) /\ Lt(t, p.b)
    [] p.op = "always" -> TRUE

(* ------------------------------- judgement ----------------------------- *)
(* Which end points make sense: units within the cycle *)
UnitLo(k) == IF k \in {"week", "month", "year"} THEN 1 ELSE 0
UnitHi(k) == CASE k = "second" -> 999 [] k \in {"minute", "hour"} -> 59 [] k = "day" -> 23 [] k = "week" -> 7 [] k = "month" -> 31 [] k = "year" -> 12
PointOk(k, e) == IF e.f = "unit" THEN UnitLo(k) <= e.i /\ e.i <= UnitHi(k) ELSE Le(Zero, e.o) /\ Le(e.o, ScopeMax(k))
RECURSIVE Valid(_)
Valid(p) ==
  CASE p.op = "anchored" -> /\ p.m \in {"between", "after", "at", "starting"} => PointOk(p.k, p.a)
                            /\ p.m \in {"between", "before"} => PointOk(p.k, p.b)
    [] p.op \in {"all", "any"} -> \A i \in DOMAIN p.ps : Valid(p.ps[i])
    [] OTHER -> TRUE

(* What the code gave is r = [e |-> name of the exception or "", ...] *)
JIn(c) == IF Valid(c.p) THEN c.r.e = "" /\ c.r.v = In(c.p, c.t) ELSE c.r.e = "ValueError"

RECURSIVE MinEnd(_, _, _)
MinEnd(ps, t, i) == LET e == Forward(ps[i], t)[2] IN IF i = 1 THEN e ELSE Min2(e, MinEnd(ps, t, i - 1))
AllAnchored(p) == \A i \in DOMAIN p.ps : p.ps[i].op = "anchored"

(* Cron goes by minutes *)
MinuteOf(t) == CycleStart("minute", t, 0)
MinuteEnds(t) == LET e == Add(MinuteOf(t), <<0, 60, 0>>) IN {e, Sub(e, Tiny)}
(* inside: instants of the interval given; gap: instants between the instant asked for and that interval *)
JFwd(c) ==
  LET p == c.p t == c.t r == c.r IN
  /\ r.e = "" /\ r.closed = "left"
  /\ IF p.op = "anchored" THEN <<r.l, r.r>> = Forward(p, t)
     ELSE /\ Le(t, r.l) /\ Lt(r.l, r.r) /\ In(p, r.l)
          /\ \A i \in DOMAIN c.inside : In(p, c.inside[i])
          /\ \A i \in DOMAIN c.gap : ~In(p, c.gap[i])
          /\ p.op = "cron" => (r.l = t \/ MinuteOf(r.l) = r.l) /\ r.r \in MinuteEnds(r.l)
          /\ p.op = "all" /\ AllAnchored(p) => r.r = MinEnd(p.ps, r.l, Len(p.ps))
JBack(c) ==
  LET p == c.p t == c.t r == c.r IN
  /\ r.e = ""
  /\ IF p.op = "anchored" THEN <<r.l, r.r>> = Back(p, t) /\ r.closed = (IF r.l = r.r THEN "both" ELSE "left")
     ELSE /\ Le(r.r, t) /\ Le(r.l, r.r)
          /\ \A i \in DOMAIN c.inside : In(p, c.inside[i])
          /\ \A i \in DOMAIN c.gap : ~In(p, c.gap[i])
          /\ p.op = "cron" => MinuteOf(r.l) = r.l /\ (r.r = t \/ r.r \in MinuteEnds(r.l))

(* Floating periods: some time before or after a point of reference.  far = <<>>: no limit *)
Unlimited(x) == x = <<>>
JDelta(c) ==
  LET p == c.p t == c.t r == c.r IN
  /\ r.e = ""
  /\ CASE c.q = "in" /\ p.op = "delta" -> r.v = (Le(Sub(p.ref, p.past), t) /\ Le(t, Add(p.ref, p.future)))
       [] c.q = "in" -> LET d == IF Le(t, p.ref) THEN Sub(p.ref, t) ELSE Sub(t, p.ref) IN
                        r.v = (Le(p.near, d) /\ (Unlimited(p.far) \/ Le(d, p.far)))
       [] c.q = "back" /\ p.op = "delta" -> r.l = Sub(t, p.past) /\ r.r = t
       [] c.q = "fwd" /\ p.op = "delta" -> r.l = t /\ r.r = Add(t, p.future)
       [] c.q = "back" -> (Unlimited(p.far) \/ r.l = Sub(t, p.far)) /\ r.r = Sub(t, p.near)
       [] c.q = "fwd" -> r.l = Add(t, p.near) /\ (Unlimited(p.far) \/ r.r = Add(t, p.far))

(* Intervals: the points of a, b and their common part agree; instants are numbers here *)
InIv(v, x) == /\ IF v.closed \in {"left", "both"} THEN v.l <= x ELSE v.l < x
              /\ IF v.closed \in {"right", "both"} THEN x <= v.r ELSE x < v.r
Points(a, b) == LET ends == {2 * a.l, 2 * a.r, 2 * b.l, 2 * b.r} IN UNION {{x - 1, x, x + 1} : x \in ends}
Dbl(v) == [l |-> 2 * v.l, r |-> 2 * v.r, closed |-> v.closed]
JIv(c) ==
  LET a == Dbl(c.a) b == Dbl(c.b) common == {x \in Points(c.a, c.b) : InIv(a, x) /\ InIv(b, x)}
      pa == {x \in Points(c.a, c.b) : InIv(a, x)} pb == {x \in Points(c.a, c.b) : InIv(b, x)} IN
  /\ c.r.e = ""
  /\ pa # {} /\ pb # {} => c.r.overlaps = (common # {})
  /\ common # {} => c.r.and # <<>> /\ LET d == Dbl(c.r.and[1]) IN {x \in Points(c.a, c.b) : InIv(d, x)} = common
  /\ c.r.empty = (pa = {})
  /\ \A i \in DOMAIN c.xs : c.r.isin[i] = InIv(c.a, c.xs[i])

(* Lengths of time: a sum of numbers of units, each number given in thousandths *)
UnitOf(u) == CASE u = "ms" -> <<0, 0, 1000>> [] u = "s" -> <<0, 1, 0>> [] u = "m" -> <<0, 60, 0>> [] u = "h" -> <<0, 3600, 0>> [] u = "d" -> <<1, 0, 0>>
(* n thousandths of a unit, without leaving 32 bits *)
Part(u, n) ==
  LET k == n \div 1000 f == n % 1000 IN
  CASE u = "ms" -> Norm(0, 0, n)
    [] u = "s" -> Norm(0, k, f * 1000)
    [] u = "m" -> Add(Norm(k \div 1440, (k % 1440) * 60, 0), Norm(0, 0, f * 60000))
    [] u = "h" -> Add(Norm(k \div 24, (k % 24) * 3600, 0), Norm(0, (f * 3600) \div 1000, ((f * 3600) % 1000) * 1000))
    [] u = "d" -> Add(<<k, 0, 0>>, Norm(0, (f * 864) \div 10, ((f * 864) % 10) * 100000))
(* q millionths of a unit *)
Bit(u, q) == Norm(0, 0, q * CASE u = "d" -> 86400 [] u = "h" -> 3600 [] u = "m" -> 60 [] u = "s" -> 1 [] u = "ms" -> 0)
RECURSIVE Sum(_)
Sum(parts) == IF parts = <<>> THEN Zero ELSE Add(Add(Part(Head(parts).u, Head(parts).n), Bit(Head(parts).u, Head(parts).q)), Sum(Tail(parts)))
JTd(c) == c.r.e = "" /\ c.r.v = (IF c.neg THEN Sub(Zero, Sum(c.parts)) ELSE Sum(c.parts))

Judge(c) == CASE c.k = "in" -> JIn(c) [] c.k = "fwd" -> JFwd(c) [] c.k = "back" -> JBack(c) [] c.k = "delta" -> JDelta(c)
              [] c.k = "iv" -> JIv(c) [] c.k = "td" -> JTd(c)
              [] c.k = "broken" -> FALSE    \* the code did not even get that far
==============================================================================
