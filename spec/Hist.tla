--------------------------------- MODULE Hist ---------------------------------
(***************************************************************************)
(* Conditions as functions of what has been logged and of the time.        *)
(* A history is a sequence of [t |-> task, a |-> action, at |-> instant,   *)
(* rid |-> run] (and v, what a condition's own task returned); a condition *)
(* is a record with the field c.                                           *)
(***************************************************************************)
EXTENDS TimeP

FinishActs == {"success", "fail", "inaction", "terminate", "crash"}
SetOf(s) == {s[i] : i \in DOMAIN s}

(* ------------------------- stretches of time up to now ----------------- *)
(* The latest stretch of a period that has begun: from its beginning to now, or to its end if that is past *)
SpanOf(p, now) ==
  CASE p.op = "none" -> << <<-1000000, 0, 0>>, <<1000000, 0, 0>> >>
    [] p.op = "delta" -> <<Sub(now, p.past), now>>
    [] p.op = "cron" -> <<MinuteOf(now), now>>            \* only used when now belongs to it
    [] p.op = "anchored" -> Back(p, now)
InSpan(p, now, x) == LET s == SpanOf(p, now) IN Le(s[1], x) /\ Le(x, s[2])
(* Whether something exactly at the end of a stretch that is over counts is left open *)
OpenEnd(h, p, now) == p.op = "anchored" /\ LET s == SpanOf(p, now) IN s[2] # now /\ \E i \in DOMAIN h : h[i].at = s[2]

Count(h, t, acts, p, now) == Cardinality({i \in DOMAIN h : h[i].t = t /\ h[i].a \in acts /\ InSpan(p, now, h[i].at)})
Compare(n, comps) ==
  IF comps = <<>> THEN n > 0
  ELSE \A i \in DOMAIN comps : LET o == comps[i].op v == comps[i].v IN
       CASE o = "eq" -> n = v [] o = "ne" -> n # v [] o = "lt" -> n < v [] o = "le" -> n <= v [] o = "gt" -> n > v [] o = "ge" -> n >= v

(* --------------------------------- tasks ------------------------------- *)
Of(h, t, acts) == {i \in DOMAIN h : h[i].t = t /\ h[i].a \in acts}
MaxI(s) == CHOOSE i \in s : \A j \in s : j <= i
Latest(h, t, acts) == h[MaxI(Of(h, t, acts))]
AllActs == FinishActs \cup {"run"}

Depends(h, t, dep, acts) ==
  /\ Of(h, dep, acts) # {}
  /\ Of(h, t, {"run"}) # {} => Lt(Latest(h, t, {"run"}).at, Latest(h, dep, acts).at)

FailsInRow(h, t) ==
  LET other == Of(h, t, {"success", "crash", "inaction", "terminate"})
      from == IF other = {} THEN 0 ELSE MaxI(other) IN
  Cardinality({i \in Of(h, t, {"fail"}) : i > from})
Retries(h, t, n) ==
  /\ n # 0
  /\ Of(h, t, AllActs) # {} /\ Latest(h, t, AllActs).a = "fail"
  /\ n = -1 \/ FailsInRow(h, t) <= n

UnderWay(h, t) == {i \in Of(h, t, {"run"}) : h[i].rid # "-" /\ \A j \in DOMAIN h : h[j].rid = h[i].rid => h[j].a = "run"}
Ago(now, near, far, x) == Le(x, Sub(now, near)) /\ (far = <<>> \/ Le(Sub(now, far), x))

Unfinished(h, t, p, retries, now) ==
  /\ p.op # "delta" => In(p, now)
  /\ Count(h, t, {"success", "inaction", "terminate"}, p, now) = 0
  /\ Count(h, t, {"fail"}, p, now) <= retries

(* ----------------------------- truth of a condition -------------------- *)
(* s: startup (instant), cycles (number of cycles so far), now *)
RECURSIVE True(_, _, _, _)
True(c, h, me, s) ==
  LET t == IF c.c \in {"all", "any", "not", "const", "cycles", "started", "time"} THEN me ELSE IF c.t = "" THEN me ELSE c.t IN
  CASE c.c = "const" -> c.v
    [] c.c = "not" -> ~True(c.x, h, me, s)
    [] c.c = "all" -> \A i \in DOMAIN c.xs : True(c.xs[i], h, me, s)
    [] c.c = "any" -> \E i \in DOMAIN c.xs : True(c.xs[i], h, me, s)
    [] c.c = "time" -> In(c.p, s.now)
    [] c.c = "status" -> Compare(Count(h, t, SetOf(c.acts), c.p, s.now), c.comps)
    [] c.c = "exec" -> Unfinished(h, t, c.p, c.retries, s.now)
    [] c.c = "runnable" -> (c.p.op # "delta" => In(c.p, s.now)) /\ Count(h, t, {"run"}, c.p, s.now) = 0
    [] c.c = "depend" -> Depends(h, t, c.dep, SetOf(c.acts))
    [] c.c = "retry" -> Retries(h, t, c.n)
    [] c.c = "running" -> Compare(Cardinality({i \in UnderWay(h, t) : Ago(s.now, c.near, c.far, h[i].at)}), c.comps)
    [] c.c = "bytask" -> \* what the task of the condition returned last, for as long as it is valid
         /\ Of(h, c.t, {"success"}) # {}
         /\ LET r == Latest(h, c.t, {"success"}) IN
            /\ r.v
            /\ IF c.p.op = "delta" THEN Le(Sub(s.now, c.p.past), r.at) ELSE In(c.p, r.at)
    [] c.c = "started" -> Ago(s.now, c.near, c.far, s.startup)
    [] c.c = "cycles" -> Compare(s.cycles, c.comps)
RECURSIVE Open(_, _, _)
Open(c, h, now) ==
  CASE c.c = "not" -> Open(c.x, h, now)
    [] c.c \in {"all", "any"} -> \E i \in DOMAIN c.xs : Open(c.xs[i], h, now)
    [] c.c \in {"status", "exec", "runnable"} -> OpenEnd(h, c.p, now)
    [] OTHER -> FALSE

(* A case: the log h and questions asked on the way: condition x of task t after n records at now *)
JAsk(h, q, startup) ==
  LET g == SubSeq(h, 1, q.n) s == [now |-> q.now, cycles |-> q.cycles, startup |-> startup] IN
  \/ Open(q.x, g, q.now)
  \/ /\ q.r.e = "" /\ q.r.v = True(q.x, g, q.t, s)
     /\ q.started # "-" => (q.started = "yes") = q.r.v
Judge2(c) == c.e = "" /\ \A i \in DOMAIN c.qs : JAsk(c.h, c.qs[i], c.startup)
================================================================================
