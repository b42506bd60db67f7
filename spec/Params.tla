-------------------------------- MODULE Params --------------------------------
(***************************************************************************)
(* What the parameters of a run are: those of its request, of its task, of *)
(* its function's signature and of the session, in this order.             *)
(* An argument is a record with the field k; values are texts.             *)
(* State: sp (parameters of the session), tp (those of each task, its      *)
(* signature's arguments included), q (requests pending), ret (returns).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Val(v) == [e |-> "", v |-> v]
Err(e) == [e |-> e, v |-> ""]
Over(f, g) == [n \in DOMAIN f \cup DOMAIN g |-> IF n \in DOMAIN g THEN g[n] ELSE f[n]]   \* g over f
Drop(f, n) == [m \in DOMAIN f \ {n} |-> f[m]]

RECURSIVE Eval(_, _, _), EvalAll(_, _, _, _), FirstOf(_, _, _, _)
Eval(a, me, s) ==
  CASE a.k \in {"val", "simple"} -> Val(a.v)
    [] a.k = "task" -> Val("task:" \o me)
    [] a.k = "session" -> Val("session")
    [] a.k = "arg" -> LET r == IF a.key \in DOMAIN s.sp THEN Eval(s.sp[a.key], me, s) ELSE Err("KeyError") IN
                      IF r.e = "KeyError" /\ a.d # <<>> THEN Val(a.d[1]) ELSE r
    [] a.k = "ret" -> IF a.t \notin DOMAIN s.tp THEN Err("ValueError")
                      ELSE IF a.t \in DOMAIN s.ret THEN Val(s.ret[a.t])
                      ELSE IF a.d # <<>> THEN Val(a.d[1]) ELSE Err("KeyError")
    [] a.k = "env" -> IF a.n \in DOMAIN s.env THEN Val(s.env[a.n]) ELSE IF a.d # <<>> THEN Val(a.d[1]) ELSE Err("KeyError")
    [] a.k = "func" -> LET r == EvalAll(a.ps, 1, me, s) IN
                       IF r.e # "" THEN r ELSE IF a.raises # "" THEN Err(a.raises) ELSE Val(a.f \o "(" \o r.v \o ")")
    [] a.k = "pipe" -> FirstOf(a.xs, 1, me, s)
EvalAll(ps, i, me, s) ==
  IF i > Len(ps) THEN Val("")
  ELSE LET r == Eval(ps[i], me, s) IN
       IF r.e # "" THEN r
       ELSE LET more == EvalAll(ps, i + 1, me, s) IN
            IF more.e # "" THEN more ELSE Val(r.v \o "," \o more.v)
FirstOf(xs, i, me, s) ==
  IF i > Len(xs) THEN Err("KeyError")
  ELSE LET r == Eval(xs[i], me, s) IN IF r.e = "KeyError" THEN FirstOf(xs, i + 1, me, s) ELSE r

(* A task: kind "func" or "path" (sig: name -> [d |-> <<>> or <<default>>], kw: takes any), "code" or "cmd" (take any, none of the session's) *)
Direct(t, s) == Over(s.tp[t.name], IF s.q[t.name] = <<>> THEN <<>> ELSE Head(s.q[t.name]))
FromSession(t, s) == [n \in (IF t.kind \in {"code", "cmd"} THEN {} ELSE DOMAIN t.sig) \cap DOMAIN s.sp |-> s.sp[n]]
(* -> [ok, seen]: whether the body is reached, and what it gets *)
Given(t, s) ==
  LET dir == Direct(t, s)
      all == Over(FromSession(t, s), dir)
      vals == [n \in DOMAIN all |-> Eval(all[n], t.name, s)]
      free == t.kind \in {"code", "cmd"} \/ t.kw
      fits == /\ free \/ DOMAIN all \subseteq DOMAIN t.sig
              /\ \A n \in DOMAIN t.sig : n \in DOMAIN all \/ t.sig[n].d # <<>>
      good == \A n \in DOMAIN vals : vals[n].e = ""
      shown == IF t.kind = "code" THEN DOMAIN t.sig ELSE DOMAIN all \cup DOMAIN t.sig IN
  IF fits /\ good
  THEN [ok |-> TRUE, seen |-> [n \in shown |-> IF n \in DOMAIN vals THEN vals[n].v ELSE t.sig[n].d[1]]]
  ELSE [ok |-> FALSE, seen |-> <<>>]
(* A thread or process looks at the session's parameters also where they are overridden (all of them when its function is
   not yet imported): whether an error there matters is left open *)
Wasted(t, s) == /\ t.x \in {"thread", "process"}
                /\ \E n \in (IF t.kind = "path" THEN DOMAIN s.sp ELSE DOMAIN FromSession(t, s)) : Eval(s.sp[n], t.name, s).e # ""

RECURSIVE Follow(_, _, _, _)
Follow(ops, i, ts, s) ==
  IF i > Len(ops) THEN TRUE
  ELSE LET o == ops[i] IN
    CASE o.o = "sset" -> Follow(ops, i + 1, ts, [s EXCEPT !.sp = Over(@, [n \in {o.n} |-> o.a])])
      [] o.o = "sdel" -> Follow(ops, i + 1, ts, [s EXCEPT !.sp = Drop(@, o.n)])
      [] o.o = "tset" -> Follow(ops, i + 1, ts, [s EXCEPT !.tp[o.t] = Over(@, [n \in {o.n} |-> o.a])])
      [] o.o = "eset" -> Follow(ops, i + 1, ts, [s EXCEPT !.env = Over(@, [n \in {o.n} |-> o.v])])
      [] o.o = "req" -> Follow(ops, i + 1, ts, [s EXCEPT !.q[o.t] = Append(@, o.ps)])
      [] o.o = "run" ->
         LET g == Given(ts[o.t], s)
             ok == o.status = "success" IN
         /\ o.kept                                          \* the parameters of the session and its tasks are as before
         /\ Wasted(ts[o.t], s) \/ (ok = g.ok /\ (ok => o.seen = g.seen))
         /\ Follow(ops, i + 1, ts, [s EXCEPT !.q[o.t] = IF @ = <<>> THEN @ ELSE Tail(@),
                                             !.ret = IF ok THEN Over(@, [n \in {o.t} |-> o.rv]) ELSE @])
JudgeParams(c) ==
  /\ c.k # "broken" /\ c.e = ""
  /\ Follow(c.ops, 1, c.ts, [sp |-> c.sp, tp |-> c.tp, q |-> [n \in DOMAIN c.ts |-> <<>>], ret |-> <<>>, env |-> c.env])
===============================================================================
