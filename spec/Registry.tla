------------------------------- MODULE Registry -------------------------------
(***************************************************************************)
(* Tasks and their sessions: making, renaming, removing and adding tasks,  *)
(* including groups of tasks, and Session.run.                             *)
(* ses: session -> [pol: what is done about a name that is taken,          *)
(*                  has: tasks in it, par: its parameters]                 *)
(* tk: task -> [name, home (session it belongs to), ex (execution or ""),  *)
(*              conds (flags that must all be up)]                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Taken(st, s, n) == \E t \in st.ses[s].has : st.tk[t].name = n
RECURSIVE Suffix(_, _, _, _)
Suffix(st, s, n, k) == IF Taken(st, s, n \o " - " \o ToString(k)) THEN Suffix(st, s, n, k + 1) ELSE n \o " - " \o ToString(k)
Free(st, s, n) == IF Taken(st, s, n) THEN Suffix(st, s, n, 1) ELSE n
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Over(f, g) == [n \in DOMAIN f \cup DOMAIN g |-> IF n \in DOMAIN g THEN g[n] ELSE f[n]]
Range(q) == {q[i] : i \in 1..Len(q)}

(* Insert the task t with a record r into session s -> [ok, st] *)
Insert(st, s, t, r) ==
  LET pol == st.ses[s].pol
      taken == Taken(st, s, r.name)
      put(n) == [st EXCEPT !.tk = Put(@, t, [r EXCEPT !.name = n, !.home = s]), !.ses[s].has = @ \cup {t}] IN
  CASE ~taken -> [ok |-> TRUE, st |-> put(r.name)]
    [] taken /\ pol = "raise" -> [ok |-> FALSE, st |-> st]
    [] taken /\ pol = "rename" -> [ok |-> TRUE, st |-> put(Free(st, s, r.name))]
    [] taken /\ pol = "ignore" -> [ok |-> TRUE, st |-> [st EXCEPT !.tk = Put(@, t, [r EXCEPT !.home = s])]]

RECURSIVE Include(_, _, _, _)
(* The tasks of a group go into session s one after another (their names differ, so that the order does not matter) *)
Include(st, s, o, ts) ==
  IF ts = {} THEN [ok |-> TRUE, st |-> st]
  ELSE LET t == CHOOSE t \in ts : TRUE
           r == st.tk[t]
           i == Insert(st, s, t, [r EXCEPT !.name = o.prefix \o @, !.ex = IF @ = "" THEN o.ex ELSE @, !.conds = @ \cup Range(o.conds)]) IN
       IF ~i.ok THEN i ELSE Include(i.st, s, o, ts \ {t})

Apply(st, o) ==
  CASE o.o = "make" -> Insert(st, o.s, o.t, [name |-> o.n, home |-> o.s, ex |-> o.ex, conds |-> Range(o.conds)])
    [] o.o = "rename" -> LET s == st.tk[o.t].home IN
                         IF ~Taken(st, s, o.n) THEN [ok |-> TRUE, st |-> [st EXCEPT !.tk[o.t].name = o.n]]
                         ELSE IF st.ses[s].pol = "rename" THEN [ok |-> TRUE, st |-> [st EXCEPT !.tk[o.t].name = Free(st, s, o.n)]]
                         ELSE [ok |-> FALSE, st |-> st]
    [] o.o = "remove" -> LET ts == {t \in st.ses[o.s].has : st.tk[t].name = o.n} IN
                         [ok |-> ts # {}, st |-> [st EXCEPT !.ses[o.s].has = @ \ ts]]
    [] o.o = "removeobj" -> [ok |-> o.t \in st.ses[o.s].has, st |-> [st EXCEPT !.ses[o.s].has = @ \ {o.t}]]
    [] o.o = "add" -> Insert(st, o.s, o.t, st.tk[o.t])
    [] o.o = "include" -> LET i == Include(st, o.s, o, st.ses[o.g].has) IN
                          IF i.ok THEN [ok |-> TRUE, st |-> [i.st EXCEPT !.ses[o.s].par = Over(@, st.ses[o.g].par)]] ELSE i
    [] o.o = "param" -> [ok |-> TRUE, st |-> [st EXCEPT !.ses[o.s].par = Put(@, o.n, o.v)]]

(* What can be seen of it: snap[s] = [has: <<name, task>> pairs, find: name -> task or "none", par, home: tasks that say they belong to s] *)
Shows(st, snap) ==
  \A s \in DOMAIN snap :
    /\ Range(snap[s].has) = {<<st.tk[t].name, t>> : t \in st.ses[s].has}
    /\ Len(snap[s].has) = Cardinality(st.ses[s].has)
    /\ \A n \in DOMAIN snap[s].find :
          LET ts == {t \in st.ses[s].has : st.tk[t].name = n} IN
          snap[s].find[n] = (IF ts = {} THEN "none" ELSE CHOOSE t \in ts : TRUE)
    /\ DOMAIN snap[s].par = DOMAIN st.ses[s].par /\ \A n \in DOMAIN snap[s].par : snap[s].par[n] = st.ses[s].par[n]
    /\ \A i \in 1..Len(snap[s].tasks) :
         LET x == snap[s].tasks[i] IN
         /\ x.home                                               \* it knows its session
         /\ x.ex = st.tk[x.t].ex
         /\ \A f \in DOMAIN x.ready : x.ready[f] = (st.tk[x.t].conds \subseteq Range(x.flags[f]))

RECURSIVE Walk(_, _, _)
Walk(st, ops, i) ==
  IF i > Len(ops) THEN TRUE
  ELSE LET r == Apply(st, ops[i]) IN
       /\ ops[i].ok = r.ok
       /\ Shows(r.st, ops[i].snap)
       /\ Walk(r.st, ops, i + 1)
JudgeReg(c) == Walk([ses |-> [s \in DOMAIN c.pol |-> [pol |-> c.pol[s], has |-> {}, par |-> <<>>]], tk |-> <<>>], c.ops, 1)

(* Session.run: each task named (once if it is to be run regardless of its condition, or may start) and no other *)
Should(c, t) == LET x == c.ts[t] IN t \in Range(c.names) /\ (~c.obey \/ (x.cond /\ ~x.disabled))
JudgeRun(c) ==
  /\ \A t \in DOMAIN c.ts :
       /\ c.ran[t] = IF Should(c, t) THEN 1 ELSE 0
       /\ c.ran[t] = 1 => c.how[t] = (IF c.ex # "" THEN c.ex ELSE IF c.ts[t].ex # "" THEN c.ts[t].ex ELSE c.default)
       /\ c.status[t] = IF c.ran[t] = 1 THEN c.ts[t].out ELSE c.before[t]
       /\ c.kept[t]                                             \* execution, conditions, disabled, requests etc. as before
  /\ c.keptses

JudgeRegistry(c) == c.k # "broken" /\ (IF c.k = "run" THEN c.e = c.want /\ JudgeRun(c) ELSE JudgeReg(c))
===============================================================================
