-------------------------------- MODULE MCParams --------------------------------
(***************************************************************************)
(* All sequences of settings, requests and runs, with what each body gets: *)
(* the request's value wins over the task's and the task's over the        *)
(* session's; a request is used by one run, in the order made; what a run  *)
(* gets depends on nothing else.                                           *)
(***************************************************************************)
EXTENDS Params, FiniteSets
CONSTANT MaxOps
VARIABLES s, k, reqs, got, n         \* reqs: values requested, in order; got: what the runs of t got
vars == <<s, k, reqs, got, n>>
V(v) == [k |-> "val", v |-> v]
Args == {V("s1"), [k |-> "arg", key |-> "y", d |-> <<>>], [k |-> "arg", key |-> "y", d |-> <<"dflt">>], [k |-> "ret", t |-> "t", d |-> <<"none yet">>]}
T(kind, x) == [name |-> "t", kind |-> kind, x |-> x, kw |-> FALSE, sig |-> [x |-> [d |-> <<>>]]]
Init == /\ k \in {T(kind, x) : kind \in {"func", "cmd"}, x \in {"main", "thread"}}
        /\ s = [sp |-> <<>>, tp |-> [t |-> <<>>], q |-> [t |-> <<>>], ret |-> <<>>, env |-> <<>>]
        /\ reqs = <<>> /\ got = <<>> /\ n = 0
Put(f, x, v) == Over(f, [m \in {x} |-> v])
SetS == \E a \in Args, m \in {"x", "y"} : ~(m = "y" /\ a.k = "arg") /\ s' = [s EXCEPT !.sp = Put(@, m, a)] /\ UNCHANGED <<k, reqs, got>>
DelS == \E m \in DOMAIN s.sp : s' = [s EXCEPT !.sp = Drop(@, m)] /\ UNCHANGED <<k, reqs, got>>
SetT == \E a \in {V("t1"), [k |-> "arg", key |-> "y", d |-> <<>>]} : s' = [s EXCEPT !.tp["t"] = Put(@, "x", a)] /\ UNCHANGED <<k, reqs, got>>
Req == LET v == "q" \o ToString(Len(reqs) + 1) IN
       s' = [s EXCEPT !.q["t"] = Append(@, [x |-> V(v)])] /\ reqs' = Append(reqs, v) /\ UNCHANGED <<k, got>>
Run == LET g == Given(k, s) IN
       /\ s' = [s EXCEPT !.q["t"] = IF @ = <<>> THEN @ ELSE Tail(@), !.ret = IF g.ok THEN Put(@, "t", "r") ELSE @]
       /\ got' = Append(got, [ok |-> g.ok, v |-> IF g.ok /\ "x" \in DOMAIN g.seen THEN g.seen.x ELSE "", had |-> s.q["t"] # <<>>,
                              tp |-> s.tp["t"], sp |-> s.sp])
       /\ UNCHANGED <<k, reqs>>
Next == n < MaxOps /\ n' = n + 1 /\ (SetS \/ DelS \/ SetT \/ Req \/ Run)
Spec == Init /\ [][Next]_vars

Served == {i \in DOMAIN got : got[i].had}
(* The ith run that had a request got the ith request's value *)
InOrder == \A i \in Served : got[i].ok /\ got[i].v = reqs[Cardinality({j \in Served : j <= i})]
Once == Cardinality(Served) + Len(s.q["t"]) = Len(reqs)
NoLeftovers == \A i \in DOMAIN got \ Served :
  /\ got[i].v \notin {reqs[j] : j \in DOMAIN reqs}
  /\ "x" \in DOMAIN got[i].tp /\ got[i].tp.x.k = "val" => got[i].v = "t1"
  /\ "x" \notin DOMAIN got[i].tp /\ "x" \in DOMAIN got[i].sp /\ got[i].sp.x.k = "val" /\ k.kind = "func" => got[i].v = "s1"
  /\ "x" \notin DOMAIN got[i].tp /\ k.kind = "cmd" => got[i].v = ""
  /\ "x" \notin DOMAIN got[i].tp /\ "x" \notin DOMAIN got[i].sp => ~got[i].ok
================================================================================
