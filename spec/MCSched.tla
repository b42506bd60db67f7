------------------------------- MODULE MCSched -------------------------------
(* Configurations for model checking Sched, one family for each concern. *)
EXTENDS Sched

NoHist == [a \in Actions |-> Never]
Base == [x |-> "async", p |-> 0, m |-> "none", to |-> "none", ton |-> 0, perm |-> FALSE, su |-> FALSE, sd |-> FALSE,
         bad |-> "no", dis |-> FALSE, c0 |-> "none", e0 |-> "F", h0 |-> NoHist, s0 |-> "none", late |-> FALSE]
Cfg(tasks) == [tasks |-> tasks, multi |-> FALSE, maxproc |-> 8, timeout |-> 1000, instant |-> FALSE, silcond |-> TRUE, silpre |-> TRUE,
               shutcyc |-> 0, now |-> 100]
A(f) == f @@ Base
Hist(run, fin, act) == [NoHist EXCEPT !["run"] = run, ![act] = fin]

Par == {"async", "thread", "process"}
SimpleOuts == [x \in {"async", "thread", "process", "main"} |-> {"ok", "err"}]
AllOuts == [x \in {"async", "thread", "process", "main"} |-> {"ok", "err", "inact", "selfterm"}]
OkOuts  == [x \in {"async", "thread", "process", "main"} |-> {"ok"}]
ExitOuts == [x \in {"async", "thread", "process", "main"} |-> IF x = "main" THEN {"ok", "exit"} ELSE {"ok"}]

\* two tasks of any kinds, started by conditions and requests
CfgsMix == {Cfg([a |-> A([x |-> xa, p |-> 1, c0 |-> "F", m |-> ma]), b |-> A([x |-> xb, c0 |-> "T"])])
              : xa \in Par \cup {"main"}, xb \in Par \cup {"main"}, ma \in {"no", "yes"}}
\* outcomes
CfgsOut == {Cfg([a |-> A([x |-> xa, p |-> 1, m |-> ma]), b |-> A([x |-> "main"])]) : xa \in Par, ma \in {"no", "yes"}}
\* process limit
CfgsCap == {[Cfg([a |-> A([x |-> "process", p |-> 1, c0 |-> "T", m |-> ma]), b |-> A([x |-> "process"]), d |-> A([x |-> "thread", p |-> -1])])
             EXCEPT !.maxproc = mp] : ma \in {"no", "yes"}, mp \in {1, 2}}
\* requests
CfgsReq == {[Cfg([a |-> A([x |-> xa, p |-> 1, c0 |-> "T", dis |-> d]), b |-> A([x |-> xb])]) EXCEPT !.multi = mu]
              : xa \in {"async", "main"}, xb \in Par, d \in BOOLEAN, mu \in BOOLEAN}
\* termination
CfgsTerm == {[Cfg([a |-> A([x |-> xa, p |-> 1, m |-> "yes", to |-> to, ton |-> 2]), b |-> A([x |-> xb, perm |-> pb])]) EXCEPT !.timeout = 3]
              : xa \in Par, xb \in {"async", "thread"}, to \in {"none", "val", "never"}, pb \in BOOLEAN}
\* start-up and shutdown
CfgsLife == {[Cfg([a |-> A([x |-> xa, p |-> 1, su |-> TRUE, c0 |-> ca, dis |-> da]), b |-> A([x |-> "async", c0 |-> "T", perm |-> pb]),
                   d |-> A([x |-> xd, p |-> -1, sd |-> TRUE, c0 |-> cd])]) EXCEPT !.instant = i]
              : xa \in {"async", "main", "thread"}, xd \in {"async", "main"}, ca \in {"none", "F"}, cd \in {"none", "T"},
                da \in BOOLEAN, pb \in BOOLEAN, i \in BOOLEAN}
\* forced and instant shutdown while there are tasks that go on and on
CfgsForce == {[Cfg([a |-> A([x |-> "main", p |-> 1]), b |-> A([x |-> xb, c0 |-> "T", perm |-> pb, to |-> to])]) EXCEPT !.instant = i]
               : xb \in Par, pb \in BOOLEAN, i \in BOOLEAN, to \in {"none", "never"}}
\* processes that end in the middle of a cycle
CfgsProc == {[Cfg([a |-> A([x |-> "main", p |-> 1]), b |-> A([x |-> "process", c0 |-> "T", m |-> mb])]) EXCEPT !.maxproc = mp]
              : mb \in {"no", "yes"}, mp \in {1, 2}}
\* recovery
CfgsRec == {Cfg([a |-> A([x |-> xa, p |-> 1, h0 |-> h[1], s0 |-> h[2], su |-> su]), b |-> A([x |-> "main", h0 |-> g[1], s0 |-> g[2]])])
              : xa \in {"async", "thread"}, su \in BOOLEAN,
                h \in {<<NoHist, "none">>, <<Hist(5, 9, "success"), "success">>, <<Hist(9, 5, "fail"), "run">>},
                g \in {<<[NoHist EXCEPT !["run"] = 3], "run">>, <<[Hist(3, 4, "crash") EXCEPT !["success"] = 8], "success">>}}
\* tasks created and removed on the way
CfgsDyn == {[Cfg([a |-> A([x |-> xa, p |-> 1, c0 |-> "T", m |-> ma]), b |-> A([x |-> xb, c0 |-> "T", late |-> TRUE]), d |-> A([x |-> "async", p |-> -1, sd |-> TRUE, c0 |-> "none"])])
             EXCEPT !.maxproc = mp] : xa \in Par, xb \in {"async", "process", "main"}, ma \in {"no", "yes"}, mp \in {1, 8}}
\* a bit of everything, for the scripts
CfgsAll == CfgsMix \cup CfgsOut \cup CfgsCap \cup CfgsReq \cup CfgsTerm \cup CfgsLife \cup CfgsRec \cup CfgsForce \cup CfgsProc

One == {1}
OneTwo == {1, 2}
OneFour == {1, 4}
==============================================================================
