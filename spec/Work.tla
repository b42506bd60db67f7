--------------------------------- MODULE Work ---------------------------------
(***************************************************************************)
(* Command tasks: each run starts the command once, with the options made  *)
(* of its parameters, and succeeds with its output when it exits with 0.   *)
(* Code tasks: each run executes the code with its parameters as variables *)
(* and nothing else, and succeeds with the value of the output variable.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Over(f, g) == [n \in DOMAIN f \cup DOMAIN g |-> IF n \in DOMAIN g THEN g[n] ELSE f[n]]

(* Commands *)
Dashed == {"-o", "--opt", "-x"}                             \* the names given as options already
Option(form, n) == IF n \in Dashed THEN n ELSE form \o n
Pairs(form, ps) == {<<Option(form, n), ps[n]>> : n \in DOMAIN ps}
(* args: first extra, then the options in some order, each followed by its value, each once *)
OptionsOk(args, extra, form, ps) ==
  LET k == Len(extra)
      m == Cardinality(DOMAIN ps) IN
  /\ Len(args) = k + 2 * m
  /\ \A i \in 1..k : args[i] = extra[i]
  /\ {<<args[k + 2 * i - 1], args[k + 2 * i]>> : i \in 1..m} = Pairs(form, ps)
CmdOk(t, x) ==
  LET ps == Over(t.ps, x.more) IN
  IF t.gone THEN x.status = "fail" /\ x.calls = <<>>
  ELSE /\ Len(x.calls) = 1
       /\ OptionsOk(x.calls[1].args, t.extra, t.form, ps)
       /\ x.calls[1].cwd = t.cwd /\ x.calls[1].env = t.env
       /\ IF t.late THEN x.status = "fail" /\ ~x.slow
          ELSE IF t.code = 0 THEN x.status = "success" /\ x.ret = t.out
          ELSE x.status = "fail" /\ x.told

(* Code: statements over variables with texts as values *)
RECURSIVE Sum(_, _, _)
Sum(ps, i, env) ==                                          \* -> [ok, v]
  IF i > Len(ps) THEN [ok |-> TRUE, v |-> ""]
  ELSE LET r == Sum(ps, i + 1, env) IN
       IF ps[i][1] = "v" /\ ps[i][2] \notin DOMAIN env THEN [ok |-> FALSE, v |-> ""]
       ELSE [ok |-> r.ok, v |-> (IF ps[i][1] = "v" THEN env[ps[i][2]] ELSE ps[i][2]) \o r.v]
RECURSIVE Exec(_, _, _, _)
Exec(ss, i, env, seen) ==                                   \* -> [st, env]
  IF i > Len(ss) THEN [st |-> "success", env |-> env]
  ELSE LET s == ss[i] IN
    CASE s.s = "raise" -> [st |-> "fail", env |-> env]
      [] s.s = "inact" -> [st |-> "inaction", env |-> env]
      [] s.s = "leak" -> Exec(ss, i + 1, Over(env, [n \in {s.v} |-> IF seen THEN "seen" ELSE "clean"]), TRUE)
      [] s.s = "set" -> LET r == Sum(s.ps, 1, env) IN
                        IF r.ok THEN Exec(ss, i + 1, Over(env, [n \in {s.v} |-> r.v]), seen) ELSE [st |-> "fail", env |-> env]
CodeOk(t, x, before) ==
  LET r == Exec(t.stmts, 1, Over(t.ps, x.more), FALSE) IN
  /\ x.status = r.st
  /\ x.ret = IF r.st # "success" THEN before ELSE IF t.out \in DOMAIN r.env THEN r.env[t.out] ELSE "none"

RECURSIVE Follow(_, _, _)
Follow(c, i, rets) ==                                       \* rets: what the last success of each task gave
  IF i > Len(c.runs) THEN TRUE
  ELSE LET x == c.runs[i]
           t == c.ts[x.t] IN
       /\ x.e = ""
       /\ IF t.kind = "cmd" THEN CmdOk(t, x) /\ (x.status # "success" => x.ret = rets[x.t]) ELSE CodeOk(t, x, rets[x.t])
       /\ Follow(c, i + 1, [rets EXCEPT ![x.t] = IF x.status = "success" THEN x.ret ELSE @])
JudgeWork(c) == c.k # "broken" /\ Follow(c, 1, [n \in DOMAIN c.ts |-> "none"])
===============================================================================
