--------------------------------- MODULE Expr ---------------------------------
(***************************************************************************)
(* Texts of conditions: atoms combined with ~ (binds most), & and | and    *)
(* parentheses, read as usual, and what they are worth in a state.         *)
(* s = [flags |-> record of booleans, params |-> record of texts]          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Bad == [ok |-> FALSE, v |-> FALSE, i |-> 0]
Atom(a, s) ==
  CASE a.k = "const" -> a.v
    [] a.k = "flag" -> s.flags[a.name]
    [] a.k = "env" -> "env" \in DOMAIN s.params /\ s.params.env = a.v
    [] a.k = "param" -> /\ \A i \in DOMAIN a.names : a.names[i] \in DOMAIN s.params
                        /\ \A n \in DOMAIN a.vals : n \in DOMAIN s.params /\ s.params[n] = a.vals[n]

RECURSIVE POr(_, _, _, _), POrMore(_, _, _, _, _), PAnd(_, _, _, _), PAndMore(_, _, _, _, _), PNot(_, _, _, _)
PNot(ts, i, as, s) ==
  IF i > Len(ts) THEN Bad
  ELSE CASE ts[i] = "~" -> LET r == PNot(ts, i + 1, as, s) IN [r EXCEPT !.v = ~r.v]
         [] ts[i] = "(" -> LET r == POr(ts, i + 1, as, s) IN
                           IF r.ok /\ r.i <= Len(ts) THEN IF ts[r.i] = ")" THEN [r EXCEPT !.i = r.i + 1] ELSE Bad ELSE Bad
         [] ts[i] \in DOMAIN as -> [ok |-> TRUE, v |-> Atom(as[ts[i]], s), i |-> i + 1]
         [] OTHER -> Bad
PAndMore(l, ts, i, as, s) ==
  IF ~l.ok \/ i > Len(ts) THEN l
  ELSE IF ts[i] # "&" THEN l
  ELSE LET r == PNot(ts, i + 1, as, s) IN IF r.ok THEN PAndMore([r EXCEPT !.v = l.v /\ r.v], ts, r.i, as, s) ELSE Bad
PAnd(ts, i, as, s) == LET l == PNot(ts, i, as, s) IN PAndMore(l, ts, l.i, as, s)
POrMore(l, ts, i, as, s) ==
  IF ~l.ok \/ i > Len(ts) THEN l
  ELSE IF ts[i] # "|" THEN l
  ELSE LET r == PAnd(ts, i + 1, as, s) IN IF r.ok THEN POrMore([r EXCEPT !.v = l.v \/ r.v], ts, r.i, as, s) ELSE Bad
POr(ts, i, as, s) == LET l == PAnd(ts, i, as, s) IN POrMore(l, ts, l.i, as, s)
(* -> [ok, v]: whether ts is an expression, and what it is worth *)
Value(ts, as, s) == LET r == POr(ts, 1, as, s) IN IF r.ok /\ r.i = Len(ts) + 1 THEN r ELSE Bad

(* A case: tokens ts, atoms as, states ss; e tells why the text was rejected, rs the answers *)
JudgeExpr(c) == c.k # "broken" /\
  IF Value(c.ts, c.as, c.ss[1]).ok
  THEN c.e = "" /\ \A i \in DOMAIN c.ss : c.rs[i].e = "" /\ c.rs[i].v = Value(c.ts, c.as, c.ss[i]).v
  ELSE c.e # ""
===============================================================================
