-------------------------------- MODULE MCExpr --------------------------------
(***************************************************************************)
(* Expr's reading of texts, against expressions as trees: every tree of up *)
(* to N operators, written with only the parentheses it needs or with all  *)
(* of them, is read as itself, in all states of its atoms; and a sequence  *)
(* of symbols of which one was dropped or doubled is either rejected or    *)
(* still balanced, with an operand on each side of & and |.                *)
(***************************************************************************)
EXTENDS Expr
CONSTANT N
VARIABLES e, full, cut
vars == <<e, full, cut>>
Names == {"A", "B", "C"}
RECURSIVE Trees(_)
Leaf == {[op |-> "atom", n |-> n] : n \in Names}
Trees(n) ==
  IF n = 0 THEN Leaf
  ELSE {[op |-> "~", x |-> x] : x \in Trees(n - 1)}
       \cup UNION {{[op |-> o, x |-> x, y |-> y] : o \in {"&", "|"}, x \in Trees(k), y \in Trees(n - 1 - k)} : k \in 0..(n - 1)}
RECURSIVE Worth(_, _), Write(_, _)
Worth(t, s) == CASE t.op = "atom" -> s.flags[t.n] [] t.op = "~" -> ~Worth(t.x, s)
                 [] t.op = "&" -> Worth(t.x, s) /\ Worth(t.y, s) [] t.op = "|" -> Worth(t.x, s) \/ Worth(t.y, s)
Level(t) == CASE t.op = "|" -> 1 [] t.op = "&" -> 2 [] OTHER -> 3
In(t, min, all) == IF Level(t) < min \/ (all /\ t.op # "atom") THEN <<"(">> \o Write(t, all) \o <<")">> ELSE Write(t, all)
Write(t, all) == CASE t.op = "atom" -> <<t.n>>
                   [] t.op = "~" -> <<"~">> \o In(t.x, 3, all)
                   [] t.op = "&" -> In(t.x, 2, all) \o <<"&">> \o In(t.y, 2, all)
                   [] t.op = "|" -> In(t.x, 1, all) \o <<"|">> \o In(t.y, 1, all)
As == [n \in Names |-> [k |-> "flag", name |-> n]]
States == {[flags |-> f, params |-> <<>>] : f \in [Names -> BOOLEAN]}

Init == \E n \in 0..N : e \in Trees(n) /\ full \in BOOLEAN /\ cut = 0
Text == Write(e, full)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Twice(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i, Len(s))
Next == cut = 0 /\ cut' \in (1..Len(Text)) \cup {0 - i : i \in 1..Len(Text)} /\ UNCHANGED <<e, full>>
Spec == Init /\ [][Next]_vars

ReadsBack == cut = 0 => \A s \in States : LET r == Value(Text, As, s) IN r.ok /\ r.v = Worth(e, s)
RECURSIVE Depth(_, _)
Depth(ts, i) == IF i = 0 THEN 0 ELSE Depth(ts, i - 1) + (CASE ts[i] = "(" -> 1 [] ts[i] = ")" -> -1 [] OTHER -> 0)
Operand(x) == x \in Names \cup {"(", "~"}
WellFormed(ts) ==
  /\ ts # <<>> /\ \A i \in 1..Len(ts) : Depth(ts, i) >= 0
  /\ Depth(ts, Len(ts)) = 0
  /\ Operand(ts[1]) /\ ts[Len(ts)] \in Names \cup {")"}
  /\ \A i \in 1..(Len(ts) - 1) : (ts[i] \in {"&", "|", "~", "("}) = Operand(ts[i + 1])
Damaged == IF cut > 0 THEN Without(Text, cut) ELSE Twice(Text, 0 - cut)
RejectsOthers == cut # 0 => \A s \in States : Value(Damaged, As, s).ok = WellFormed(Damaged)
===============================================================================
