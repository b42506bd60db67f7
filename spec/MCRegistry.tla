------------------------------ MODULE MCRegistry ------------------------------
(* Every sequence of operations on a session and a group, for each policy: names stay unique, no task is lost or doubled. *)
EXTENDS Registry
CONSTANTS MaxTasks, MaxOps
VARIABLES st, n, gone      \* gone: whether the group has been included
Ns == {"a", "b", "x.a", "a - 1"}
Empty(pol) == [pol |-> pol, has |-> {}, par |-> <<>>]
Init == /\ \E pol \in {"raise", "rename", "ignore"} : st = [ses |-> [s |-> Empty(pol), g |-> Empty("raise")], tk |-> <<>>]
        /\ n = 0 /\ gone = FALSE
Ids == {"t" \o ToString(i) : i \in 1..MaxTasks}
Ops ==
     {[o |-> "make", s |-> s, t |-> t, n |-> m, ex |-> "", conds |-> <<>>] :
         s \in (IF gone THEN {"s"} ELSE {"s", "g"}), t \in {"t" \o ToString(Cardinality(DOMAIN st.tk) + 1)} \cap Ids, m \in Ns}
  \cup {[o |-> "rename", t |-> t, n |-> m] : t \in {t \in DOMAIN st.tk : t \in st.ses[st.tk[t].home].has}, m \in Ns}
  \cup {[o |-> "remove", s |-> "s", n |-> m] : m \in Ns}
  \cup {[o |-> "add", s |-> "s", t |-> t] : t \in {t \in DOMAIN st.tk : t \notin st.ses["s"].has \cup st.ses["g"].has}}
  \cup {[o |-> "include", s |-> "s", g |-> "g", prefix |-> p, ex |-> "main", conds |-> <<>>] : p \in (IF gone THEN {} ELSE {"", "x."})}
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \E o \in Ops : /\ o.o = "rename" => o.n # st.tk[o.t].name
                          /\ st' = Apply(st, o).st /\ gone' = (gone \/ o.o = "include")
                          /\ ~Apply(st, o).ok => o.o = "include" \/ st' = st             \* what is rejected changes nothing
Spec == Init /\ [][Next]_<<st, n, gone>>
Unique == \A t, u \in st.ses["s"].has : st.tk[t].name = st.tk[u].name => t = u
Knows == st.ses["s"].has \subseteq DOMAIN st.tk /\ \A t \in st.ses["s"].has : st.tk[t].home = "s"
(* A session that renames turns no task away *)
AllIn == st.ses["s"].pol = "rename" => \A t \in DOMAIN st.tk : st.tk[t].home = "s" \/ t \in st.ses["g"].has
===============================================================================
