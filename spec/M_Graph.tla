------------------------------- MODULE M_Graph -------------------------------
(***************************************************************************)
(* connectiondata of a graph that the user made: any ids, any links among     *)
(* them (also to the reach itself, and in circles), in any order of the        *)
(* dictionary.  Rows are in order of the ids; each step adds one link: minus   *)
(* the reach below at the end of the own row, the reach in front of the row    *)
(* of the one below; in the end the leading id and the ids are made zero-based *)
(* with their sign.                                                            *)
(* VARIANT "own": a link of a reach to itself is kept; "order": rows come in   *)
(* the order of the dictionary; "sign": all ids are lowered by one (must fail). *)
(***************************************************************************)
EXTENDS Small
CONSTANTS N, VARIANT, EMIT
VARIABLES ids, G, perm, todo, rows, pc
vars == <<ids, G, perm, todo, rows, pc>>

Perms(S) == {s \in [1..Cardinality(S) -> S] : Range(s) = S}
Init == /\ ids \in (SUBSET (1..N)) \ {{}}
        /\ G \in [ids -> {0} \cup ids]
        /\ perm \in {s \in Perms(ids) : s = SeqOfSet(ids) \/ s = Rev(SeqOfSet(ids))}
        /\ todo = SeqOfSet(ids) /\ rows = [k \in ids |-> <<>>] /\ pc = "links"
        /\ (EMIT => Case([kind |-> "graph", graph |-> [j \in DOMAIN perm |-> <<perm[j], G[perm[j]]>>]]))
Link == /\ pc = "links" /\ todo # <<>>
        /\ LET r == Head(todo)  t == G[Head(todo)] IN
           rows' = IF t = 0 \/ (t = r /\ VARIANT # "own") THEN rows
                   ELSE LET q == [rows EXCEPT ![r] = Append(rows[r], -t)]
                        IN [q EXCEPT ![t] = <<r>> \o q[t]]
        /\ todo' = Tail(todo) /\ UNCHANGED <<ids, G, perm, pc>>
Finish == /\ pc = "links" /\ todo = <<>> /\ pc' = "done" /\ UNCHANGED <<ids, G, perm, todo, rows>>
Finished == pc = "done"
Next == Link \/ Finish \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Order == IF VARIANT = "order" THEN perm ELSE SeqOfSet(ids)
Zero(v) == IF v > 0 \/ VARIANT = "sign" THEN v - 1 ELSE v + 1
Out == [j \in DOMAIN Order |-> <<Order[j] - 1>> \o [k \in DOMAIN rows[Order[j]] |-> Zero(rows[Order[j]][k])]]
Pairs == {<<k, G[k]>> : k \in ids}
Result == Finished => ConnRows(Pairs, Out)
(* what MODFLOW 6 checks on reading: links are mutual, one each way, and the   *)
(* number of connections agrees (reach 1 has no sign of its own)               *)
Mutual == Finished /\ 1 \notin ids =>
  \A j, k \in DOMAIN Out : j # k =>
     Cardinality({x \in 2..Len(Out[j]) : Out[j][x] = -Out[k][1]})
       = Cardinality({x \in 2..Len(Out[k]) : Out[k][x] = Out[j][1]})
Terminates == <>Finished
=============================================================================
