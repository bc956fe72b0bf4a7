------------------------------- MODULE M_Reach -------------------------------
(***************************************************************************)
(* MODFLOW 6 reaches: the initial numbering, the topological sort, the       *)
(* renumbering and the connection data rows of dany, for every flow direction *)
(* function and stream set.  VARIANT "plain": reaches keep their first        *)
(* numbers (must fail).                                                       *)
(***************************************************************************)
EXTENDS Small
CONSTANTS N, VARIANT, EMIT
VARIABLES fd, locs, pc, num, gr, todo, rows
vars == <<fd, locs, pc, num, gr, todo, rows>>
Init == /\ fd \in [1..N -> {-2} \cup (1..N)]
        /\ locs \in SUBSET (1..N)
        /\ num = [k \in 1..N |-> IF k \in locs THEN Cardinality({j \in locs : j <= k}) ELSE 0]
        /\ gr = <<>> /\ pc = "sort" /\ todo = {} /\ rows = <<>>
        /\ (EMIT /\ (\A k \in 1..N : fd[k] >= 1) /\ IsForest([k \in 1..N |-> IF fd[k] = k THEN 0 ELSE fd[k]])
              => Case([kind |-> "stream", par |-> [k \in 1..N |-> IF fd[k] = k THEN 0 ELSE fd[k]],
                       locs |-> SeqOfSet(locs)]))
To(k) == IF fd[k] < 1 THEN 0 ELSE num[fd[k]]
CellOf(r) == CHOOSE k \in locs : num[k] = r
Sort == /\ pc = "sort"
        /\ LET K == Cardinality(locs)
               G == [r \in 1..K |-> To(CellOf(r))]
               order == IF VARIANT = "plain" THEN [r \in 1..K |-> r] ELSE TopoSort(G)
               new == [r \in 0..K |-> IF r = 0 THEN 0 ELSE IndexOf(order, r)]
           IN /\ num' = [k \in 1..N |-> new[num[k]]]
              /\ gr' = [r \in 1..K |-> new[G[order[r]]]]
              /\ todo' = 1..K
              /\ rows' = [r \in 1..K |-> <<>>]
        /\ pc' = "rows" /\ UNCHANGED <<fd, locs>>
Row == /\ pc = "rows" /\ todo # {}
       /\ LET r == MinS(todo) t == gr[r] IN
          /\ rows' = IF t \in {0, r} THEN rows
                     ELSE [rows EXCEPT ![r] = Append(rows[r], -t), ![t] = <<r>> \o rows[t]]
          /\ todo' = todo \ {r}
       /\ UNCHANGED <<fd, locs, pc, num, gr>>
Finished == pc = "rows" /\ todo = {}
Next == Sort \/ Row \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Pairs == [r \in DOMAIN gr |-> <<r, gr[r]>>]
ZeroBased == [r \in DOMAIN rows |-> <<r - 1>> \o [j \in DOMAIN rows[r] |->
                IF rows[r][j] > 0 THEN rows[r][j] - 1 ELSE rows[r][j] + 1]]
Result == Finished =>
  /\ ReachNumbering(locs, num)
  /\ ReachGraph(fd, locs, num, Pairs)
  /\ (LoopFree(fd) => UpstreamFirst(Pairs))
  /\ ConnRows(Range(Pairs), ZeroBased)
Terminates == <>Finished
=============================================================================
