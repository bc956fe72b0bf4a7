------------------------------- MODULE M_Basin -------------------------------
(***************************************************************************)
(* get_watershed_boundary and get_subbasins of dany: the points are linked   *)
(* to the next point downstream, sorted, and each one labels what flows into  *)
(* it and has no label yet.                                                   *)
(* VARIANT "given": the points label in the order given (must fail).          *)
(***************************************************************************)
EXTENDS Small
CONSTANTS N, MAXPTS, VARIANT, EMIT
VARIABLES fd, pts, pc, todo, lab, stack, id
vars == <<fd, pts, pc, todo, lab, stack, id>>
Init == /\ fd \in [1..N -> {-2} \cup (1..N)]
        /\ pts \in UNION {[1..k -> 1..N] : k \in 1..MAXPTS}
        /\ pc = "link" /\ todo = <<>> /\ lab = [k \in 1..N |-> 0] /\ stack = <<>> /\ id = 0
        /\ (EMIT /\ (\A k \in 1..N : fd[k] >= 1) /\ IsForest([k \in 1..N |-> IF fd[k] = k THEN 0 ELSE fd[k]])
              => Case([kind |-> "basin", par |-> [k \in 1..N |-> IF fd[k] = k THEN 0 ELSE fd[k]], pts |-> pts]))

\* the walk of get_subbasins from the point cur
RECURSIVE Walk(_, _, _)
Walk(cur, x, seen) ==
  IF x \in seen THEN -1
  ELSE IF x \notin Range(pts) \/ x = cur
  THEN IF x = cur /\ fd[x] = cur THEN -1
       ELSE IF fd[x] < 1 THEN -1
       ELSE Walk(cur, fd[x], IF x = cur THEN seen ELSE seen \cup {x})
  ELSE x
\* rows of the reversed flow directions, the unlabelled sink at -1
Ups(x) == SeqOfSet({y \in 1..N : fd[y] = x})
Link == /\ pc = "link"
        /\ LET G == [x \in Range(pts) \cup {-1} |-> IF x = -1 THEN -1 ELSE Walk(x, x, {})]
               order == TopoSort(G)
           IN todo' = IF VARIANT = "given" THEN pts ELSE SubSeq(order, 1, Len(order) - 1)
        /\ pc' = "label" /\ UNCHANGED <<fd, pts, lab, stack, id>>
Point == /\ pc = "label" /\ stack = <<>> /\ todo # <<>>
         /\ id' = MaxS(Range(lab)) + 1
         /\ lab' = [lab EXCEPT ![Head(todo)] = MaxS(Range(lab)) + 1]
         /\ stack' = Ups(Head(todo)) /\ todo' = Tail(todo)
         /\ UNCHANGED <<fd, pts, pc>>
Spread == /\ stack # <<>>
          /\ LET x == Head(stack) IN
             IF lab[x] # 0 THEN stack' = Tail(stack) /\ lab' = lab
             ELSE lab' = [lab EXCEPT ![x] = id] /\ stack' = Tail(stack) \o Ups(x)
          /\ UNCHANGED <<fd, pts, pc, todo, id>>
Finished == pc = "label" /\ stack = <<>> /\ todo = <<>>
Next == Link \/ Point \/ Spread \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
P == Range(pts)
\* the conditions of V_ws and V_sub in module Trace
Result == Finished =>
  LET paths == Paths(fd)  loops == OnLoop(fd, paths)
  IN /\ (Cardinality(P) = 1 => \A p \in P : \A x \in 1..N :
             lab[x] = IF x \in Watershed(paths, p) THEN 1 ELSE 0)
     /\ {lab[p] : p \in P} = 1..Cardinality(P)
     /\ \A x \in 1..N : LET p == SubLabel(fd, P, x) IN
           (p # 0 /\ p \in loops /\ (P \cap paths[p]) # {p}) \/ lab[x] = IF p = 0 THEN 0 ELSE lab[p]
     /\ (loops = {} => \A p \in P : LET f == fd[p] IN
           IF f < 1 \/ f = p THEN TRUE
           ELSE LET s == SubLabel(fd, P, f) IN s = 0 \/ lab[p] < lab[s])
Terminates == <>Finished
=============================================================================
