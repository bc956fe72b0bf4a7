------------------------------- MODULE M_Ctrl -------------------------------
(***************************************************************************)
(* threshold_from_control_points of dany: from each point up the inflow with  *)
(* the greatest accumulation (the first of equal ones).                       *)
(* VARIANT "all": every inflow is followed (must fail).                       *)
(***************************************************************************)
EXTENDS Small
CONSTANTS N, MAXPTS, THR, VARIANT, EMIT
VARIABLES fd, pts, thr, todo, stack, seen, out
vars == <<fd, pts, thr, todo, stack, seen, out>>
\* doubled accumulations, 5 is doubled as well
Acc == LET p == Paths(fd) IN TLCEval([k \in 1..N |-> 2 * Cardinality(Upstream(p, k))])
Init == /\ fd \in [1..N -> {-2} \cup (1..N)]
        /\ LoopFree(fd)
        /\ pts \in UNION {[1..k -> 1..N] : k \in 1..MAXPTS}
        /\ thr \in THR
        /\ todo = pts /\ stack = <<>> /\ seen = {} /\ out = [k \in 1..N |-> thr]
        /\ (EMIT /\ (\A k \in 1..N : fd[k] >= 1) /\ IsForest([k \in 1..N |-> IF fd[k] = k THEN 0 ELSE fd[k]])
              => Case([kind |-> "ctrl", par |-> [k \in 1..N |-> IF fd[k] = k THEN 0 ELSE fd[k]],
                       pts |-> pts, thr |-> thr]))
Point == /\ stack = <<>> /\ todo # <<>>
         /\ stack' = <<Head(todo)>> /\ todo' = Tail(todo) /\ seen' = {}
         /\ UNCHANGED <<fd, pts, thr, out>>
Climb1 == /\ stack # <<>>
          /\ LET x == Head(stack)
                 A == Acc
                 I == SeqOfSet({y \in 1..N : fd[y] = x /\ y # x})
                 top == SelectSeq(I, LAMBDA y : \A z \in Range(I) : A[z] <= A[y])
             IN IF x \in seen THEN stack' = Tail(stack) /\ UNCHANGED <<seen, out>>
                ELSE /\ seen' = seen \cup {x}
                     /\ out' = [out EXCEPT ![x] = A[x] - 10]
                     /\ stack' = Tail(stack) \o (IF I = <<>> THEN <<>>
                                   ELSE IF VARIANT = "all" THEN I ELSE <<top[1]>>)
          /\ UNCHANGED <<fd, pts, thr, todo>>
Finished == stack = <<>> /\ todo = <<>>
Next == Point \/ Climb1 \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Result == Finished => ControlOK(fd, Acc, Range(pts), thr, 10, out)
Terminates == <>Finished
=============================================================================
