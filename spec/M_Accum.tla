------------------------------- MODULE M_Accum -------------------------------
(***************************************************************************)
(* flow_accumulation of dany on every flow direction function of N cells:    *)
(* a walker starts at each cell without inflow, carries what it has gathered  *)
(* downstream and stops at cells that still wait for another inflow.          *)
(* Cells weigh 1, 2, 4, ... so that any wrong contribution shows.             *)
(* VARIANT "late": the wait counter is compared with 1 (must fail).           *)
(***************************************************************************)
EXTENDS Small
CONSTANTS N, VARIANT, EMIT
VARIABLES fd, wait, acc, start, at, carry
vars == <<fd, wait, acc, start, at, carry>>
Own == TLCEval([k \in 1..N |-> 2 ^ (k - 1)])
Init == /\ fd \in [1..N -> {-2} \cup (1..N)]
        /\ wait = [k \in 1..N |-> Nidp(fd, k)]
        /\ acc = Own /\ start = 1 /\ at = 0 /\ carry = 0
        /\ (EMIT /\ (\A k \in 1..N : fd[k] >= 1) /\ IsForest([k \in 1..N |-> IF fd[k] = k THEN 0 ELSE fd[k]])
              => Case([kind |-> "accum", par |-> [k \in 1..N |-> IF fd[k] = k THEN 0 ELSE fd[k]]]))
Begin == /\ at = 0 /\ start <= N
         /\ IF wait[start] = 0 THEN at' = start ELSE at' = 0
         /\ start' = start + 1 /\ carry' = 0 /\ UNCHANGED <<fd, wait, acc>>
Hop == /\ at # 0
       /\ LET s == acc[at] + carry IN
          /\ acc' = [acc EXCEPT ![at] = s] /\ carry' = s
          /\ IF wait[at] >= (IF VARIANT = "late" THEN 1 ELSE 2)
             THEN wait' = [wait EXCEPT ![at] = wait[at] - 1] /\ at' = 0
             ELSE wait' = wait /\ at' = IF fd[at] < 1 THEN 0 ELSE fd[at]
       /\ UNCHANGED <<fd, start>>
Finished == at = 0 /\ start > N
Next == Begin \/ Hop \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Result == Finished =>
  LET p == Paths(fd) IN AccumExact(fd, p, Own, acc) /\ AccumConserved(fd, p, Own, acc)
Terminates == <>Finished
=============================================================================
