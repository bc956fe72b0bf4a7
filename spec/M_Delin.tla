------------------------------- MODULE M_Delin -------------------------------
(***************************************************************************)
(* Streams from accumulation: the accumulation of every forest, one cell per *)
(* unit, cut at a threshold (one number, or one per cell) and by a basin      *)
(* boundary, in that order, with the copies that the caller gets.             *)
(* THR are the thresholds; doubled, so that halves between accumulations are  *)
(* among them.                                                                *)
(* VARIANT "above": only more than the threshold counts; "inside": the        *)
(* boundary cuts the cells that flow into it, too; "live": the caller gets     *)
(* the array itself (all must fail).                                          *)
(***************************************************************************)
EXTENDS Small
CONSTANTS N, THR, VARIANT, EMIT
VARIABLES fd, thr, bb, pc, facc, arr, given
vars == <<fd, thr, bb, pc, facc, arr, given>>

Par == [k \in 1..N |-> IF fd[k] = k THEN 0 ELSE fd[k]]
Init == /\ fd \in [1..N -> 1..N] /\ IsForest(Par)
        /\ thr \in [1..N -> THR]
        /\ bb \in SUBSET (1..N)
        /\ pc = "acc" /\ facc = <<>> /\ arr = <<>> /\ given = <<>>
        /\ (EMIT => Case([kind |-> "delin", par |-> Par, thr |-> thr, bb |-> SeqOfSet(bb)]))
Acc == /\ pc = "acc"
       /\ \E p \in {Paths(fd)} : facc' = [k \in 1..N |-> Cardinality(Upstream(p, k))]
       /\ pc' = "cut" /\ UNCHANGED <<fd, thr, bb, arr, given>>
Cut == /\ pc = "cut"
       /\ arr' = [k \in 1..N |-> IF (IF VARIANT = "above" THEN 2 * facc[k] > thr[k]
                                     ELSE 2 * facc[k] >= thr[k]) THEN 1 ELSE 0]
       /\ pc' = "basin" /\ UNCHANGED <<fd, thr, bb, facc, given>>
Basin == /\ pc = "basin"
         /\ arr' = [k \in 1..N |-> IF k \notin bb \/ (VARIANT = "inside" /\ fd[k] \notin bb) THEN 0 ELSE arr[k]]
         /\ pc' = "give" /\ UNCHANGED <<fd, thr, bb, facc, given>>
\* the caller asks for the streams and writes into what it got
Give == /\ pc = "give"
        /\ given' = [k \in 1..N |-> 7]
        /\ arr' = IF VARIANT = "live" THEN given' ELSE arr
        /\ pc' = "done" /\ UNCHANGED <<fd, thr, bb, facc>>
Finished == pc = "done"
Next == Acc \/ Cut \/ Basin \/ Give \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Locs == {k \in 1..N : arr[k] # 0}
(* the condition of V_delineate in module Trace *)
Result == Finished =>
  \A k \in 1..N : arr[k] = IF 2 * facc[k] >= thr[k] /\ k \in bb THEN 1 ELSE 0
(* and what users rely on: with one threshold and no boundary, streams go on  *)
(* to the end of every path, and each cell has no less than what flows in      *)
Closed == Finished /\ bb = 1..N /\ (\A k \in 1..N : thr[k] = thr[1]) =>
  \A k \in Locs : fd[k] \in Locs
\* a boundary that nothing leaves or enters cuts like a smaller basin
Whole == Finished /\ (\A k \in 1..N : (k \in bb) <=> (fd[k] \in bb)) /\ (\A k \in 1..N : thr[k] = thr[1]) =>
  \A k \in Locs : fd[k] \in Locs
Terminates == <>Finished
=============================================================================
