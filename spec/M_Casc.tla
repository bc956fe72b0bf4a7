------------------------------- MODULE M_Casc -------------------------------
(***************************************************************************)
(* Many-to-one cascades of dany: every cell's receiver is looked up and all   *)
(* cells that flow to it are linked, cells at the boundary of the basin to     *)
(* themselves.  The links are those of C17 as a set; each is given once per    *)
(* contributor of the receiver (the recorded finding), never otherwise.        *)
(* VARIANT "out": the outlets of the basin keep their receiver (must fail).    *)
(***************************************************************************)
EXTENDS Small
CONSTANTS N, VARIANT, EMIT
VARIABLES fd, bound, at, links
vars == <<fd, bound, at, links>>
Init == /\ fd \in [1..N -> {-2} \cup (1..N)]
        /\ bound \in SUBSET (1..N)
        /\ at = 1 /\ links = <<>>
        /\ (EMIT /\ (\A k \in 1..N : fd[k] >= 1) /\ IsForest([k \in 1..N |-> IF fd[k] = k THEN 0 ELSE fd[k]])
              => Case([kind |-> "casc", par |-> [k \in 1..N |-> IF fd[k] = k THEN 0 ELSE fd[k]],
                       bb |-> SeqOfSet(bound)]))
f == [k \in 1..N |-> IF k \in bound THEN fd[k] ELSE -9]
Visit == /\ at <= N
         /\ LET t == f[at]
                U == SeqOfSet({k \in 1..N : f[k] = t})
                new == IF t < 0 THEN <<>>
                       ELSE [j \in DOMAIN U |->
                              <<U[j], IF f[t] = -9 /\ VARIANT # "out" THEN U[j] ELSE t>>]
            IN links' = links \o new
         /\ at' = at + 1 /\ UNCHANGED <<fd, bound>>
Finished == at = N + 1
Next == Visit \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Times(p) == Cardinality({k \in DOMAIN links : links[k] = p})
Result == Finished =>
  /\ Range(links) = OneLinks(fd, bound)
  /\ \A p \in Range(links) :
        Times(p) = Cardinality({k \in bound : fd[k] >= 1 /\ fd[k] = fd[p[1]]})
Terminates == <>Finished
=============================================================================
