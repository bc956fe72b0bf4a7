-------------------------------- MODULE M_Nan --------------------------------
(***************************************************************************)
(* Filling of NaN cells: a stack of voids; the last one is tried, and put to  *)
(* the bottom when none of its neighbors has a value.  Stops when the stack    *)
(* is empty or every cell left was tried without progress.                     *)
(* VARIANT "norequeue": a cell that cannot be filled yet is given up.          *)
(***************************************************************************)
EXTENDS Small
CONSTANTS ROWS, COLS, HI, METHODS, VARIANT, EMIT
M == TLCEval(GridMesh(ROWS, COLS))
N == M.n
Adj == TLCEval(Adjacency(M))
VARIABLES dem, method, val, stack, nskip
vars == <<dem, method, val, stack, nskip>>
Init == /\ dem \in [1..N -> {NIL} \cup {1000 * v : v \in 0..HI}]
        /\ method \in METHODS
        /\ val = dem /\ stack = SeqOfSet(Voids(dem)) /\ nskip = 0
        /\ (EMIT => Case([kind |-> "nan", rows |-> ROWS, cols |-> COLS, dem |-> dem, method |-> method]))
Stat(S) ==
  LET f == [d \in S |-> val[d]]
      q == SortBag(f, S)
      k == Len(q)
  IN CASE method = "min" -> q[1] [] method = "max" -> q[k]
       [] method = "mean" -> SumSeq(q) \div k
       [] OTHER -> IF k % 2 = 1 THEN q[(k + 1) \div 2] ELSE (q[k \div 2] + q[k \div 2 + 1]) \div 2
Going == stack # <<>> /\ nskip < Len(stack)
Try ==
  /\ Going
  /\ LET c == stack[Len(stack)]
         rest == SubSeq(stack, 1, Len(stack) - 1)
         K == {d \in Adj[c] : val[d] # NIL}
     IN IF K = {}
        THEN /\ stack' = IF VARIANT = "norequeue" THEN rest ELSE <<c>> \o rest
             /\ nskip' = IF VARIANT = "norequeue" THEN 0 ELSE nskip + 1
             /\ val' = val
        ELSE /\ stack' = rest /\ nskip' = 0 /\ val' = [val EXCEPT ![c] = Stat(K)]
  /\ UNCHANGED <<dem, method>>
Next == Try \/ (~Going /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Safe == \A c \in 1..N : dem[c] # NIL => val[c] = dem[c]
Result ==
  ~Going =>
    LET V == Voids(dem)  F == Fillable(Adj, dem)
    IN /\ \A c \in 1..N : (val[c] = NIL) <=> (c \notin F)
       /\ FillOrder(Adj, method, val, (1..N) \ V, V \cap F, 2)
Terminates == <>(~Going)
=============================================================================
