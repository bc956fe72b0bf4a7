------------------------------- MODULE M_Flood -------------------------------
(***************************************************************************)
(* The priority flood of dany (methods "priority" and "complete", with edge  *)
(* seeds or a stream mask) as a state machine: one step closes the neighbors  *)
(* of one cell.  Cells of equal elevation leave the queue in any order (TIES) *)
(* or in the order of their numbers.                                          *)
(* At the end the declarative conditions of C01, C02, C03 must hold.          *)
(*                                                                          *)
(* SHAPE  "grid"  every DEM with values 0..HI                                 *)
(*        "rim"   edge cells at HI but one outlet at 0, free interior         *)
(*        "mask"  every DEM and every stream mask                             *)
(* VARIANT "dany"; "nopit": neighbors are not raised (must fail);             *)
(*         "onepit": a stream cell is raised with one stream neighbor         *)
(***************************************************************************)
EXTENDS Small
CONSTANTS ROWS, COLS, HI, EPS, SHAPE, TIES, VARIANT, EMIT
ASSUME SHAPE \in {"grid", "rim", "mask"}

M == TLCEval(GridMesh(ROWS, COLS))
N == M.n
Adj == TLCEval(Adjacency(M))
Edge == TLCEval(EdgeCells(M))
Sorted == TLCEval([c \in 1..N |-> SeqOfSet(Adj[c])])

VARIABLES dem, eps, seed, new, open, pit, closed
vars == <<dem, eps, seed, new, open, pit, closed>>
Streams0 == SHAPE = "mask"

Dems == IF SHAPE = "rim"
        THEN {TLCEval([c \in 1..N |-> IF c = o THEN 0 ELSE IF c \in Edge THEN HI ELSE f[c]]) :
                o \in Edge, f \in [(1..N) \ Edge -> 0..HI]}
        ELSE [1..N -> 0..HI]
Init ==
  /\ dem \in Dems
  /\ eps \in EPS
  /\ seed \in IF Streams0 THEN SUBSET (1..N) ELSE {Edge}
  /\ new = dem /\ open = seed /\ closed = seed /\ pit = <<>>
  /\ (EMIT => Case([kind |-> "flood", rows |-> ROWS, cols |-> COLS, dem |-> dem, eps |-> eps,
                    mask |-> IF Streams0 THEN SeqOfSet(seed) ELSE <<0>>]))

\* the step for cell c; rest = the pit queue without it, q = open without it
Close(c, rest, q) ==
  LET nb == Adj[c] \cap seed
      lo == MinS({new[d] : d \in nb} \cup {INF})
      k  == IF VARIANT = "onepit" THEN 1 ELSE 2
      v  == IF Streams0 /\ c \in seed /\ Cardinality(nb) >= k /\ lo > new[c] THEN lo + eps ELSE new[c]
      fresh == SelectSeq(Sorted[c], LAMBDA d : d \notin closed)
      low   == SelectSeq(fresh, LAMBDA d : new[d] <= v)
      up    == IF VARIANT = "nopit" THEN 0 ELSE eps
  IN /\ new' = [d \in 1..N |-> IF d = c THEN v ELSE IF d \in Range(low) THEN v + up ELSE new[d]]
     /\ closed' = closed \cup Range(fresh)
     /\ pit' = rest \o low
     /\ open' = q \cup (Range(fresh) \ Range(low))
     /\ UNCHANGED <<dem, eps, seed>>
FromPit == pit # <<>> /\ Close(Head(pit), Tail(pit), open)
FromOpen == /\ pit = <<>> /\ open # {}
            /\ \E c \in open : (\A d \in open : new[c] < new[d] \/ (new[c] = new[d] /\ (TIES \/ c <= d))) /\ Close(c, pit, open \ {c})
Finished == pit = <<>> /\ open = {}
Next == FromPit \/ FromOpen \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* while it runs
Safe == /\ NeverLowers(dem, new)
        /\ open \cap Range(pit) = {} /\ open \subseteq closed /\ Range(pit) \subseteq closed
        /\ \A c \in (1..N) \ closed : new[c] = dem[c]
        /\ \A j, k \in DOMAIN pit : pit[j] = pit[k] => j = k
\* at the end
EdgeResult ==
  (Finished /\ ~Streams0) =>
     /\ EdgesKept(dem, new, Edge) /\ Drains(Adj, new, eps, Edge) /\ AllReach(Adj, new, eps, Edge)
     /\ PriorityBounds(Adj, dem, eps, new, Edge)
     /\ PriorityRaise(Adj, dem, eps, new) /\ PriorityKeeps(Adj, dem, eps, new, Edge)
     /\ (eps = 0 => CompleteExact(Adj, dem, new, Edge))
MaskResult ==
  (Finished /\ Streams0) =>
     LET R == MaskReached(Adj, seed)
         s == seed \cup ((1..N) \ R)
     IN /\ MaskCells(Adj, dem, eps, new, seed)
        /\ \A c \in (1..N) \ R : new[c] = dem[c]
        /\ MaskRaise(Adj, dem, eps, new, seed) /\ MaskBounds(Adj, dem, eps, new, seed, R)
        /\ Drains(Adj, new, eps, s) /\ AllReach(Adj, new, eps, s)
Terminates == <>Finished
=============================================================================
