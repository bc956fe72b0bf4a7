------------------------------- MODULE M_Drain -------------------------------
(***************************************************************************)
(* The iterative filling of Planchon and Darboux as dany runs it: sweeps over *)
(* all cells, each lowering the flooded surface w, until a sweep changes       *)
(* nothing.  VARIANT "low" starts from the highest elevation instead of far    *)
(* above it (must fail).                                                      *)
(***************************************************************************)
EXTENDS Small
CONSTANTS ROWS, COLS, HI, EPS, SHAPE, VARIANT, EMIT
M == TLCEval(GridMesh(ROWS, COLS))
N == M.n
Adj == TLCEval(Adjacency(M))
Edge == TLCEval(EdgeCells(M))
VARIABLES dem, eps, w, at, mod
vars == <<dem, eps, w, at, mod>>
Dems == IF SHAPE = "rim"
        THEN {TLCEval([x \in 1..N |-> IF x = o THEN 0 ELSE IF x \in Edge THEN HI ELSE f[x]]) :
                o \in Edge, f \in [(1..N) \ Edge -> 0..HI]}
        ELSE [1..N -> 0..HI]
Top == IF VARIANT = "low" THEN MaxS(Range(dem)) ELSE INF
Init == /\ dem \in Dems /\ eps \in EPS
        /\ w = [x \in 1..N |-> IF x \in Edge THEN dem[x] ELSE Top]
        /\ at = 1 /\ mod = FALSE
        /\ (EMIT => Case([kind |-> "drain", rows |-> ROWS, cols |-> COLS, dem |-> dem, eps |-> eps]))
Visit ==
  /\ at <= N
  /\ LET L == {d \in Adj[at] : w[d] + eps < w[at]}
         drop == w[at] > dem[at] /\ \E d \in Adj[at] : dem[at] >= w[d] + eps
         v == IF w[at] <= dem[at] THEN w[at]
              ELSE IF drop THEN dem[at]
              ELSE IF L # {} THEN MaxS({w[d] : d \in L}) + eps ELSE w[at]
     IN w' = [w EXCEPT ![at] = v] /\ mod' = (mod \/ v # w[at])
  /\ at' = at + 1 /\ UNCHANGED <<dem, eps>>
Again == at = N + 1 /\ mod /\ at' = 1 /\ mod' = FALSE /\ UNCHANGED <<dem, eps, w>>
Finished == at = N + 1 /\ ~mod
Next == Visit \/ Again \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Safe == \A x \in 1..N : w[x] >= dem[x]
\* after a sweep never below the least surface, and the least surface at the end
Above == at = N + 1 => LET s == Surface(Adj, dem, eps, Edge) IN \A x \in 1..N : w[x] >= s[x]
Result == Finished => DrainExact(Adj, dem, eps, w, Edge)
          /\ EdgesKept(dem, w, Edge) /\ Drains(Adj, w, eps, Edge) /\ AllReach(Adj, w, eps, Edge)
Terminates == <>Finished
=============================================================================
