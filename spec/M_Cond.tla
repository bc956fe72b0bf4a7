-------------------------------- MODULE M_Cond --------------------------------
(***************************************************************************)
(* The conditions on conditioned DEMs against other descriptions of the same  *)
(* thing, and what they give the rest of the package: a surface filled with a *)
(* positive increment leads every path of steepest descent, however ties are   *)
(* broken, to a seed without a circle.  No steps, as in module M_Theory.       *)
(* SEEDS: "all" subsets of the cells, or the "edge" of the grid.               *)
(* VARIANT "flat": the same of surfaces filled without an increment; "deep":    *)
(* no cell is raised by more than one increment (both must fail).              *)
(***************************************************************************)
EXTENDS Small
CONSTANTS ROWS, COLS, HI, SEEDS, EPS, VARIANT, EMIT
VARIABLES dem, seeds, eps, sp, sf
vars == <<dem, seeds, eps, sp, sf>>
m == TLCEval(GridMesh(ROWS, COLS))
C == 1..(ROWS * COLS)
adj == TLCEval(Adjacency(m))
edge == TLCEval(EdgeCells(m))
Init == /\ dem \in [C -> 0..HI]
        /\ seeds \in (IF SEEDS = "edge" THEN {edge} ELSE (SUBSET C) \ {{}})
        /\ eps \in EPS
        /\ sp = Spill(adj, dem, seeds)
        /\ sf = Surface(adj, dem, eps, seeds)
        /\ (EMIT => Case([kind |-> "pipe", rows |-> ROWS, cols |-> COLS, dem |-> dem, eps |-> eps, seeds |-> SeqOfSet(seeds)]))
Spec == Init /\ [][UNCHANGED vars]_vars

(* spill elevations by levels: c stands under water of level h unless cells of  *)
(* at most h lead from it to a seed                                             *)
Low(h) == LET D == {c \in C : dem[c] <= h}
              RECURSIVE G(_)
              G(S) == LET T == S \cup {c \in D : adj[c] \cap S # {}} IN IF T = S THEN S ELSE G(T)
          IN G(D \cap seeds)
Levels == \A h \in 0..HI : {c \in C : sp[c] <= h} = Low(h)
Bounds == \A c \in C : sp[c] >= dem[c] /\ sf[c] >= sp[c]
                         /\ sf[c] <= sp[c] + eps * (IF VARIANT = "deep" THEN 1 ELSE Len(dem))
Seeds == \A c \in seeds : sp[c] = dem[c] /\ sf[c] = dem[c]
Again == Spill(adj, sp, seeds) = sp /\ Surface(adj, sf, eps, seeds) = sf
(* higher ground never makes a lower surface *)
Higher == \A x \in C : LET d == [dem EXCEPT ![x] = dem[x] + 1]  s == Surface(adj, d, eps, seeds)
                       IN \A c \in C : s[c] >= sf[c] /\ s[c] <= sf[c] + 1
(* and more seeds never a higher one *)
More == \A x \in C \ seeds : LET s == Surface(adj, dem, eps, seeds \cup {x}) IN \A c \in C : s[c] <= sf[c]
Drained == Drains(adj, sf, eps, seeds) /\ AllReach(adj, sf, eps, seeds)
(* cells drained before keep their elevation in the spill surface *)
Kept == \A c \in Climb(adj, dem, seeds) : sp[c] = dem[c]

(* the pipeline: any choice among the steepest neighbors of the surface, with    *)
(* the seeds as terminal cells, ends at a seed.  (That the next cell is lower is  *)
(* all that matters, so it is enough to look at the lowest choices' descent.)     *)
Lowest(c) == Steepest(m, adj, sf, 1, c)
Descends == eps > 0 \/ VARIANT = "flat" => \A c \in C \ seeds : \A d \in Lowest(c) : sf[d] < sf[c]
RECURSIVE Reached(_)
Reached(S) == LET T == S \cup {c \in C \ seeds : Lowest(c) # {} /\ Lowest(c) \subseteq S} IN IF T = S THEN S ELSE Reached(T)
Pipeline == eps > 0 => Conditioned(m, adj, sf, seeds) /\ Reached(seeds) = C
=============================================================================
