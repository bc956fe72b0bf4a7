---------------------------- MODULE Conditioning ----------------------------
(***************************************************************************)
(* What a conditioned DEM is: the relations between a DEM and the results   *)
(* of fill_sinks and fill_nan_values.  Elevations are integers (units);     *)
(* a DEM is a sequence indexed by cell.                                     *)
(***************************************************************************)
EXTENDS Mesh

NIL == -1000000      \* NaN
BAD == -1000001      \* a value the implementation produced off the unit grid

---------------------------------------------------------------------------
(* Spill elevations: the lowest, over all paths from the seeds, of the      *)
(* highest cell on the path; the least W with W = dem on seeds and          *)
(* W[c] >= dem[c], W[c] >= min W of some path.  Computed from above, one    *)
(* relaxation sweep at a time.  INF where no seed can be reached.           *)
INF == 100000000
RECURSIVE Relax(_, _, _, _, _)
Relax(adj, dem, eps, seeds, w) ==
  LET step == TLCEval([c \in DOMAIN dem |->
               IF c \in seeds \/ adj[c] = {} THEN w[c]
               ELSE LET lo == MinS({w[d] : d \in adj[c]})
                        v  == IF lo = INF THEN INF ELSE Max2(dem[c], lo + eps)
                    IN Min2(w[c], v)])
  IN IF step = w THEN w ELSE Relax(adj, dem, eps, seeds, step)
Surface(adj, dem, eps, seeds) ==
  Relax(adj, dem, eps, seeds,
        [c \in DOMAIN dem |-> IF c \in seeds THEN dem[c] ELSE INF])
Spill(adj, dem, seeds) == Surface(adj, dem, 0, seeds)

(* cells from which a strictly descending path of dem leads to a seed *)
RECURSIVE Climb(_, _, _)
Climb(adj, dem, S) ==
  LET T == S \cup {c \in DOMAIN dem : \E d \in adj[c] \cap S : dem[d] < dem[c]}
  IN IF T = S THEN S ELSE Climb(adj, dem, T)
(* ... and non-rising path *)
RECURSIVE ClimbFlat(_, _, _)
ClimbFlat(adj, dem, S) ==
  LET T == S \cup {c \in DOMAIN dem : \E d \in adj[c] \cap S : dem[d] <= dem[c]}
  IN IF T = S THEN S ELSE ClimbFlat(adj, dem, T)

MinGap(dem) == LET V == {dem[c] : c \in DOMAIN dem}
               IN IF Cardinality(V) < 2 THEN INF
                  ELSE MinS({Abs(a - b) : <<a, b>> \in {p \in V \X V : p[1] # p[2]}})

---------------------------------------------------------------------------
(* edge-seeded filling *)
NeverLowers(dem, out)     == \A c \in DOMAIN dem : out[c] >= dem[c]
EdgesKept(dem, out, edge) == \A c \in edge : out[c] = dem[c]
Drains(adj, out, eps, seeds) ==
  \A c \in (DOMAIN out) \ seeds :
     IF eps > 0 THEN \E d \in adj[c] : out[d] < out[c]
     ELSE \E d \in adj[c] : out[d] <= out[c]
AllReach(adj, out, eps, seeds) ==
  (IF eps > 0 THEN Climb(adj, out, seeds) ELSE ClimbFlat(adj, out, seeds)) = DOMAIN out

CompleteExact(adj, dem, out, edge) == out = Spill(adj, dem, edge)
DrainExact(adj, dem, eps, out, edge) == out = Surface(adj, dem, eps, edge)
PriorityBounds(adj, dem, eps, out, edge) ==
  LET sp == Spill(adj, dem, edge)
  IN \A c \in DOMAIN dem : out[c] >= sp[c] /\ out[c] <= sp[c] + eps * Len(dem)
PriorityRaise(adj, dem, eps, out) ==
  \A c \in DOMAIN dem : out[c] # dem[c] => \E d \in adj[c] : out[c] = out[d] + eps
PriorityKeeps(adj, dem, eps, out, edge) ==
  (eps * Len(dem) < MinGap(dem)) =>
     \A c \in Climb(adj, dem, edge) : out[c] = dem[c]

---------------------------------------------------------------------------
(* stream-seeded filling *)
StreamNbrs(adj, mask, c) == adj[c] \cap mask
(* Mask cells are taken in order of increasing elevation; one with two or   *)
(* more mask neighbors, all of them higher at that time, is raised to eps   *)
(* above the lowest of them.  (Cells of equal elevation cannot influence    *)
(* each other, so the order among them does not matter.)                    *)
RECURSIVE MaskFill(_, _, _, _, _, _)
MaskFill(adj, dem, eps, mask, todo, w) ==
  IF todo = {} THEN w
  ELSE LET c  == CHOOSE x \in todo : \A y \in todo : dem[x] <= dem[y]
           nb == StreamNbrs(adj, mask, c)
           lo == MinS({w[d] : d \in nb} \cup {INF})
           v  == IF Cardinality(nb) >= 2 /\ lo > w[c] THEN lo + eps ELSE w[c]
       IN MaskFill(adj, dem, eps, mask, todo \ {c}, [w EXCEPT ![c] = v])
MaskCells(adj, dem, eps, out, mask) ==
  LET w == MaskFill(adj, dem, eps, mask, mask, dem)
  IN \A c \in mask : out[c] = w[c]
(* other cells: raised by exactly eps above a neighbor and, when no mask     *)
(* cell had to be raised, as far as needed to reach the mask                *)
MaskRaise(adj, dem, eps, out, mask) ==
  \A c \in (DOMAIN dem) \ mask : out[c] # dem[c] => \E d \in adj[c] : out[c] = out[d] + eps
MaskBounds(adj, dem, eps, out, mask, R) ==
  (\A c \in mask : out[c] = dem[c]) =>
     LET sp == Spill(adj, dem, mask)
     IN /\ \A c \in R : out[c] >= sp[c] /\ out[c] <= sp[c] + eps * Len(dem)
        /\ (eps * Len(dem) < MinGap(dem)) => \A c \in Climb(adj, dem, mask) : out[c] = dem[c]
MaskReached(adj, mask) == Grow(adj, mask)

---------------------------------------------------------------------------
(* NaN filling *)
Voids(dem) == {c \in DOMAIN dem : dem[c] = NIL}
Fillable(adj, dem) == Grow(adj, (DOMAIN dem) \ Voids(dem))

\* the sorted sequence of a bag of integers given as function on a finite set
RECURSIVE SortBag(_, _)
SortBag(f, S) == IF S = {} THEN <<>>
                 ELSE LET x == CHOOSE y \in S : \A z \in S : f[y] <= f[z]
                      IN <<f[x]>> \o SortBag(f, S \ {x})
(* v is the statistic of the values f[d], d in S.  Values are fixed point,  *)
(* tol units of error are allowed for means of means.                       *)
IsStat(method, f, S, v, tol) ==
  CASE method = "min" -> Abs(v - MinS({f[d] : d \in S})) <= tol
    [] method = "max" -> Abs(v - MaxS({f[d] : d \in S})) <= tol
    [] method = "mean" -> LET s == SumOver(f, S) k == Cardinality(S)
                          IN Abs(v * k - s) <= tol * k
    [] method = "median" ->
         LET q == SortBag(f, S) k == Len(q)
         IN IF k % 2 = 1 THEN Abs(v - q[(k + 1) \div 2]) <= tol
            ELSE Abs(2 * v - q[k \div 2] - q[(k \div 2) + 1]) <= 2 * tol
    [] OTHER -> FALSE

(* is there an order of filling that explains out? *)
RECURSIVE FillOrder(_, _, _, _, _, _)
FillOrder(adj, method, out, known, rest, tol) ==
  \/ rest = {}
  \/ \E c \in rest :
        LET K == adj[c] \cap known
        IN /\ K # {}
           /\ IsStat(method, out, K, out[c], tol)
           /\ FillOrder(adj, method, out, known \cup {c}, rest \ {c}, tol)
=============================================================================
