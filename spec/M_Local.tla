------------------------------- MODULE M_Local -------------------------------
(***************************************************************************)
(* The conditions of module Local say what those of modules Conditioning,     *)
(* Flow and Streams say, on every forest of N cells, every set of streams or   *)
(* points and every candidate product; and on every DEM and candidate          *)
(* surface of a row of cells.  No steps.                                      *)
(* VARIANT "circle": flow directions with circles, too; "flat": surfaces with   *)
(* eps = 0; "joint": confluences are no starts (all must fail).                *)
(***************************************************************************)
EXTENDS Small, Local
CONSTANTS N, HI, VARIANT, EMIT
VARIABLES kind, fd, locs, cand, grouped
vars == <<kind, fd, locs, cand, grouped>>
All == [c \in 1..N |-> (1..N) \ {c}]
Row == [c \in 1..N |-> {d \in 1..N : d \in {c - 1, c + 1}}]
Fdirs == {f \in [1..N -> {-2} \cup 1..N] : VARIANT = "circle" \/ LoopFree(f)}
InitFlow == /\ fd \in Fdirs /\ locs \in SUBSET (1..N)
InitDem == /\ fd \in [1..N -> 0..HI] /\ locs \in (SUBSET (1..N)) \ {{}}
Init == \/ kind = "flow" /\ InitFlow /\ grouped \in BOOLEAN /\ cand \in [1..N -> 0..N]
        \/ kind = "dem" /\ InitDem /\ grouped = FALSE /\ cand \in [1..N -> 0..(HI + N)]
        \/ kind = "grid" /\ fd \in (1..5) \X (1..5) /\ locs = {} /\ cand = <<>> /\ grouped = FALSE
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

In == InflowIndex(fd, All)
P == Paths(fd)
S == IF VARIANT = "joint" THEN {c \in locs : LStreamIn(fd, In, locs, c) \in {{}, {c}} \/ ~grouped}
     ELSE LStarts(fd, In, locs, grouped)
One == [c \in 1..N |-> 1]
\* candidate numbers as given, and the lines of cells they stand for
Number == LSegNumbering(fd, In, locs, S, cand)
Flow_ == kind = "flow"
Accumulation == Flow_ => (LAccum(fd, In, One, cand) <=> AccumExact(fd, P, One, cand))
WatershedSame == Flow_ => \A p \in locs : LWatershed(fd, p, cand) <=> \A c \in 1..N : cand[c] = IF c \in Watershed(P, p) THEN 1 ELSE 0
SubSame == Flow_ => (LSub(fd, locs, cand) <=>
   /\ {cand[p] : p \in locs} = 1..Cardinality(locs)
   /\ \A c \in 1..N : LET p == SubLabel(fd, locs, c) IN cand[c] = IF p = 0 THEN 0 ELSE cand[p]
   /\ \A p \in locs : Stops(fd, p) \/ LET d == SubLabel(fd, locs, fd[p]) IN d = 0 \/ cand[p] < cand[d])
IrunSame == Flow_ => LET num == [c \in 1..N |-> IF c \in locs THEN c ELSE 0]
                     IN LIrun(fd, locs, num, cand) <=> IrunOK(fd, locs, num, cand)
StartsSame == Flow_ => S = Starts(fd, locs, grouped)
NumberSame == Flow_ => (Number <=> SegNumbering(fd, locs, grouped, cand))
PairsSame == Flow_ /\ Number =>
   LET R == Runs(fd, locs, grouped)
       out(s) == LET l == R[s][Len(R[s])]  d == NextIn(fd, locs, l)
                 IN IF d = 0 THEN 0 ELSE IF d = l /\ ~grouped THEN 0 ELSE cand[d]
   IN LPairs(fd, locs, S, grouped, cand) = {<<cand[s], out(s)>> : s \in DOMAIN R}
ReachSame == Flow_ => (LReach(fd, In, locs, S, cand) <=>
   LET R == Runs(fd, locs, grouped) IN \A s \in DOMAIN R : \A k \in DOMAIN R[s] : cand[R[s][k]] = k)
\* the expected lines, some of them, and a candidate that is one of them or not
Lines == LET E == ExpectedVectors(fd, locs, grouped)
             q == SeqOfSet({v[1] : v \in E})
         IN [k \in DOMAIN q |-> [seg |-> k, cells |-> CHOOSE v \in E : v[1] = q[k]]]
Bent == LET z == [k \in DOMAIN Lines |-> [Lines[k] EXCEPT !.cells = Append(@, 1 + (cand[1] % N))]]
        IN {Lines, z} \cup {SubSeq(Lines, 2, Len(Lines)), [k \in DOMAIN Lines |-> [Lines[k] EXCEPT !.cells = SubSeq(@, 2, Len(@))]],
              [k \in DOMAIN Lines |-> [Lines[k] EXCEPT !.cells = SubSeq(@, 1, Len(@) - 1)]]}
LinesSame == Flow_ => \A L \in Bent : LVectors(fd, locs, S, L) <=> VectorsOK(fd, locs, grouped, L)
Descends == Flow_ => (LDescends(cand, fd) => LoopFree(fd))

DemK == kind = "dem"
EPSK == IF VARIANT = "flat" THEN 0 ELSE 1
SurfaceSame == DemK => (LSurface(Row, fd, EPSK, locs, cand) <=> cand = Surface(Row, fd, EPSK, locs))
DrainsSame == DemK => (LDrains(Row, cand, locs) <=> AllReach(Row, cand, 1, locs))

GridSame == kind = "grid" => LET m == GridMesh(fd[1], fd[2]) IN
   GridNbs(fd[1], fd[2]) = Adjacency(m) /\ GridEdge(fd[1], fd[2]) = EdgeCells(m)
=============================================================================
