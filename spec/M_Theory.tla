------------------------------- MODULE M_Theory -------------------------------
(***************************************************************************)
(* The conditions of the single products, taken together.  For every flow     *)
(* direction function (sinks, circles) and stream set of a small mesh: what    *)
(* they define fits together in the ways that users rely on when they combine   *)
(* products.  There are no steps; the theorems speak of the definitions in      *)
(* modules Flow and Streams, which module Trace holds the package to.           *)
(* FORESTS: directions of a conditioned DEM only.                             *)
(* VARIANT "headless": segments of rings are counted, too (must fail);         *)
(* "unclosed": streams that do not go on to the end of every path (must fail).  *)
(***************************************************************************)
EXTENDS Small
CONSTANTS N, FORESTS, VARIANT, EMIT
VARIABLES fd, locs, paths, loops
vars == <<fd, locs, paths, loops>>
Par == [k \in 1..N |-> IF fd[k] = k THEN 0 ELSE fd[k]]
Init == /\ fd \in [1..N -> (IF FORESTS THEN {} ELSE {-2}) \cup (1..N)]
        /\ (FORESTS => IsForest(Par))
        /\ locs \in SUBSET (1..N)
        /\ paths = Paths(fd)
        /\ loops = OnLoop(fd, paths)
        /\ (EMIT /\ FORESTS => Case([kind |-> "theory", par |-> Par, locs |-> SeqOfSet(locs)]))
Spec == Init /\ [][UNCHANGED vars]_vars

C == 1..N
Sinks == {c \in C : fd[c] < 1}
Ends1 == {c \in C : fd[c] = c} \cup Sinks
Acc == [c \in C |-> Cardinality(Upstream(paths, c))]

(* paths and their ends *)
Paths1 == \A c \in C : paths[c] = PathFrom(fd, c, {})
Circles == (loops = {}) <=> LoopFree(fd)
EndOf == loops = {} => LET e == Ends(fd) IN \A c \in C : e[c] \in Ends1 /\ paths[c] \cap Ends1 = {e[c]}

(* watersheds are nested or apart, those of the ends cover everything once    *)
Nested == loops = {} => \A p, q \in C :
  LET A == Watershed(paths, p)  B == Watershed(paths, q) IN
  A \cap B = {} \/ A \subseteq B \/ B \subseteq A
Inside == \A p, q \in C : (Watershed(paths, p) \subseteq Watershed(paths, q)) <=> q \in paths[p]
Cover == loops = {} => \A c \in C : Cardinality({p \in Ends1 : c \in Watershed(paths, p)}) = 1

(* accumulation counts watersheds, satisfies the local balance and is the only *)
(* thing that does                                                            *)
Counts == \A c \in C : Acc[c] = Cardinality(Watershed(paths, c))
Balance == \A c \in C \ loops : Acc[c] = 1 + SumOver(Acc, Inflows(fd, c))
Grows == \A c \in C \ loops : fd[c] >= 1 /\ fd[c] # c /\ fd[c] \notin loops => Acc[fd[c]] > Acc[c]
Conserved == AccumConserved(fd, paths, [c \in C |-> 1], Acc)
Inflow == SumOver([c \in C |-> Nidp(fd, c)], C) = N - Cardinality(Sinks)
Only == (loops = {} /\ N <= 3) => \A A \in [C -> 1..(N + 1)] :
          (\A c \in C : A[c] = 1 + SumOver(A, Inflows(fd, c))) => A = Acc

(* subbasins of the streams: the watershed of a point without those above it   *)
Sub(p) == {c \in C : SubLabel(fd, locs, c) = p}
Subs == loops = {} => \A p \in locs :
  Sub(p) = Watershed(paths, p) \ UNION {Watershed(paths, q) : q \in {q \in locs \ {p} : p \in paths[q]}}
Rest == {c \in C : SubLabel(fd, locs, c) = 0} = {c \in C : paths[c] \cap locs = {}}

(* reaches and segments *)
R(g) == Runs(fd, locs, g)
Ring(g) == g /\ VARIANT # "headless" /\ \E c \in locs \cap loops : paths[c] \subseteq locs /\ paths[c] \cap Starts(fd, locs, TRUE) = {}
\* the runs share out the stream cells
Parts(g) == Ring(g) \/ (/\ UNION {Range(R(g)[s]) : s \in DOMAIN R(g)} = locs
                        /\ SumSeq([s \in DOMAIN R(g) |-> Len(R(g)[s])]) = Cardinality(locs))
Share == Parts(TRUE) /\ Parts(FALSE)
Single == \A s \in DOMAIN R(FALSE) : R(FALSE)[s] = <<s>>
\* within a run there is one way in, and only its start can take in more
OneIn == \A s \in DOMAIN R(TRUE) : \A j \in 2..Len(R(TRUE)[s]) :
           StreamIn(fd, locs, R(TRUE)[s][j]) = {R(TRUE)[s][j - 1]}
\* number of segments: sources, and confluences (a terminal cell that nothing flows into is a source)
Sources == {c \in locs : StreamIn(fd, locs, c) \ {c} = {}}
Meets == {c \in locs : Cardinality(StreamIn(fd, locs, c)) >= 2}
Number == DOMAIN R(TRUE) = Sources \cup Meets
\* reaches as segments of one cell: the two graphs agree but for the ends
Graphs == \A c \in locs : NextIn(fd, locs, c) # c => DownCell(fd, locs, c) = NextIn(fd, locs, c)

(* unsaturated-zone segments: the cells of a segment number are those whose first  *)
(* stream cell lies in its run; with one segment per cell they are the subbasins   *)
Numbers(g) == LET q == SeqOfSet(DOMAIN R(g))
              IN [c \in C |-> IF c \in locs /\ \E s \in DOMAIN q : c \in Range(R(g)[q[s]])
                              THEN CHOOSE s \in DOMAIN q : c \in Range(R(g)[q[s]]) ELSE 0]
Irun(g) == [c \in C |-> LET f == FirstIn(fd, locs, c, N) IN IF f = 0 THEN 0 ELSE Numbers(g)[f]]
Classes(g) == loops = {} => LET q == SeqOfSet(DOMAIN R(g))  i == Irun(g) IN
  \A s \in DOMAIN q : {c \in C : i[c] = s} = UNION {Sub(p) : p \in Range(R(g)[q[s]])}
Irunbnd == Classes(TRUE) /\ Classes(FALSE)
\* the whole of a segment's watershed carries its number or one further up
Above == loops = {} => LET q == SeqOfSet(DOMAIN R(TRUE))  i == Irun(TRUE) IN
  \A s \in DOMAIN q : LET last == R(TRUE)[q[s]][Len(R(TRUE)[q[s]])] IN
    \A c \in Watershed(paths, last) : i[c] # 0 /\ last \in paths[q[i[c]]]

(* one-to-one cascades of the whole mesh are the flow directions *)
Links == OneLinks(fd, C) = {<<c, fd[c]>> : c \in C \ Sinks}
Within == \A B \in SUBSET C : \A l \in OneLinks(fd, B) : l[1] \in B /\ l[2] \in B

(* streams that hold every cell with the accumulation of one of theirs reach    *)
(* the end of every path; their segments then end at terminal cells only        *)
Closed == (VARIANT = "unclosed" \/ \A c \in locs : \A d \in C : Acc[d] >= Acc[c] => d \in locs) /\ loops = {} =>
  /\ \A c \in locs : fd[c] < 1 \/ fd[c] \in locs
  /\ \A c \in locs : NextIn(fd, locs, c) = 0 => c \in Sinks

(* vectors: every stream link is part of exactly one *)
Vectors(g) == Ring(TRUE) \/ LET V == ExpectedVectors(fd, locs, g) IN
  \A c \in locs : DownCell(fd, locs, c) # 0 =>
    Cardinality({<<v, j>> \in V \X (1..N) : j < Len(v) /\ v[j] = c /\ v[j + 1] = fd[c]}) = 1
Vecs == Vectors(TRUE) /\ Vectors(FALSE)
=============================================================================
