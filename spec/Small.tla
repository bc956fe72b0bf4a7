-------------------------------- MODULE Small --------------------------------
(***************************************************************************)
(* What the algorithm modules share: small structured meshes, the topology   *)
(* sort, flow directions as arbitrary functions and the printing of inputs   *)
(* for replay on the implementation.                                         *)
(***************************************************************************)
EXTENDS Streams, Json

\* prints an input (one per initial state) for lib/models.py
Case(x) == PrintT("CASE\t" \o ToJson(x))

(* the mesh of a structured grid of R rows and C columns with square cells *)
GridMesh(R, C) ==
  LET r(c) == (c - 1) \div C
      k(c) == (c - 1) % C
      v(a, b) == a * (C + 1) + b + 1
  IN [kind |-> "structured", n |-> R * C, nrow |-> R, ncol |-> C,
      iv |-> [c \in 1..(R * C) |->
                <<v(r(c), k(c)), v(r(c), k(c) + 1), v(r(c) + 1, k(c) + 1), v(r(c) + 1, k(c))>>],
      vx |-> [p \in 1..((R + 1) * (C + 1)) |-> 24 * ((p - 1) % (C + 1))],
      vy |-> [p \in 1..((R + 1) * (C + 1)) |-> 24 * (R - ((p - 1) \div (C + 1)))],
      xc |-> [c \in 1..(R * C) |-> 24 * k(c) + 12],
      yc |-> [c \in 1..(R * C) |-> 24 * (R - 1 - r(c)) + 12],
      delr |-> [c \in 1..C |-> 24], delc |-> [c \in 1..R |-> 24]]

SeqOfSet(S) == LET RECURSIVE F(_)
                   F(T) == IF T = {} THEN <<>> ELSE LET x == MinS(T) IN <<x>> \o F(T \ {x})
               IN F(S)
RECURSIVE Rev(_)
Rev(s) == IF s = <<>> THEN <<>> ELSE Append(Rev(Tail(s)), Head(s))
Remove1(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
IndexOf(s, x) == CHOOSE k \in DOMAIN s : s[k] = x /\ \A j \in DOMAIN s : s[j] = x => k <= j

(* dany's Topology.sort over a graph id -> id (0: none), ids in order *)
RECURSIVE Chain(_, _, _)
Chain(G, seen, s) == IF s \in seen \/ s = 0 THEN <<>> ELSE <<s>> \o Chain(G, seen \cup {s}, G[s])
RECURSIVE PlaceAll(_, _, _)
PlaceAll(G, path, stack) ==     \* path: furthest downstream first
  IF path = <<>> THEN stack
  ELSE PlaceAll(G, Tail(path),
         IF G[Head(path)] = 0 THEN Append(stack, Head(path)) ELSE <<Head(path)>> \o stack)
RECURSIVE SortFrom(_, _, _, _)
SortFrom(G, ids, seen, stack) ==
  IF ids = <<>> THEN stack
  ELSE LET p == Chain(G, seen, Head(ids))
       IN SortFrom(G, Tail(ids), seen \cup Range(p), PlaceAll(G, Rev(p), stack))
TopoSort(G) == SortFrom(G, SeqOfSet(DOMAIN G), {}, <<>>)

(* parent functions over 1..n, p[c] = 0 for roots, without circles *)
RECURSIVE Root(_, _, _)
Root(p, c, k) == IF k = 0 THEN -1 ELSE IF p[c] = 0 THEN c ELSE Root(p, p[c], k - 1)
IsForest(p) == \A c \in DOMAIN p : Root(p, c, Len(p) + 1) # -1
=============================================================================
