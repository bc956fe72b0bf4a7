-------------------------------- MODULE Mesh --------------------------------
(***************************************************************************)
(* The geometry a flow model stands on.  A mesh is a record                *)
(*   n       number of cells (cells are 1..n)                              *)
(*   iv      iv[c] = sequence of vertex numbers of cell c's polygon        *)
(*   vx, vy  vertex coordinates (integers)                                 *)
(*   xc, yc  cell centres (integers)                                       *)
(* Everything else (adjacency, edge cells, areas, distances) is derived    *)
(* here from the polygons alone, independently of the implementation.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y

LOCAL INSTANCE Functions
SumSeq(s) == FoldFunction(LAMBDA x, y : x + y, 0, s)
\* sum of f[x] for x in the finite set S
SumOver(f, S) == FoldFunctionOnSet(LAMBDA x, y : x + y, 0, f, S)

\* integer square root (floor), by Newton's method from above
RECURSIVE NewtonSqrt(_, _)
NewtonSqrt(x, r) == LET s == (r + (x \div r)) \div 2
                    IN IF s >= r THEN r ELSE NewtonSqrt(x, s)
ISqrt(x) == IF x < 2 THEN x ELSE NewtonSqrt(x, IF x > 1000000 THEN 46340 ELSE 1000)

Cells(m) == 1..m.n
VertsOf(m, c) == {m.iv[c][k] : k \in 1..Len(m.iv[c])}

(* d-n ("queen") neighbors: the cells that share at least one vertex *)
Adjacency(m) ==
  LET vs == TLCEval([c \in Cells(m) |-> VertsOf(m, c)])
  IN TLCEval([c \in Cells(m) |->
                {d \in Cells(m) \ {c} : vs[c] \cap vs[d] # {}}])

(* the polygon without a repeated closing vertex *)
OpenPoly(m, c) ==
  LET p == m.iv[c]
  IN IF Len(p) > 1 /\ p[1] = p[Len(p)] THEN SubSeq(p, 1, Len(p) - 1) ELSE p

(* the faces of a cell: unordered pairs of consecutive vertices *)
FacesOf(m, c) ==
  LET p == OpenPoly(m, c)
  IN {{p[k], p[IF k = Len(p) THEN 1 ELSE k + 1]} : k \in 1..Len(p)}

(* cells with a face that no other cell has *)
EdgeCells(m) ==
  LET fs == TLCEval([c \in Cells(m) |-> FacesOf(m, c)])
      vs == TLCEval([c \in Cells(m) |-> VertsOf(m, c)])
  IN {c \in Cells(m) :
        \E f \in fs[c] : \A d \in Cells(m) \ {c} :
             (vs[c] \cap vs[d] # {}) => f \notin fs[d]}

(* twice the polygon area (shoelace) *)
Area2(m, c) ==
  LET p == OpenPoly(m, c)
      k2(k) == IF k = Len(p) THEN 1 ELSE k + 1
      det(k) == m.vx[p[k]] * m.vy[p[k2(k)]] - m.vx[p[k2(k)]] * m.vy[p[k]]
  IN Abs(SumSeq([k \in 1..Len(p) |-> det(k)]))

DistSq(m, c, d) == (m.xc[c] - m.xc[d]) * (m.xc[c] - m.xc[d])
                 + (m.yc[c] - m.yc[d]) * (m.yc[c] - m.yc[d])
\* centre distance in hundredths (rounded down)
D100(m, c, d) == ISqrt(10000 * DistSq(m, c, d))

(* hundredths of the lengths of a cell's faces (rounded down) *)
FaceLens100(m, c) ==
  LET p == OpenPoly(m, c)
      k2(k) == IF k = Len(p) THEN 1 ELSE k + 1
      l(k) == (m.vx[p[k]] - m.vx[p[k2(k)]]) * (m.vx[p[k]] - m.vx[p[k2(k)]])
            + (m.vy[p[k]] - m.vy[p[k2(k)]]) * (m.vy[p[k]] - m.vy[p[k2(k)]])
  IN [k \in 1..Len(p) |-> ISqrt(10000 * l(k))]

(* hundredths of the distance from c's centre to the middle of the          *)
(* vertices it shares with d                                                *)
SharedDist100(m, c, d) ==
  LET sh == VertsOf(m, c) \cap VertsOf(m, d)
      k  == Cardinality(sh)
      ax == SumOver(m.vx, sh) - k * m.xc[c]
      ay == SumOver(m.vy, sh) - k * m.yc[c]
  IN ISqrt(10000 * (ax * ax + ay * ay)) \div k

(* cells reachable from the set S by steps to neighbors *)
RECURSIVE Grow(_, _)
Grow(adj, S) ==
  LET T == S \cup UNION {adj[c] : c \in S}
  IN IF T = S THEN S ELSE Grow(adj, T)
=============================================================================
