-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* What flow directions, accumulation, watersheds and subbasins are.        *)
(* fdir[c] is the cell c flows to, c itself when terminal, -2 when          *)
(* unresolved.                                                              *)
(***************************************************************************)
EXTENDS Conditioning

---------------------------------------------------------------------------
(* slopes, compared exactly as rationals over square roots:                 *)
(* a/sqrt(p) < b/sqrt(q)                                                    *)
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
(* products beyond 32 bits: numbers as six digits to base 10000 *)
Digits(x) == [k \in 1..6 |-> IF k = 1 THEN x % 10000 ELSE IF k = 2 THEN (x \div 10000) % 10000
                              ELSE IF k = 3 THEN x \div 100000000 ELSE 0]
WTimes(A, B) ==
  LET RECURSIVE D(_, _, _)
      D(k, carry, r) ==
        IF k > 6 THEN r
        ELSE LET t == carry + SumSeq([j \in 1..k |-> A[j] * B[k + 1 - j]])
             IN D(k + 1, t \div 10000, Append(r, t % 10000))
  IN D(1, 0, <<>>)
WideLess(A, B) == \E k \in 1..6 : A[k] < B[k] /\ \A j \in (k + 1)..6 : A[j] = B[j]
Square(a, q) == WTimes(WTimes(Digits(Abs(a)), Digits(Abs(a))), Digits(q))
SlopeLess(a, p, b, q) ==
  IF Sgn(a) # Sgn(b) THEN Sgn(a) < Sgn(b)
  ELSE IF Sgn(a) = 0 THEN FALSE
  ELSE IF p = q THEN a < b
  ELSE IF Abs(a) > 300 \/ Abs(b) > 300
  THEN IF Sgn(a) > 0 THEN WideLess(Square(a, q), Square(b, p)) ELSE WideLess(Square(b, p), Square(a, q))
  ELSE IF Sgn(a) > 0 THEN a * a * q < b * b * p
  ELSE a * a * q > b * b * p

(* elevation change towards a neighbor; small rises count as flat *)
Rise(dem, thr, c, d) ==
  LET r == dem[d] - dem[c] IN IF r > 0 /\ r < thr THEN 0 ELSE r
Candidates(adj, dem, c) == {d \in adj[c] : dem[d] # NIL}
(* the neighbors with minimal slope *)
Steepest(m, adj, dem, thr, c) ==
  LET N == Candidates(adj, dem, c)
      r == [d \in N |-> Rise(dem, thr, c, d)]
      l == [d \in N |-> DistSq(m, c, d)]
  IN {d \in N : \A e \in N : ~SlopeLess(r[e], l[e], r[d], l[d])}

(* relation between DEM and flow directions *)
SteepestOrSink(m, adj, dem, thr, term, fdir) ==
  \A c \in Cells(m) \ term :
     fdir[c] = -2 \/ fdir[c] \in Steepest(m, adj, dem, thr, c)
UniqueDownhillTaken(m, adj, dem, thr, term, fdir) ==
  \A c \in Cells(m) \ term :
     LET S == Steepest(m, adj, dem, thr, c)
     IN (Cardinality(S) = 1 /\ \A d \in S : dem[d] < dem[c]) => fdir[c] \in S
Assigned(m, fdir) == \A c \in Cells(m) : fdir[c] = -2 \/ fdir[c] \in Cells(m)

(* the unresolved cells from which a terminal cell or a cell with one       *)
(* steepest neighbor can be reached by steps to steepest neighbors.  Steps  *)
(* to a neighbor that flows back, or may have done so before it was routed  *)
(* anew, do not count                                                       *)
RECURSIVE Backward(_, _)
Backward(E, S) ==       \* E: cell -> next cells, S: cells that reach an exit
  LET T == {k \in DOMAIN E \ S : E[k] \cap S # {}}
  IN IF T = {} THEN S ELSE Backward(E, S \cup T)
ResolvableSinks(m, adj, dem, thr, term, fdir) ==
  IF \A c \in Cells(m) : fdir[c] # -2 THEN {}
  ELSE LET best == TLCEval([c \in Cells(m) |-> IF c \in term THEN {} ELSE Steepest(m, adj, dem, thr, c)])
           next == TLCEval([c \in Cells(m) |-> {d \in best[c] : fdir[d] # c
                        /\ (c \notin best[d] \/ Cardinality(best[d]) = 1 \/ fdir[d] = -2)}])
           exits == term \cup {c \in Cells(m) : Cardinality(best[c]) = 1}
       IN {c \in Backward(next, exits) : fdir[c] = -2}

(* the conditioned domain: every cell but the terminal ones has a lower     *)
(* neighbor                                                                 *)
Conditioned(m, adj, dem, term) ==
  \A c \in Cells(m) \ term : \E d \in Candidates(adj, dem, c) : dem[d] < dem[c]
Terminals(m, fdir) == {c \in Cells(m) : fdir[c] = c}

---------------------------------------------------------------------------
(* paths *)
RECURSIVE PathFrom(_, _, _)
\* the cells on the flow path starting at c (c included), S = cells before
PathFrom(fdir, c, S) ==
  IF c \in S \/ c < 1 THEN S ELSE PathFrom(fdir, fdir[c], S \cup {c})
\* terminal cells first, then the cells that flow to a cell done; the rest
\* leads to a circle.  Equal to [c \in DOMAIN fdir |-> PathFrom(fdir, c, {})]
RECURSIVE PathsBelow(_, _, _)
PathsBelow(fdir, P, Todo) ==
  LET ready == TLCEval({c \in Todo : fdir[c] < 1 \/ fdir[c] = c \/ fdir[c] \notin Todo})
      Q == TLCEval([c \in DOMAIN fdir |->
             IF c \notin ready THEN P[c]
             ELSE IF fdir[c] < 1 \/ fdir[c] = c THEN {c} ELSE {c} \cup P[fdir[c]]])
  IN IF ready = {} THEN [c \in DOMAIN fdir |-> IF c \in Todo THEN PathFrom(fdir, c, {}) ELSE P[c]]
     ELSE PathsBelow(fdir, Q, Todo \ ready)
Paths(fdir) == TLCEval(PathsBelow(fdir, [c \in DOMAIN fdir |-> {}], DOMAIN fdir))
(* cells that come back to themselves through another cell *)
OnLoop(fdir, paths) ==
  {c \in DOMAIN fdir : fdir[c] # c /\ fdir[c] >= 1 /\ c \in paths[fdir[c]]}
(* where 2^k steps lead *)
RECURSIVE Jump(_, _)
Jump(g, k) == IF k = 0 THEN g ELSE Jump(TLCEval([c \in DOMAIN g |-> g[g[c]]]), k - 1)
(* the end of every path; on a loop, some cell of the loop (up to 4096 cells) *)
Ends(fdir) == Jump([c \in DOMAIN fdir |-> IF fdir[c] < 1 THEN c ELSE fdir[c]], 12)
LoopFree(fdir) == LET e == Ends(fdir) IN \A c \in DOMAIN fdir : fdir[e[c]] = e[c] \/ fdir[e[c]] < 1

(* the first cell of S on the path from c (0: none) *)
RECURSIVE FirstIn(_, _, _, _)
FirstIn(fdir, S, c, k) ==
  IF c \in S THEN c
  ELSE IF k = 0 \/ fdir[c] < 1 \/ fdir[c] = c THEN 0
  ELSE FirstIn(fdir, S, fdir[c], k - 1)

Inflows(fdir, c) == {d \in DOMAIN fdir : fdir[d] = c /\ d # c}

---------------------------------------------------------------------------
(* accumulation of the quantity own[c]; cells on loops have no defined      *)
(* value and are not constrained                                            *)
Upstream(paths, c) == {d \in DOMAIN paths : c \in paths[d]}
AccumExact(fdir, paths, own, acc) ==
  LET L == OnLoop(fdir, paths)
  IN \A c \in (DOMAIN fdir) \ L : acc[c] = SumOver(own, Upstream(paths, c))
AccumConserved(fdir, paths, own, acc) ==
  LoopFree(fdir) =>
     SumOver(acc, {c \in DOMAIN fdir : fdir[c] = c \/ fdir[c] < 1})
       = SumOver(own, DOMAIN fdir)
Nidp(fdir, c) == Cardinality({d \in DOMAIN fdir : fdir[d] = c})

Watershed(paths, p) == {d \in DOMAIN paths : p \in paths[d]}
SubLabel(fdir, pts, c) == FirstIn(fdir, pts, c, Len(fdir))
=============================================================================
