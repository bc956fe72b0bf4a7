------------------------------- MODULE Streams -------------------------------
(***************************************************************************)
(* What stream networks and the products made of them are.                  *)
(*   locs   the set of stream cells                                         *)
(*   num    num[c] = number of the reach / segment of cell c, 0 if none     *)
(*   graph  sequence of <<id, id it flows to>>                              *)
(***************************************************************************)
EXTENDS Flow

Range(s) == {s[i] : i \in DOMAIN s}
NextIn(fdir, locs, c) == IF fdir[c] \in locs THEN fdir[c] ELSE 0
GraphFun(pairs) == [i \in {g[1] : g \in pairs} |->
                      (CHOOSE g \in pairs : g[1] = i)[2]]

---------------------------------------------------------------------------
(* MODFLOW 6: one reach per stream cell *)
ReachNumbering(locs, num) ==
  /\ \A c \in DOMAIN num : (num[c] # 0) <=> (c \in locs)
  /\ {num[c] : c \in locs} = 1..Cardinality(locs)
ReachGraph(fdir, locs, num, graph) ==
  /\ Len(graph) = Cardinality(locs)
  /\ Range(graph) = {<<num[c], IF NextIn(fdir, locs, c) = 0 THEN 0
                               ELSE num[fdir[c]]>> : c \in locs}
(* numbers never decrease downstream *)
UpstreamFirst(graph) == \A g \in Range(graph) : g[2] = 0 \/ g[2] >= g[1]

(* connection data of any graph: one row per id, in order *)
ConnRows(pairs, rows) ==
  LET G == GraphFun(pairs)
      ids == DOMAIN G
  IN /\ Len(rows) = Cardinality(ids)
     /\ \A k \in 1..Len(rows) :
          /\ Len(rows[k]) >= 1
          /\ rows[k][1] + 1 \in ids
          /\ (k > 1 => rows[k][1] > rows[k-1][1])
          /\ LET r   == rows[k][1] + 1
                 ups == {u \in ids : G[u] = r /\ u # r}
                 dn  == IF G[r] \in {0, r} THEN {} ELSE {G[r]}
                 con == Tail(rows[k])
             IN /\ Len(con) = Cardinality(ups) + Cardinality(dn)
                /\ Range(con) = {u - 1 : u \in ups} \cup {-(d - 1) : d \in dn}

---------------------------------------------------------------------------
(* drainage path slope of a cell: drop over distance; a positive drop of    *)
(* at most tiny units is zero                                               *)
Drop(dem, tiny, fdir, c) ==
  IF fdir[c] < 1 \/ fdir[c] = c THEN 0
  ELSE LET d == dem[c] - dem[fdir[c]] IN IF d > 0 /\ d <= tiny THEN 0 ELSE d
(* q is (a/b) scaled by s, rounded; b given in hundredths.  The tolerance   *)
(* covers the rounding of q, of b and of single precision storage.          *)
RatioOK(q, a, s, b100) ==
  LET lhs == q * b100  rhs == a * s * 100
  IN Abs(q) <= 100000 /\ Abs(lhs - rhs) <= b100 + Abs(q) * 3 + Abs(rhs) \div 2000
LenOK(q, l100, num, den) ==      \* q = hundredths of (num/den) * length
  Abs(q) <= 1000000 /\ Abs(q * den - l100 * num) <= 2 * den + 2 * num + (l100 * num) \div 5000

NodeOf(m, id) ==
  IF m.kind = "structured" THEN id[2] * m.ncol + id[3] + 1
  ELSE IF m.kind = "vertex" THEN id[2] + 1 ELSE id[1] + 1
CellIdShape(m, id) ==
  /\ Len(id) = (IF m.kind = "structured" THEN 3 ELSE IF m.kind = "vertex" THEN 2 ELSE 1)
  /\ (m.kind \in {"structured", "vertex"} => id[1] = 0)
  /\ (m.kind = "structured" => id[3] < m.ncol)

PackRows(m, dem, tiny, fdir, locs, num, rows) ==
  /\ Len(rows) = Cardinality(locs)
  /\ \A k \in 1..Len(rows) :
       LET r == rows[k]
       IN /\ r.ifno = k - 1
          /\ CellIdShape(m, r.id)
          /\ NodeOf(m, r.id) \in locs
          /\ num[NodeOf(m, r.id)] = k
PackLengths(m, fdir, locs, rows) ==
  \A k \in 1..Len(rows) :
     LET c == NodeOf(m, rows[k].id)  d == NextIn(fdir, locs, c)
     IN IF d = 0 \/ d = c
        THEN LET F == FaceLens100(m, c)
             IN Abs(2 * Len(F) * rows[k].rlen - 3 * SumSeq(F)) <= 5 * Len(F)
        ELSE LenOK(rows[k].rlen, D100(m, c, d), 3, 2)
\* rgrd is scaled by 1000 per unit
PackGradients(m, dem, tiny, fdir, rows) ==
  \A k \in 1..Len(rows) :
     LET c == NodeOf(m, rows[k].id)
         dr == Drop(dem, tiny, fdir, c)
     IN IF dr = 0 THEN rows[k].rgrd = 0
        ELSE RatioOK(rows[k].rgrd, 2 * dr, 1000, 3 * D100(m, c, fdir[c]))
PackTops(m, dem, rows) ==
  \A k \in 1..Len(rows) : rows[k].rtp = dem[NodeOf(m, rows[k].id)]
PackNcon(fdir, locs, m, rows) ==
  \A k \in 1..Len(rows) :
     LET c == NodeOf(m, rows[k].id)
         ups == {u \in locs : fdir[u] = c /\ u # c}
         dn == IF NextIn(fdir, locs, c) \in {0, c} THEN 0 ELSE 1
     IN rows[k].ncon = Cardinality(ups) + dn

---------------------------------------------------------------------------
(* MODFLOW-2005 segments *)
StreamIn(fdir, locs, c) == {d \in locs : fdir[d] = c}
IsStart(fdir, locs, grouped, c) ==
  LET I == StreamIn(fdir, locs, c)
  IN ~grouped \/ I = {} \/ Cardinality(I) >= 2 \/ I = {c}
Starts(fdir, locs, grouped) == {c \in locs : IsStart(fdir, locs, grouped, c)}
(* the run of cells of the segment starting at c *)
RECURSIVE Run(_, _, _, _)
Run(fdir, locs, S, c) ==
  LET d == NextIn(fdir, locs, c)
  IN IF d = 0 \/ d \in S THEN <<c>> ELSE <<c>> \o Run(fdir, locs, S, d)
Runs(fdir, locs, grouped) ==
  LET S == Starts(fdir, locs, grouped)
  IN TLCEval([c \in S |-> Run(fdir, locs, S, c)])

SegNumbering(fdir, locs, grouped, num) ==
  LET R == Runs(fdir, locs, grouped)
  IN /\ \A c \in DOMAIN num : (num[c] # 0) <=> (c \in locs)
     /\ \A s \in DOMAIN R : \A c \in Range(R[s]) : num[c] = num[s]
     /\ {num[s] : s \in DOMAIN R} = 1..Cardinality(DOMAIN R)
SegGraph(fdir, locs, grouped, num, graph) ==
  LET R == Runs(fdir, locs, grouped)
      out(s) == LET l == R[s][Len(R[s])]  d == NextIn(fdir, locs, l)
                IN IF d = 0 THEN 0
                   ELSE IF d = l /\ ~grouped THEN 0 ELSE num[d]
  IN /\ Len(graph) = Cardinality(DOMAIN R)
     /\ Range(graph) = {<<num[s], out(s)>> : s \in DOMAIN R}

ReachRowsOK(m, dem, fdir, locs, grouped, num, rows) ==
  LET R == Runs(fdir, locs, grouped)
  IN /\ Len(rows) = Cardinality(locs)
     /\ {rows[k].node + 1 : k \in 1..Len(rows)} = locs
     /\ \A k \in 1..Len(rows) :
          LET r == rows[k] c == r.node + 1
          IN /\ r.i = (c - 1) \div m.ncol /\ r.j = (c - 1) % m.ncol /\ r.k = 0
             /\ r.iseg = num[c]
             /\ r.id = rows[1].id + k - 1
             /\ \E s \in DOMAIN R : num[s] = r.iseg
                  /\ r.ireach \in 1..Len(R[s]) /\ R[s][r.ireach] = c
     /\ \A k \in 2..Len(rows) :
          \/ rows[k].iseg > rows[k-1].iseg /\ rows[k].ireach = 1
          \/ rows[k].iseg = rows[k-1].iseg /\ rows[k].ireach = rows[k-1].ireach + 1
\* the next stream cell downstream, 0 at outlets and terminal cells
DownCell(fdir, locs, c) ==
  LET d == NextIn(fdir, locs, c) IN IF d = c THEN 0 ELSE d
ReachLens(m, fdir, locs, rows) ==
  \A k \in 1..Len(rows) :
     LET c == rows[k].node + 1 d == DownCell(fdir, locs, c)
     IN IF d = 0 THEN LenOK(rows[k].len, 100 * (m.delr[rows[k].j + 1] + m.delc[rows[k].i + 1]), 3, 4)
        ELSE LenOK(rows[k].len, D100(m, c, d), 3, 2)
ReachTops(dem, rows) == \A k \in 1..Len(rows) : rows[k].top = dem[rows[k].node + 1]
\* slope is scaled by 1000 per unit; flat1 = the scaled default 0.0001
ReachSlopes(m, dem, fdir, locs, flat1, rows) ==
  \A k \in 1..Len(rows) :
     LET c == rows[k].node + 1 d == DownCell(fdir, locs, c)
     IN IF d = 0 THEN Abs(rows[k].slope - flat1) <= 1 + Abs(flat1) \div 1000
        ELSE RatioOK(rows[k].slope, 2 * (dem[c] - dem[d]), 1000, 3 * D100(m, c, d))

IrunOK(fdir, locs, num, out) ==
  \A c \in DOMAIN fdir :
     out[c] = LET f == FirstIn(fdir, locs, c, Len(fdir)) IN IF f = 0 THEN 0 ELSE num[f]

---------------------------------------------------------------------------
(* cascades; links are records [u, d, p, s], p scaled by 10000 *)
BoundaryOf(fdir, bb) == IF Len(bb) = 0 THEN DOMAIN fdir ELSE {c \in DOMAIN fdir : bb[c] # 0}
DownHru(fdir, B, c) == IF fdir[c] \in B THEN fdir[c] ELSE c
OneLinks(fdir, B) == {<<c, DownHru(fdir, B, c)>> : c \in {x \in B : fdir[x] >= 1}}
LinkPairs(links) == {<<links[k].u, links[k].d>> : k \in DOMAIN links}
LinkSegs(links, num) ==
  \A k \in DOMAIN links : links[k].d \in DOMAIN num /\ links[k].s = num[links[k].d]
Mult(links, p) == Cardinality({k \in DOMAIN links : links[k].u = p[1] /\ links[k].d = p[2]})

(* many to many: slopes to lower neighbors, scaled by sc / hundredths of     *)
(* distance; tol = 0 if that is an integer for every distance of the mesh,   *)
(* -1 if every distance is a power of two as well (the fractions are exact,  *)
(* a share of 1% is not more than 1%), else 1                                *)
M2mSlope(m, dem, sc, c, d) == ((dem[c] - dem[d]) * sc) \div Max2(1, D100(m, c, d))
Lower(adj, dem, B, c) == {d \in adj[c] \cap B : dem[d] < dem[c]}
M2mRow(m, adj, dem, B, sc, tol, links, c) ==
  LET L    == Lower(adj, dem, B, c)
      s    == [d \in L |-> M2mSlope(m, dem, sc, c, d)]
      S    == SumOver(s, L)
      mine == {k \in DOMAIN links : links[k].u = c}
      kept == {links[k].d : k \in mine}
      K    == SumOver(s, kept \cap L)
      t     == Max2(0, tol)
      slack == t * (100 + Cardinality(L))
  IN /\ kept \subseteq L
     /\ Cardinality(mine) = Cardinality(kept)
     /\ \A d \in L : (100 * s[d] > S + slack) => d \in kept
     /\ \A d \in kept : 100 * s[d] >= S - slack /\ (tol < 0 => 100 * s[d] > S)
     /\ \A k \in mine :
          /\ links[k].p \in 0..10001
          /\ Abs(links[k].p * K - s[links[k].d] * 10000)
             <= K + t * 10000 * (Cardinality(L) + 1)
     /\ (mine # {} => Abs(SumOver([k \in mine |-> links[k].p], mine) - 10000)
                        <= Cardinality(mine) + 1)

---------------------------------------------------------------------------
(* stream vectors: the centres of a run and of the first cell after it *)
VectorOf(fdir, locs, R, s) ==
  LET l == R[s][Len(R[s])] d == DownCell(fdir, locs, l)
  IN IF d = 0 THEN R[s] ELSE Append(R[s], d)
\* a cell that flows to itself may be given again at the end
Squash(fdir, q) == IF Len(q) >= 2 /\ q[Len(q)] = q[Len(q) - 1] /\ fdir[q[Len(q)]] = q[Len(q)]
                   THEN SubSeq(q, 1, Len(q) - 1) ELSE q
ExpectedVectors(fdir, locs, grouped) ==
  LET R == Runs(fdir, locs, grouped)
  IN {v \in {VectorOf(fdir, locs, R, s) : s \in DOMAIN R} : Len(v) >= 2}
\* vecs = sequence of [seg, cells]
VectorsOK(fdir, locs, grouped, vecs) ==
  LET got == {k \in DOMAIN vecs : Len(Squash(fdir, vecs[k].cells)) >= 2}
  IN /\ \A k \in DOMAIN vecs : Range(vecs[k].cells) \subseteq DOMAIN fdir
     /\ {Squash(fdir, vecs[k].cells) : k \in got} = ExpectedVectors(fdir, locs, grouped)
     /\ \A j, k \in DOMAIN vecs : vecs[j].seg = vecs[k].seg => j = k
     /\ Cardinality(got) = Cardinality(ExpectedVectors(fdir, locs, grouped))
\* keys are segment numbers: 1 to the number of segments, smaller upstream
SegNumbersOK(fdir, locs, grouped, loopfree, vecs) ==
  LET K == Cardinality(Starts(fdir, locs, grouped))
      last(k) == vecs[k].cells[Len(vecs[k].cells)]
  IN /\ \A k \in DOMAIN vecs : vecs[k].seg \in 1..K /\ vecs[k].cells # <<>>
     /\ loopfree => \A j, k \in DOMAIN vecs :
          j # k /\ last(j) = vecs[k].cells[1] => vecs[j].seg < vecs[k].seg

---------------------------------------------------------------------------
(* thresholds from control points; acc and out are doubled *)
MainStem(fdir, acc, c) ==
  LET I == Inflows(fdir, c) IN {d \in I : \A e \in I : acc[e] <= acc[d]}
ControlOK(fdir, acc, pts, thr, five, out) ==
  LET P == {c \in DOMAIN fdir : out[c] # thr}
  IN /\ \A c \in P : out[c] = acc[c] - five
     /\ \A c \in pts : c \in P \/ acc[c] - five = thr
     /\ \A c \in P : Inflows(fdir, c) # {} =>
           \E d \in MainStem(fdir, acc, c) : d \in P \/ acc[d] - five = thr
     /\ \A c \in P : c \in pts \/ (fdir[c] >= 1 /\ fdir[c] # c
           /\ (fdir[c] \in P \/ acc[fdir[c]] - five = thr) /\ c \in MainStem(fdir, acc, fdir[c]))
     /\ \A c \in P : Cardinality((Inflows(fdir, c) \cap P) \ pts) <= 1
=============================================================================
