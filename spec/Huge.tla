-------------------------------- MODULE Huge --------------------------------
(***************************************************************************)
(* Trace validation on meshes of tens of thousands of cells: a structured    *)
(* grid of square cells (or the same cells as a vertex or unstructured grid),  *)
(* numbered row by row, where the conditions take the one-cell-at-a-time form  *)
(* of module Local.  The state and the events are those of module Trace; the   *)
(* flow directions judged here descend (a violation of that is reported        *)
(* first and ends the judging of what depends on it).                          *)
(* last is the surface that method "drain" made of the DEM.                     *)
(***************************************************************************)
EXTENDS Trace, Local

VARIABLE last
hvars == <<i, st, last>>

Nb == GridNbs(Events[1].m.hr, Events[1].m.hc)
Edge == TLCEval(GridEdge(Events[1].m.hr, Events[1].m.hc))
All == 1..Events[1].m.n
FoldMin(f, S) == LET RECURSIVE F(_, _, _)
                     F(a, b, z) == IF a > b THEN z
                                   ELSE IF b - a < 64 THEN MinS({f[x] : x \in (a..b) \cap S} \cup {z})
                                   ELSE LET h == (a + b) \div 2 IN Min2(F(a, h, z), F(h + 1, b, z))
                 IN F(1, Len(f), INF)

H_fill(e) ==
  LET eps == IF e.method = "complete" THEN 0 ELSE e.eps
      out == e.res.out  dem == e.dem
      mask == {c \in All : e.masked /\ e.mask[c] # 0}
      P == IF e.masked THEN "C03" ELSE "C01"
      fine == e.res.err = "" /\ Len(out) = st.m.n /\ e.res.shape = e.inshape /\ \A c \in All : out[c] # BAD /\ out[c] # NIL
  IN Both(Both(Chk("C22", "input-modified", e.kept), TwinSame("C22", e)),
     Then(Chk(P, "fill-" \o e.method \o "-" \o e.res.err, fine),
     IF e.masked
     THEN UNION {
        Chk("C03", "lowers", NeverLowers(dem, out)),
        Chk("C03", "mask-cells", MaskCells(Nb, dem, eps, out, mask)),
        Chk("C03", "raise-not-eps", MaskRaise(Nb, dem, eps, out, mask)),
        Chk("C03", "undrained", LDrains(Nb, out, mask))}
     ELSE UNION {
        Chk("C01", "lowers", NeverLowers(dem, out)),
        Chk("C01", "edge-changed", EdgesKept(dem, out, Edge)),
        Chk("C01", "undrained", IF eps > 0 THEN LDrains(Nb, out, Edge) ELSE Drains(Nb, out, eps, Edge)),
        Chk("C02", "not-minimal", CASE e.method = "drain" -> LSurface(Nb, dem, eps, Edge, out)
             [] e.method = "complete" -> \A c \in All \ Edge : out[c] = Max2(dem[c], MinS({out[d] : d \in Nb[c]}))
             [] OTHER -> PriorityRaise(Nb, dem, eps, out)),
        Chk("C02", "outside-bounds", last = <<>> \/ \A c \in All :
             IF e.method = "complete" THEN out[c] <= last[c] ELSE out[c] >= last[c])}))

H_nanfill(e) ==
  LET dem == e.dem  out == e.res.out  V == Voids(dem)
      fine == e.res.err = "" /\ Len(out) = st.m.n /\ e.res.shape = e.inshape
  IN Both(Chk("C04", "input-modified", e.kept),
     Then(Chk("C04", "failed-" \o e.res.err, fine),
     Then(Chk("C04", "not-filled", \A c \in V : out[c] \notin {NIL, BAD}),
     UNION {
       Chk("C04", "data-changed", \A c \in All \ V : out[c] = dem[c]),
       Chk("C04", "value", \A c \in V : \E K \in SUBSET (Nb[c] \cap V) :
             LET N == (Nb[c] \ V) \cup K IN N # {} /\ IsStat(e.method, out, N, out[c], 2))})))

Lowest == LET D == {c \in DOMAIN st.dem : st.dem[c] # NIL}  z == FoldMin(st.dem, D) IN {c \in D : st.dem[c] = z}
\* orders slopes between cells side by side and at corners; |rises| < 30000
SlopeKey(thr, c, d) ==
  LET r == Rise(st.dem, thr, c, d)
      s == IF st.m.xc[c] = st.m.xc[d] \/ st.m.yc[c] = st.m.yc[d] THEN 2 ELSE 1
  IN IF r < 0 THEN -(r * r * s) ELSE r * r * s
H_fdir(e) ==
  LET f == e.res.fdir  dem == st.dem
      T == Lowest \cup Range(e.term) \cup Voids(dem)
      cond == \A c \in All \ T : \E d \in Nb[c] : dem[d] # NIL /\ dem[d] < dem[c]
      best == TLCEval([c \in All |-> IF c \in T THEN {} ELSE
                LET N == {d \in Nb[c] : dem[d] # NIL}
                    k == [d \in N |-> SlopeKey(e.thr, c, d)]
                    z == MinS({k[d] : d \in N})
                IN {d \in N : k[d] = z}])
  IN Both(Both(Chk("C22", "input-modified", e.kept), TwinSame("C22", e)),
     Then(Chk("C05", "failed-" \o e.res.err, e.res.err = "" /\ Len(f) = st.m.n),
     Then(Chk("C05", "unassigned", \A c \in All : f[c] = -2 \/ f[c] \in All),
     UNION {
        Chk("C05", "shape", e.res.shape = Shape(st.m)),
        Chk("C05", "array-property", e.prop),
        Chk("C05", "not-steepest", \A c \in All \ T : f[c] = -2 \/ f[c] \in best[c]),
        Chk("C05", "downhill-not-taken", \A c \in All \ T :
              (Cardinality(best[c]) = 1 /\ \A d \in best[c] : dem[d] < dem[c]) => f[c] \in best[c]),
        Chk("C07", "terminals", {c \in All : f[c] = c} = T),
        IF ~cond THEN {}
        ELSE UNION {Chk("C06", "unresolved", \A c \in All : f[c] # -2),
                    Chk("C06", "not-descending", \A c \in All : f[c] < 1 \/ f[c] = c \/ dem[f[c]] < dem[c])}})))

In == InflowIndex(st.fdir, Nb)
HOwn(cells) == [c \in All |-> IF cells THEN 1 ELSE Area2(st.m, c)]
H_facc(e) ==
  LET own == TLCEval(HOwn(e.cells)) IN
  Both(TwinSame("C22", e),
  Then(Chk("C08", "failed-" \o e.res.err, e.res.err = "" /\ Len(e.res.acc) = st.m.n),
  UNION {Chk("C08", "shape", e.res.shape = Shape(st.m)),
         Chk("C08", "array-property", e.prop),
         LET J == In IN Chk("C08", "accumulation", LAccum(st.fdir, J, own, e.res.acc))}))
H_nidp(e) ==
  LET J == In IN
  Then(Chk("C08", "nidp-" \o e.err, e.err = "" /\ Len(e.nidp) = st.m.n),
       Chk("C08", "nidp", \A c \in All : e.nidp[c] = Cardinality(J[c]) + IF st.fdir[c] = c THEN 1 ELSE 0))
H_ws(e) ==
  Both(TwinSame("C22", e),
  Then(Chk("C09", "failed-" \o e.res.err, e.res.err = "" /\ Len(e.res.out) = st.m.n),
       UNION {Chk("C09", "shape", e.res.shape = Shape(st.m)),
              Chk("C09", "watershed", LWatershed(st.fdir, e.cell, e.res.out))}))
H_sub(e) ==
  Then(Chk("C10", "failed-" \o e.res.err, e.res.err = "" /\ Len(e.res.out) = st.m.n),
       UNION {Chk("C10", "shape", e.res.shape = Shape(st.m)),
              Chk("C10", "labels", LSub(st.fdir, Range(e.cells), e.res.out))})

H_geom(e) ==
  LET m == st.m  f == st.fdir  r == e.res  J == In
      go(c) == f[c] >= 1 /\ f[c] # c
      dx(c) == m.xc[f[c]] - m.xc[c]
      dy(c) == m.yc[f[c]] - m.yc[c]
  IN Then(Chk("C24", "failed-" \o r.err, r.err = "" /\ Len(r.area2) = m.n /\ Len(r.slope) = m.n
              /\ Len(r.aspect) = m.n /\ Len(r.u) = m.n /\ Len(r.v) = m.n /\ Len(r.len) = m.n),
      UNION {
        Chk("C24", "shape", \A k \in 1..3 : r.shape[k] = Shape(m)),
        Chk("C24", "dem", r.dem = st.dem),
        Chk("C24", "area", \A c \in All : r.area2[c] = Area2(m, c)),
        Chk("C24", "slope", \A c \in All : LET d == Drop(st.dem, st.tiny, f, c)
              IN IF d = 0 THEN r.slope[c] = 0 ELSE RatioOK(r.slope[c], d, 1000, D100(m, c, f[c]))),
        Chk("C24", "aspect", \A c \in All :
              IF go(c) THEN r.aspect[c] \in 0..36000 /\ AngleOK(r.aspect[c], dx(c), dy(c), D100(m, c, f[c]))
              ELSE r.aspect[c] = 0),
        Chk("C24", "vectors", \A c \in All :
              IF go(c) THEN UnitOK(r.u[c], dx(c), D100(m, c, f[c])) /\ UnitOK(r.v[c], dy(c), D100(m, c, f[c]))
              ELSE r.u[c] = 10000 /\ r.v[c] = 0),
        Chk("C24", "hru-len", \A c \in All : go(c) =>
              LET C == {f[c]} \cup J[c]
                  s == SumOver([d \in C |-> SharedDist100(m, c, d)], C)
              IN Abs(r.len[c] * Cardinality(C) - 2 * s) <= 3 * Cardinality(C))})

---------------------------------------------------------------------------
(* J(s1, locs, num, S, I): S where segments start, I the inflows *)
HProduct(e, p, J(_, _, _, _, _)) ==
  LET s1 == NextS(e)
      locs == LocsOf(s1.arr)
      I == In
      S == IF s1.mode = "reach" THEN {} ELSE TLCEval(LStarts(st.fdir, I, locs, Grouped(s1.mode)))
      num == NumFor(e)
  IN Then(Chk(p, e.op \o "-failed-" \o e.res.err, e.res.err = ""),
     Both(Keeps(e),
     IF s1.mode = "none" THEN J(s1, locs, <<>>, S, I)
     ELSE Then(Chk(NumProp(s1.mode), "numbering", Len(num) = st.m.n /\
                IF s1.mode = "reach" THEN ReachNumbering(locs, num)
                ELSE LSegNumbering(st.fdir, I, locs, S, num)),
               J(s1, locs, num, S, I))))

ReachPairs(locs, num) == {<<num[c], IF NextIn(st.fdir, locs, c) = 0 THEN 0 ELSE num[st.fdir[c]]>> : c \in locs}
H_conn(e) ==
  LET J(s1, locs, num, S, I) ==
        LET g == e.res.graph
            want == IF s1.mode = "reach" THEN ReachPairs(locs, num)
                    ELSE LPairs(st.fdir, locs, S, Grouped(s1.mode), num)
            P == NumProp(s1.mode)
        IN UNION {
          Chk("C21", "current-streams", e.res.num = e.after.num),
          Chk(P, "graph", Len(g) = Cardinality(want) /\ Range(g) = want),
          Chk(P, "upstream-first", \A k \in DOMAIN g : g[k][2] = 0 \/ g[k][2] >= g[k][1])}
  IN HProduct(e, NumProp(NextS(e).mode), J)

H_conndata(e) ==
  LET J(s1, locs, num, S, I) ==
        LET rows == e.res.rows IN
        Chk("C13", "connections", Len(rows) = Cardinality(locs) /\ \A c \in locs :
          LET k == num[c]  row == rows[k]
              ups == {u \in I[c] : u \in locs}
              dn == LET d == NextIn(st.fdir, locs, c) IN IF d \in {0, c} THEN {} ELSE {d}
          IN /\ row[1] = k - 1
             /\ Len(row) = 1 + Cardinality(ups) + Cardinality(dn)
             /\ {row[j] : j \in 2..Len(row)} = {num[u] - 1 : u \in ups} \cup {-(num[d] - 1) : d \in dn})
  IN HProduct(e, "C13", J)
H_packdata(e) ==
  LET J(s1, locs, num, S, I) ==
        LET rows == e.res.rows  m == st.m IN
        Then(Chk("C13", "rows", PackRows(m, st.dem, st.tiny, st.fdir, locs, num, rows)),
        UNION {
          Chk("C13", "length", PackLengths(m, st.fdir, locs, rows)),
          Chk("C13", "gradient", PackGradients(m, st.dem, st.tiny, st.fdir, rows)),
          Chk("C13", "top", PackTops(m, st.dem, rows)),
          Chk("C13", "ncon", \A k \in DOMAIN rows :
             LET c == NodeOf(m, rows[k].id)
             IN rows[k].ncon = Cardinality(I[c] \cap locs) + IF NextIn(st.fdir, locs, c) \in {0, c} THEN 0 ELSE 1)})
  IN HProduct(e, "C13", J)
H_reachdata(e) ==
  LET J(s1, locs, num, S, I) ==
        LET rows == e.res.rows  m == st.m
            at(k) == rows[k].node + 1
        IN
        Then(Chk("C15", "rows",
           /\ Len(rows) = Cardinality(locs)
           /\ \A k \in DOMAIN rows : at(k) \in locs
           /\ Cardinality({at(k) : k \in DOMAIN rows}) = Len(rows)),
        UNION {
          Chk("C15", "rows", \A k \in DOMAIN rows : LET r == rows[k]  c == at(k) IN
              /\ r.i = (c - 1) \div m.ncol /\ r.j = (c - 1) % m.ncol /\ r.k = 0
              /\ r.iseg = num[c] /\ r.id = rows[1].id + k - 1
              /\ IF c \in S THEN r.ireach = 1 /\ (k = 1 \/ r.iseg > rows[k - 1].iseg)
                 ELSE k > 1 /\ at(k - 1) \in I[c] /\ r.ireach = rows[k - 1].ireach + 1 /\ r.iseg = rows[k - 1].iseg),
          Chk("C15", "length", ReachLens(m, st.fdir, locs, rows)),
          Chk("C15", "top", ReachTops(st.dem, rows)),
          Chk("C15", "slope", ReachSlopes(m, st.dem, st.fdir, locs, e.flat1, rows))})
  IN HProduct(e, "C15", J)
H_segdata(e) ==
  LET J(s1, locs, num, S, I) ==
        Chk("C15", "segments", Len(e.res.rows) = Cardinality(S)
             /\ Range(e.res.rows) = LPairs(st.fdir, locs, S, Grouped(s1.mode), num))
  IN HProduct(e, "C15", J)
H_irunbnd(e) ==
  LET J(s1, locs, num, S, I) ==
        Then(Chk("C16", "shape", e.res.shape = Shape(st.m) /\ Len(e.res.out) = st.m.n),
             Chk("C16", "irunbnd", LIrun(st.fdir, locs, num, e.res.out)))
  IN HProduct(e, "C16", J)
\* links come sorted by the cell they start from: where those of cell c are
RECURSIVE Below(_, _, _, _)
Below(links, c, a, b) ==        \* number of links in front of the first one from c or a later cell
  IF a = b THEN a ELSE LET h == (a + b) \div 2 IN IF links[h + 1].u < c THEN Below(links, c, h + 1, b) ELSE Below(links, c, a, h)
LinksOf(links, c) == (Below(links, c, 0, Len(links)) + 1)..Below(links, c + 1, 0, Len(links))
H_casc(e) ==
  LET J(s1, locs, num, S, I) ==
        LET B == BoundaryOf(st.fdir, e.bb)  links == e.res.links
            sorted == \A k \in 2..Len(links) : links[k - 1].u <= links[k].u
        IN IF ~e.many
           THEN Then(Chk("C17", "segments", sorted /\ LinkSegs(links, num)),
                Then(Both(Chk("C17", "links", LinkPairs(links) = OneLinks(st.fdir, B)),
                          Chk("C17", "fraction", \A k \in DOMAIN links : links[k].p = 10000)),
                LET n == TLCEval([c \in B |-> Cardinality(LinksOf(links, c))]) IN
                IF \A c \in B : n[c] = 1 THEN {}
                ELSE IF \A c \in B : n[c] = Cardinality({d \in {st.fdir[c]} \cup I[st.fdir[c]] : d \in B /\ st.fdir[d] = st.fdir[c]})
                     THEN {<<"C17", "KNOWN-repeated-per-contributor">>}
                     ELSE {<<"C17", "repeated-links">>}))
           ELSE Then(Chk("C18", "segments", sorted /\ LinkSegs(links, num)),
                UNION {
                  Chk("C18", "outside-basin", \A k \in DOMAIN links : links[k].u \in B /\ links[k].d \in B),
                  Chk("C18", "stream-links", \A c \in locs \cap B : LET K == LinksOf(links, c) IN
                      Cardinality(K) = 1 /\ \A k \in K : links[k].d = DownHru(st.fdir, B, c) /\ links[k].p = 10000),
                  Chk("C18", "landscape-links", \A c \in B \ locs :
                      M2mRow(st.m, Nb, st.dem, B, e.sc, e.tol, SubSeq(links, MinS(LinksOf(links, c) \cup {Len(links) + 1}),
                              Below(links, c + 1, 0, Len(links))), c))})
  IN HProduct(e, IF e.many THEN "C18" ELSE "C17", J)
H_vectors(e) ==
  LET J(s1, locs, num, S0, I) ==
        LET S == TLCEval(LStarts(st.fdir, I, locs, e.group))  vecs == e.res.vecs IN
        Then(Chk("C19", "vectors", \A k \in DOMAIN vecs : vecs[k].cells # <<>> /\ Range(vecs[k].cells) \subseteq All),
        UNION {
          Chk("C19", "vectors", LVectors(st.fdir, locs, S, vecs)),
          Chk("C19", "segment-numbers", \A k \in DOMAIN vecs : vecs[k].seg \in 1..Cardinality(S) /\ (k = 1 \/ vecs[k - 1].seg < vecs[k].seg)),
          IF s1.mode # ModeFor("Sfr2005", e.group) THEN {}
          ELSE Chk("C19", "segment-numbers", \A k \in DOMAIN vecs :
                 vecs[k].cells[1] \in locs /\ num[vecs[k].cells[1]] = vecs[k].seg)})
  IN HProduct(e, "C19", J)
H_thresh(e) ==
  LET f == st.fdir  J == In  pts == Range(e.cells)
      acc == TLCEval([c \in All |-> (IF st.cells THEN 2 ELSE 1) * st.acc[c]])
      P == {c \in All : e.out[c] # e.thr2}
      in(c) == c \in P \/ acc[c] - e.five2 = e.thr2
      stem(c) == {d \in J[c] : \A x \in J[c] : acc[x] <= acc[d]}
  IN Then(Chk("C20", "failed-" \o e.err, e.err = "" /\ Len(e.out) = st.m.n /\ e.shape = Shape(st.m)),
     Chk("C20", "thresholds",
        /\ \A c \in P : e.out[c] = acc[c] - e.five2
        /\ \A c \in pts : in(c)
        /\ \A c \in P : J[c] # {} => \E d \in stem(c) : in(d)
        /\ \A c \in P \ pts : f[c] >= 1 /\ f[c] # c /\ in(f[c]) /\ c \in stem(f[c])
        /\ \A c \in P : Cardinality((J[c] \cap P) \ pts) <= 1))

HVerdict(e) ==
  CASE e.op = "fill" -> H_fill(e)
    [] e.op = "nanfill" -> H_nanfill(e)
    [] e.op = "fa" -> Chk("C07", "rejected-" \o e.err, e.err = "")
    [] e.op = "fdir" -> H_fdir(e)
    [] e.op = "broken" -> Broken(e)
    [] e.op \in {"mesh", "neigh"} -> {}
    [] ~st.loopfree -> {}
    [] e.op = "facc" -> H_facc(e)
    [] e.op = "nidp" -> H_nidp(e)
    [] e.op = "ws" -> H_ws(e)
    [] e.op = "sub" -> H_sub(e)
    [] e.op = "geom" -> H_geom(e)
    [] e.op = "new" -> Chk("C12", "stream-object-" \o e.err, e.err = "")
    [] e.op = "delineate" -> V_delineate(e)
    [] e.op = "setstream" -> V_setstream(e)
    [] e.op = "conn" -> H_conn(e)
    [] e.op = "conndata" -> H_conndata(e)
    [] e.op = "packdata" -> H_packdata(e)
    [] e.op = "reachdata" -> H_reachdata(e)
    [] e.op = "segdata" -> H_segdata(e)
    [] e.op = "irunbnd" -> H_irunbnd(e)
    [] e.op = "casc" -> H_casc(e)
    [] e.op = "vectors" -> H_vectors(e)
    [] e.op = "thresh" -> H_thresh(e)
    [] OTHER -> {}

\* up to 65536 cells
HLoopFree(f) == LET e == Jump([c \in DOMAIN f |-> IF f[c] < 1 THEN c ELSE f[c]], 16) IN \A c \in DOMAIN f : Stops(f, e[c])
HAfter(e) ==
  CASE e.op = "mesh" -> [EmptyState EXCEPT !.m = e.m, !.tiny = e.tiny, !.paths = [c \in 1..e.m.n |-> {}]]
    [] e.op = "fdir" ->
         IF e.res.err # "" \/ Len(e.res.fdir) # st.m.n THEN [st EXCEPT !.loopfree = FALSE]
         ELSE [st EXCEPT !.fdir = e.res.fdir, !.thr = e.thr,
                 !.loopfree = (\A c \in All : e.res.fdir[c] \in Nb[c] \cup {c, -2}) /\ HLoopFree(e.res.fdir)]
    [] OTHER -> After(e)

HInit == i = 0 /\ st = EmptyState /\ last = <<>>
HNext == /\ i < Len(Events)
         /\ LET e == Events[i + 1]
            IN /\ Report(e, HVerdict(e))
               /\ st' = HAfter(e)
               /\ last' = IF e.op = "fill" /\ ~e.masked /\ e.method = "drain" /\ e.res.err = "" /\ e.eps = 1 THEN e.res.out ELSE last
         /\ i' = i + 1
HSpec == HInit /\ [][HNext]_hvars
=============================================================================
