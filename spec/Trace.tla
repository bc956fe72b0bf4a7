-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validates recorded calls of the implementation.  Each event of the trace  *)
(* is one public call with everything it returned.  The state st is the      *)
(* model's: the mesh, DEM, flow directions, accumulation and the stream      *)
(* session (module Session).  Verdict(e) is the set of <<property, clause>>  *)
(* that the call violates in that state; it is total, so the whole trace is  *)
(* always judged.  Products that the model leaves open (numberings, choice    *)
(* among ties) are taken over from the event.                                *)
(***************************************************************************)
EXTENDS Streams, Session, Trig, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, st
vars == <<i, st>>

Chk(p, name, cond) == IF cond THEN {} ELSE {<<p, name>>}
Both(A, B) == A \cup B
\* B only makes sense when A found nothing
Then(A, B) == IF A = {} THEN B ELSE A

TwinSame(p, e) == IF Len(e.tw) = 0 THEN {} ELSE Chk(p, "differs-from-fresh", e.res = e.tw[1])
Shape(m) == IF m.kind = "structured" THEN <<m.nrow, m.ncol>> ELSE <<m.n>>

---------------------------------------------------------------------------
EmptyState ==
  [m |-> [n |-> 0], adj |-> <<>>, edge |-> {}, tiny |-> 0, dem |-> <<>>, check |-> TRUE,
   fdir |-> <<>>, thr |-> 1, paths |-> <<>>, loopfree |-> TRUE, acc |-> <<>>, cells |-> FALSE,
   cls |-> "", s |-> Init0, num |-> <<>>,
   cur |-> 0, bank |-> [k \in {} |-> <<>>],   \* FlowDirections objects that are not in use
   lost |-> FALSE]   \* segments of a closed ring of streams were asked for: not judged

---------------------------------------------------------------------------
(* fill_sinks *)
V_fill(e) ==
  LET m == st.m  adj == st.adj  edge == st.edge
      eps == IF e.method = "complete" THEN 0 ELSE e.eps
      out == e.res.out
      mask == {c \in Cells(m) : e.masked /\ e.mask[c] # 0}
      P == IF e.masked THEN "C03" ELSE "C01"
      fine == /\ e.res.err = "" /\ Len(out) = m.n /\ e.res.shape = e.inshape
              /\ \A c \in Cells(m) : out[c] # BAD /\ out[c] # NIL
      dem == e.dem
  IN Both(Both(Chk("C22", "input-modified", e.kept), Chk(P, "input-modified", e.kept)),
     Both(TwinSame("C22", e),
     Then(Chk(P, "fill-" \o e.method \o "-" \o e.res.err, fine),
     IF e.masked
     THEN LET R == MaskReached(adj, mask)
              seeded == mask \cup (Cells(m) \ R)
          IN UNION {
            Chk("C03", "lowers", NeverLowers(dem, out)),
            Chk("C03", "mask-cells", MaskCells(adj, dem, eps, out, mask)),
            Chk("C03", "raise-not-eps", MaskRaise(adj, dem, eps, out, mask)),
            Chk("C03", "outside-bounds", MaskBounds(adj, dem, eps, out, mask, R)),
            Chk("C03", "unreached-changed", \A c \in Cells(m) \ R : out[c] = dem[c]),
            Chk("C03", "undrained", Drains(adj, out, eps, seeded)),
            Chk("C03", "no-path-to-mask", AllReach(adj, out, eps, seeded))}
     ELSE Both(UNION {
            Chk("C01", "lowers", NeverLowers(dem, out)),
            Chk("C01", "edge-changed", EdgesKept(dem, out, edge)),
            Chk("C01", "undrained", Drains(adj, out, eps, edge)),
            Chk("C01", "no-path-to-edge", AllReach(adj, out, eps, edge))},
          CASE e.method = "drain" -> Chk("C02", "drain-not-minimal", DrainExact(adj, dem, eps, out, edge))
            [] e.method = "complete" -> Chk("C02", "complete-not-spill", CompleteExact(adj, dem, out, edge))
            [] OTHER -> UNION {
                 Chk("C02", "outside-bounds", PriorityBounds(adj, dem, eps, out, edge)),
                 Chk("C02", "raise-not-eps", PriorityRaise(adj, dem, eps, out)),
                 Chk("C02", "drained-cell-raised", PriorityKeeps(adj, dem, eps, out, edge))}))))

(* fill_nan_values; values times 1000 *)
V_nanfill(e) ==
  LET m == st.m  adj == st.adj  dem == e.dem  out == e.res.out
      V == Voids(dem)
      F == Fillable(adj, dem)
      known == e.method \in {"mean", "median", "min", "max"}
      fine == e.res.err = "" /\ Len(out) = m.n /\ e.res.shape = e.inshape
  IN Both(Both(Chk("C22", "input-modified", e.kept), Chk("C04", "input-modified", e.kept)),
     Both(TwinSame("C22", e),
     IF ~known THEN Chk("C04", "unknown-method-accepted", V = {} \/ e.res.err # "")
     ELSE Then(Chk("C04", "failed-" \o e.res.err, fine),
       LET gap == \E c \in F : out[c] \in {NIL, BAD}
       IN UNION {
          Chk("C04", "data-changed", \A c \in Cells(m) \ V : out[c] = dem[c]),
          Chk("C04", "unreachable-filled", \A c \in Cells(m) \ F : out[c] = NIL),
          Chk("C04", "not-filled", ~gap),
          IF gap THEN {} ELSE
          Chk("C04", "value",
            LET W == V \cap F IN
            IF Cardinality(W) <= 7
            THEN FillOrder(adj, e.method, out, Cells(m) \ V, W, 2)
            ELSE \A c \in W : \E K \in SUBSET (adj[c] \cap W) :
                   LET N == (adj[c] \ V) \cup K
                   IN N # {} /\ IsStat(e.method, out, N, out[c], 2))})))

---------------------------------------------------------------------------
(* FlowDirections *)
MinCells(dem) ==
  LET D == {c \in DOMAIN dem : dem[c] # NIL}
  IN {c \in D : \A d \in D : dem[c] <= dem[d]}
V_fa(e) ==
  LET amb == e.check /\ Cardinality(MinCells(e.dem)) > 1
  IN IF amb THEN Chk("C07", "ambiguous-outlet-accepted", e.err = "AssertionError")
     ELSE Chk("C07", "rejected-" \o e.err, e.err = "")

ExpTerm(e) == MinCells(st.dem) \cup Range(e.term) \cup Voids(st.dem)
V_fdir(e) ==
  LET m == st.m  adj == st.adj  dem == st.dem  f == e.res.fdir
      T == ExpTerm(e)
      badform == e.rc /\ m.kind # "structured" /\ e.term # <<>>
      fine == e.res.err = "" /\ Len(f) = m.n
      cond == Conditioned(m, adj, dem, T)
  IN IF badform THEN Chk("C07", "row-column-terminals-accepted", e.res.err = "AssertionError")
     ELSE Both(UNION {Chk("C22", "input-modified", e.kept), TwinSame("C22", e)},
     IF ~fine
     THEN Both(Chk("C05", "failed-" \o e.res.err, FALSE),
               IF cond THEN Chk("C06", "failed-" \o e.res.err, FALSE) ELSE {})
     ELSE Then(Chk("C05", "unassigned", Assigned(m, f)),
       UNION {
         Chk("C05", "shape", e.res.shape = Shape(m)),
         Chk("C05", "array-property", e.prop),
         Chk("C05", "not-steepest", SteepestOrSink(m, adj, dem, e.thr, T, f)),
         Chk("C05", "downhill-not-taken", UniqueDownhillTaken(m, adj, dem, e.thr, T, f)),
         Chk("C05", "resolvable-left-unresolved", ResolvableSinks(m, adj, dem, e.thr, T, f) = {}),
         Chk("C07", "terminals", Terminals(m, f) = T),
         IF ~cond THEN {}
         ELSE UNION {
           Chk("C06", "loop", LoopFree(f)),
           Chk("C06", "unresolved", \A c \in Cells(m) : f[c] # -2),
           Chk("C06", "not-descending",
               \A c \in Cells(m) : f[c] >= 1 /\ f[c] # c =>
                  dem[f[c]] # NIL /\ dem[f[c]] < dem[c]),
           Chk("C06", "end-not-terminal",
               LET z == Ends(f) IN \A c \in Cells(m) : z[c] \in T)}}))

Own(cells) == [c \in Cells(st.m) |-> IF cells THEN 1 ELSE Area2(st.m, c)]
V_facc(e) ==
  LET own == TLCEval(Own(e.cells))
  IN Both(TwinSame("C22", e),
     Then(Chk("C08", "failed-" \o e.res.err, e.res.err = "" /\ Len(e.res.acc) = st.m.n),
     UNION {
       Chk("C08", "shape", e.res.shape = Shape(st.m)),
       Chk("C08", "array-property", e.prop),
       Chk("C08", "accumulation", AccumExact(st.fdir, st.paths, own, e.res.acc)),
       Chk("C08", "not-conserved", AccumConserved(st.fdir, st.paths, own, e.res.acc))}))
V_nidp(e) ==
  Then(Chk("C08", "nidp-" \o e.err, e.err = "" /\ Len(e.nidp) = st.m.n),
       Chk("C08", "nidp", \A c \in Cells(st.m) : e.nidp[c] = Nidp(st.fdir, c)))

V_ws(e) ==
  UNION {Chk("C22", "input-modified", e.kept), TwinSame("C22", e),
    Then(Chk("C09", "failed-" \o e.res.err, e.res.err = "" /\ Len(e.res.out) = st.m.n),
      LET W == Watershed(st.paths, e.cell)
      IN UNION {
        Chk("C09", "shape", e.res.shape = Shape(st.m)),
        Chk("C09", "watershed", \A c \in Cells(st.m) : e.res.out[c] = IF c \in W THEN 1 ELSE 0)})}

V_sub(e) ==
  LET pts == Range(e.cells)  out == e.res.out
  IN UNION {TwinSame("C22", e),
    Then(Chk("C10", "failed-" \o e.res.err, e.res.err = "" /\ Len(out) = st.m.n),
      UNION {
        Chk("C10", "shape", e.res.shape = Shape(st.m)),
        Chk("C10", "labels", {out[p] : p \in pts} = 1..Cardinality(pts)),
        Chk("C10", "partition",
            \A c \in Cells(st.m) :
               LET p == SubLabel(st.fdir, pts, c)
               IN \* points on the same circular path have no first one
                  (p # 0 /\ p \in OnLoop(st.fdir, st.paths) /\ (pts \cap st.paths[p]) # {p}) \/
                  out[c] = IF p = 0 THEN 0 ELSE out[p]),
        Chk("C10", "upstream-first",
            st.loopfree => \A p \in pts : LET f == st.fdir[p] IN
               IF f < 1 \/ f = p THEN TRUE
               ELSE LET d == SubLabel(st.fdir, pts, f) IN d = 0 \/ out[p] < out[d])})}

V_geom(e) ==
  LET m == st.m  f == st.fdir  r == e.res
      go(c) == f[c] >= 1 /\ f[c] # c
      dx(c) == m.xc[f[c]] - m.xc[c]
      dy(c) == m.yc[f[c]] - m.yc[c]
      conn(c) == {f[c]} \cup Inflows(f, c)
  IN UNION {TwinSame("C22", e),
    Then(Chk("C24", "failed-" \o r.err, r.err = "" /\ Len(r.area2) = m.n /\ Len(r.slope) = m.n
              /\ Len(r.aspect) = m.n /\ Len(r.u) = m.n /\ Len(r.v) = m.n /\ Len(r.len) = m.n),
      UNION {
        Chk("C24", "shape", \A k \in 1..3 : r.shape[k] = Shape(m)),
        Chk("C24", "dem", r.dem = st.dem),
        Chk("C24", "area", \A c \in Cells(m) : r.area2[c] = Area2(m, c)),
        Chk("C24", "slope", \A c \in Cells(m) :
              LET d == Drop(st.dem, st.tiny, f, c)
              IN IF d = 0 THEN r.slope[c] = 0
                 ELSE RatioOK(r.slope[c], d, 1000, D100(m, c, f[c]))),
        Chk("C24", "aspect", \A c \in Cells(m) :
              r.aspect[c] \in 0..36000 /\ (go(c) => AngleOK(r.aspect[c], dx(c), dy(c), D100(m, c, f[c])))
              /\ (~go(c) => r.aspect[c] = 0)),
        Chk("C24", "vectors", \A c \in Cells(m) :
              /\ r.u[c] \in -10000..10000 /\ r.v[c] \in -10000..10000
              /\ (~go(c) => r.u[c] = 10000 /\ r.v[c] = 0)
              /\ (go(c) => UnitOK(r.u[c], dx(c), D100(m, c, f[c]))
                           /\ UnitOK(r.v[c], dy(c), D100(m, c, f[c])))),
        Chk("C24", "hru-len", \A c \in Cells(m) :
              \* (a cell that also flows back may count once or twice)
              go(c) /\ f[c] \notin Inflows(f, c) => LET k == Cardinality(conn(c))
                           s == SumOver([d \in conn(c) |-> SharedDist100(m, c, d)], conn(c))
                       IN r.len[c] \in 0..1000000 /\ Abs(r.len[c] * k - 2 * s) <= 3 * k)})}

---------------------------------------------------------------------------
(* stream objects *)
CallOf(e) == [op |-> e.op, arr |-> e.arr, group |-> e.group]
NextS(e) == Step(st.cls, st.s, CallOf(e))
LocsOf(arr) == {c \in DOMAIN arr : arr[c] # 0}
Grouped(mode) == mode = "seg"

(* the numbering the products of a call refer to: the one computed before,  *)
(* or the one the call leaves in stream_array                               *)
NumFor(e) == e.after.num
NumberingOK(mode, locs, num) ==
  /\ Len(num) = st.m.n
  /\ IF mode = "reach" THEN ReachNumbering(locs, num)
     ELSE SegNumbering(st.fdir, locs, Grouped(mode), num)
\* a ring of stream cells in which no segment starts has no segments
Ringless(grouped, locs) ==
  ~grouped \/ \A c \in locs \cap OnLoop(st.fdir, st.paths) :
     st.paths[c] \subseteq locs => st.paths[c] \cap Starts(st.fdir, locs, TRUE) # {}
Defined(mode, locs) == Ringless(Grouped(mode), locs)
NumProp(mode) == IF mode = "reach" THEN "C12" ELSE "C14"

(* what every stream call must do to the current streams and numbering *)
Keeps(e) ==
  LET s1 == NextS(e)
      same == s1 = st.s
  IN UNION {
     Chk("C22", "stream-array-modified", e.kept),
     IF ~Defined(s1.mode, LocsOf(s1.arr)) THEN {}
     ELSE Chk("C21", "current-streams",
         e.after.err = "" /\ Len(e.after.num) = st.m.n /\ e.after.shape = Shape(st.m)
         /\ {c \in Cells(st.m) : e.after.num[c] # 0} = LocsOf(s1.arr)),
     IF same /\ e.op # "conn"
        THEN Chk("C21", "numbering-changed", e.after.num = st.num) ELSE {},
     TwinSame("C21", e)}

(* a call that concerns no streams, or is rejected, leaves the streams as they were *)
Unchanged(e) ==
  IF st.lost THEN {} ELSE
  Chk("C21", "streams-changed",
      IF st.s.arr = <<>> THEN e.after.err = "AssertionError"
      ELSE /\ e.after.err = "" /\ e.after.num = st.num /\ e.after.shape = Shape(st.m))
(* a product: rejected when there are no streams, else judged by J *)
Product(e, p, J(_, _, _)) ==
  IF Rejected(st.s, CallOf(e))
  THEN Both(Chk("C21", "no-streams-accepted", e.res.err = "AssertionError"), Unchanged(e))
  ELSE LET s1 == NextS(e)
           locs == LocsOf(s1.arr)
       IN IF st.lost \/ ~Defined(s1.mode, locs) THEN {}
          ELSE Then(Chk(p, e.op \o "-failed-" \o e.res.err, e.res.err = ""),
               Both(Keeps(e),
               IF s1.mode = "none" THEN J(s1, locs, <<>>)
               ELSE Then(Chk(NumProp(s1.mode), "numbering", NumberingOK(s1.mode, locs, NumFor(e))),
                         J(s1, locs, NumFor(e)))))

V_delineate(e) ==
  Then(Chk("C11", "failed-" \o e.res.err, e.res.err = "" /\ Len(e.res.out) = st.m.n
            /\ e.after.err = "" /\ e.after.num = e.res.out),
  UNION {
    Chk("C11", "input-modified", e.kept),
    Chk("C11", "stream-array-not-a-copy", e.copyok),
    Chk("C11", "shape", e.res.shape = Shape(st.m) /\ e.after.shape = Shape(st.m)),
    Chk("C11", "threshold", \A c \in Cells(st.m) :
        e.res.out[c] = IF (IF st.cells THEN 2 ELSE 1) * st.acc[c] >= e.thr[c]
                          /\ (Len(e.bb) = 0 \/ e.bb[c] # 0) THEN 1 ELSE 0)})
V_setstream(e) ==
  IF Len(e.arr) # st.m.n
  THEN Both(Chk("C11", "wrong-size-accepted", e.err = "ValueError"), Unchanged(e))
  ELSE UNION {
    Chk("C11", "set-failed-" \o e.err, e.err = "" /\ e.after.err = ""),
    Chk("C11", "input-modified", e.kept),
    Chk("C11", "stream-array", e.after.num = e.raw /\ e.after.shape = Shape(st.m))}
V_badthr(e) == Both(Chk("C11", "wrong-size-accepted", e.err = "AssertionError"), Unchanged(e))

V_conn(e) ==
  LET J(s1, locs, num) ==
        IF s1.mode = "reach"
        THEN UNION {
          Chk("C21", "current-streams", e.res.num = e.after.num),
          Chk("C12", "graph", ReachGraph(st.fdir, locs, num, e.res.graph)),
          Chk("C12", "upstream-first", st.loopfree => UpstreamFirst(e.res.graph))}
        ELSE UNION {
          Chk("C21", "current-streams", e.res.num = e.after.num),
          Chk("C14", "graph", SegGraph(st.fdir, locs, Grouped(s1.mode), num, e.res.graph)),
          Chk("C14", "upstream-first", st.loopfree => UpstreamFirst(e.res.graph))}
      s1 == NextS(e)
  IN Product(e, NumProp(s1.mode), J)

V_conndata(e) ==
  IF Len(e.graph) > 0
  THEN Then(Chk("C13", "conndata-failed-" \o e.res.err, e.res.err = ""),
       UNION {Chk("C13", "connections", ConnRows(Range(e.graph), e.res.rows)),
              Chk("C22", "graph-modified", e.kept), Unchanged(e)})
  ELSE LET J(s1, locs, num) ==
             LET g == {<<num[c], IF NextIn(st.fdir, locs, c) = 0 THEN 0 ELSE num[st.fdir[c]]>> : c \in locs}
             IN Chk("C13", "connections", ConnRows(g, e.res.rows))
       IN Product(e, "C13", J)

V_packdata(e) ==
  LET J(s1, locs, num) ==
        LET rows == e.res.rows  m == st.m IN
        Then(Chk("C13", "rows", PackRows(m, st.dem, st.tiny, st.fdir, locs, num, rows)),
        UNION {
          Chk("C13", "length", PackLengths(m, st.fdir, locs, rows)),
          Chk("C13", "gradient", PackGradients(m, st.dem, st.tiny, st.fdir, rows)),
          Chk("C13", "top", PackTops(m, st.dem, rows)),
          Chk("C13", "ncon", PackNcon(st.fdir, locs, m, rows))})
  IN Product(e, "C13", J)

SegPairs(s1, locs, num) ==
  LET R == Runs(st.fdir, locs, Grouped(s1.mode))
      out(s) == LET l == R[s][Len(R[s])]  d == NextIn(st.fdir, locs, l)
                IN IF d = 0 THEN 0
                   ELSE IF d = l /\ ~Grouped(s1.mode) THEN 0 ELSE num[d]
  IN {<<num[s], out(s)>> : s \in DOMAIN R}

V_reachdata(e) ==
  LET J(s1, locs, num) ==
        LET rows == e.res.rows m == st.m IN
        Then(Chk("C15", "rows", \A k \in DOMAIN rows : rows[k].node \in 0..(m.n - 1)),
        Then(Chk("C15", "rows", ReachRowsOK(m, st.dem, st.fdir, locs, Grouped(s1.mode), num, rows)),
        UNION {
          Chk("C15", "length", ReachLens(m, st.fdir, locs, rows)),
          Chk("C15", "top", ReachTops(st.dem, rows)),
          Chk("C15", "slope", ReachSlopes(m, st.dem, st.fdir, locs, e.flat1, rows))}))
  IN Product(e, "C15", J)
V_segdata(e) ==
  LET J(s1, locs, num) ==
        Chk("C15", "segments", Len(e.res.rows) = Cardinality(Range(e.res.rows))
             /\ Range(e.res.rows) = SegPairs(s1, locs, num))
  IN Product(e, "C15", J)
V_irunbnd(e) ==
  LET J(s1, locs, num) ==
        Then(Chk("C16", "shape", e.res.shape = Shape(st.m) /\ Len(e.res.out) = st.m.n),
             Chk("C16", "irunbnd", IrunOK(st.fdir, locs, num, e.res.out)))
  IN Product(e, "C16", J)

OneCasc(B, num, links) ==
  LET L == OneLinks(st.fdir, B) IN
  Both(Then(Chk("C17", "segments", LinkSegs(links, num)),
  UNION {
    Chk("C17", "links", LinkPairs(links) = L),
    Chk("C17", "fraction", \A k \in DOMAIN links : links[k].p = 10000)}),
    (* how often a link is given; see the known findings *)
    IF \A p \in LinkPairs(links) : Mult(links, p) = 1 THEN {}
    ELSE IF \A p \in LinkPairs(links) :
              Mult(links, p) = Cardinality({c \in B : st.fdir[c] >= 1 /\ st.fdir[c] = st.fdir[p[1]]})
         THEN {<<"C17", "KNOWN-repeated-per-contributor">>}
         ELSE {<<"C17", "repeated-links">>})
ManyCasc(B, locs, num, sc, tol, links) ==
  Then(Chk("C18", "segments", LinkSegs(links, num)),
  UNION {
    Chk("C18", "outside-basin", \A k \in DOMAIN links : links[k].u \in B /\ links[k].d \in B),
    Chk("C18", "stream-links", \A c \in locs \cap B :
        LET mine == {k \in DOMAIN links : links[k].u = c}
        IN IF st.fdir[c] < 1 THEN mine = {}
           ELSE Cardinality(mine) = 1 /\ \A k \in mine :
                  links[k].d = DownHru(st.fdir, B, c) /\ links[k].p = 10000),
    Chk("C18", "landscape-links", \A c \in B \ locs :
        M2mRow(st.m, st.adj, st.dem, B, sc, tol, links, c))})
V_casc(e) ==
  LET J(s1, locs, num) ==
        LET B == BoundaryOf(st.fdir, e.bb) IN
        IF e.many THEN ManyCasc(B, locs, num, e.sc, e.tol, e.res.links)
        ELSE OneCasc(B, num, e.res.links)
  IN Product(e, IF e.many THEN "C18" ELSE "C17", J)

V_vectors(e) ==
  LET J(s1, locs, num) ==
        UNION {
          Chk("C19", "vectors", VectorsOK(st.fdir, locs, e.group, e.res.vecs)),
          Chk("C19", "segment-numbers", SegNumbersOK(st.fdir, locs, e.group, st.loopfree, e.res.vecs)),
          IF s1.mode # ModeFor("Sfr2005", e.group) THEN {}
          ELSE Chk("C19", "segment-numbers", \A k \in DOMAIN e.res.vecs :
                 LET v == e.res.vecs[k] IN
                 v.cells # <<>> /\ v.cells[1] \in locs /\ num[v.cells[1]] = v.seg)}
      s1 == NextS(e)
  IN IF ~Ringless(TRUE, LocsOf(s1.arr)) THEN {}
     ELSE Product(e, "C19", J)

V_thresh(e) ==
  Then(Chk("C20", "failed-" \o e.err, e.err = "" /\ Len(e.out) = st.m.n /\ e.shape = Shape(st.m)),
  UNION {
    Chk("C20", "thresholds",
        ControlOK(st.fdir, [c \in Cells(st.m) |-> (IF st.cells THEN 2 ELSE 1) * st.acc[c]],
                                 Range(e.cells), e.thr2, e.five2, e.out)),
    Chk("C21", "streams-changed", e.before = e.after)})

---------------------------------------------------------------------------
(* pyGSFLOW objects *)
V_pgsfprms(e) ==
  LET r == e.res
      J(s1, locs, num) ==
        LET B == BoundaryOf(st.fdir, e.bb)
            sub == IF e.many THEN ManyCasc(B, locs, num, e.sc, e.tol, r.links)
                   ELSE OneCasc(B, num, r.links)
            m == st.m
        IN UNION {
          {<<IF v[2] = "KNOWN-repeated-per-contributor" THEN "C17" ELSE "C25", v[2]>> : v \in sub},
          Chk("C25", "ncascade", r.ncascade = Len(r.links)),
          Chk("C25", "flag", r.flag = IF e.many THEN 0 ELSE 1),
          Chk("C25", "nsegments", r.nseg = Cardinality({num[c] : c \in locs})),
          Chk("C25", "nreaches", r.nreach = Cardinality(locs)),
          Chk("C25", "round-trip", r.round),
          Chk("C25", "area", r.area2 = [c \in Cells(m) |-> Area2(m, c)]),
          Chk("C25", "slope", Len(r.slope) = m.n /\ \A c \in Cells(m) :
              LET d == Drop(st.dem, st.tiny, st.fdir, c)
              IN IF d = 0 THEN r.slope[c] = 0
                 ELSE RatioOK(r.slope[c], d, 1000, D100(m, c, st.fdir[c]))),
          Chk("C25", "aspect", Len(r.aspect) = m.n /\ \A c \in Cells(m) :
              LET f == st.fdir[c] IN
              IF f < 1 \/ f = c THEN r.aspect[c] = 0
              ELSE r.aspect[c] \in 0..36000
                   /\ AngleOK(r.aspect[c], m.xc[f] - m.xc[c], m.yc[f] - m.yc[c], D100(m, c, f)))}
  IN Product(e, "C25", J)

(* slope of a reach in the builder object, scaled by 10000; at: the limits (1 the default, 2 the
   smallest, 3 the largest) it equals *)
BuilderSlope(lim, uden, c, d, q, at) ==
  IF d = 0 THEN 1 \in at \/ (lim[1] > lim[3] /\ 3 \in at) \/ (lim[1] < lim[2] /\ 2 \in at)
  ELSE LET dr == st.dem[c] - st.dem[d]
           b == D100(st.m, c, d)
           raw == (dr * 10000 * 100) \div (b * uden)   \* floor of the scaled slope
       IN \/ raw >= lim[3] - 1 /\ 3 \in at
          \/ raw <= lim[2] + 1 /\ 2 \in at
          \/ raw >= lim[2] - 1 /\ raw <= lim[3] + 1
             /\ Abs(q - raw) <= (IF raw < 100 THEN 1 ELSE 2) + raw \div 1000
V_pgsfsfr(e) ==
  LET r == e.res  pg == e.pg
      J(s1, locs, num) ==
        LET rows == r.rows m == st.m IN
        Then(Chk("C25", "reach-rows", \A k \in DOMAIN rows : rows[k].node \in 0..(m.n - 1)),
        Then(Chk("C25", "reach-rows", ReachRowsOK(m, st.dem, st.fdir, locs, Grouped(s1.mode), num, rows)),
        UNION {
          Chk("C25", "reach-length", ReachLens(m, st.fdir, locs, rows)),
          Chk("C25", "reach-top", ReachTops(st.dem, rows)),
          Chk("C25", "segments", {<<r.segs[k].nseg, r.segs[k].outseg>> : k \in DOMAIN r.segs}
                = SegPairs(s1, locs, num) /\ Len(r.segs) = Cardinality(SegPairs(s1, locs, num))),
          Chk("C25", "irunbnd", IF Len(pg.given) > 0 THEN r.irun = pg.given
                ELSE Len(r.irun) = m.n /\ IrunOK(st.fdir, locs, num, r.irun)),
          Chk("C25", "round-trip", r.round),
          Chk("C25", "tables-passed-in", pg.tag = <<>> \/ pg.tag = <<375, 625>>),
          IF ~pg.applied THEN
            (* the object's own tables, without defaults *)
            UNION {
              Chk("C25", "reach-slope-untouched", ReachSlopes(m, st.dem, st.fdir, locs, pg.flat1,
                    [k \in DOMAIN rows |-> [node |-> rows[k].node, len |-> rows[k].len, slope |-> rows[k].raw]])),
              Chk("C25", "reach-values-untouched", \A k \in DOMAIN rows :
                    rows[k].strhc1 = 0 /\ rows[k].strthick = 1000),
              Chk("C25", "segment-values-untouched", \A k \in DOMAIN r.segs :
                    \A x \in DOMAIN r.segs[k].v : r.segs[k].v[x] = 0)}
          ELSE UNION {
            Chk("C25", "reach-slope", \A k \in DOMAIN rows :
                 LET c == rows[k].node + 1 IN
                 BuilderSlope(pg.lim, pg.uden, c, DownCell(st.fdir, locs, c), rows[k].slope, {rows[k].at[j] : j \in DOMAIN rows[k].at})),
            Chk("C25", "reach-values", \A k \in DOMAIN rows :
                 rows[k].strhc1 = pg.reach[1] /\ rows[k].strthick = pg.reach[2]),
            Chk("C25", "segment-values", \A k \in DOMAIN r.segs : r.segs[k].v = pg.seg)}}))
  IN IF ~pg.known THEN Chk("C25", "unknown-keyword-accepted", r.err = "KeyError")
     ELSE Product(e, "C25", J)

---------------------------------------------------------------------------
(* the same mesh as another grid class: results must agree with the first *)
V_same(e) ==
  Both(Chk("C23", e.what, \A k \in DOMAIN e.vals : e.vals[k] = e.vals[1]),
       Chk("C23", e.what \o "-shape", \A k \in DOMAIN e.forms : e.forms[k]))

(* a call whose result could not be read as what it is documented to return *)
Broken(e) ==
  LET P == CASE e.what = "fill" -> {"C01", "C02", "C03", "C22"}
             [] e.what = "nanfill" -> {"C04", "C22"}
             [] e.what = "fa" -> {"C05", "C07"}
             [] e.what = "fdir" -> {"C05", "C06", "C07", "C22"}
             [] e.what \in {"facc", "nidp"} -> {"C08", "C22"}
             [] e.what = "ws" -> {"C09", "C22"}
             [] e.what = "sub" -> {"C10", "C22"}
             [] e.what = "geom" -> {"C24", "C22"}
             [] e.what \in {"delineate", "setstream", "badthr", "new"} -> {"C11"}
             [] e.what = "conn" -> {"C12", "C14", "C21"}
             [] e.what \in {"conndata", "packdata"} -> {"C13", "C21"}
             [] e.what \in {"reachdata", "segdata"} -> {"C15", "C21"}
             [] e.what = "irunbnd" -> {"C16", "C21"}
             [] e.what = "casc" -> {"C17", "C21"}
             [] e.what = "casc2" -> {"C18", "C21"}
             [] e.what = "vectors" -> {"C19", "C21"}
             [] e.what = "thresh" -> {"C20"}
             [] e.what = "pgsf" -> {"C25"}
             [] e.what = "same" -> {"C23"}
             [] OTHER -> {}
  IN {<<p, "unreadable-result-" \o e.what>> : p \in P}

Verdict(e) ==
  CASE e.op = "fill" -> V_fill(e)
    [] e.op = "nanfill" -> V_nanfill(e)
    [] e.op = "fa" -> V_fa(e)
    [] e.op = "fdir" -> V_fdir(e)
    [] e.op = "facc" -> V_facc(e)
    [] e.op = "nidp" -> V_nidp(e)
    [] e.op = "ws" -> V_ws(e)
    [] e.op = "sub" -> V_sub(e)
    [] e.op = "geom" -> V_geom(e)
    [] e.op = "new" -> Chk("C12", "stream-object-" \o e.err, e.err = "")
    [] e.op = "delineate" -> V_delineate(e)
    [] e.op = "setstream" -> V_setstream(e)
    [] e.op = "badthr" -> V_badthr(e)
    [] e.op = "conn" -> V_conn(e)
    [] e.op = "conndata" -> V_conndata(e)
    [] e.op = "packdata" -> V_packdata(e)
    [] e.op = "reachdata" -> V_reachdata(e)
    [] e.op = "segdata" -> V_segdata(e)
    [] e.op = "irunbnd" -> V_irunbnd(e)
    [] e.op = "casc" -> V_casc(e)
    [] e.op = "vectors" -> V_vectors(e)
    [] e.op = "thresh" -> V_thresh(e)
    [] e.op = "pgsf" -> IF e.cls = "Prms" THEN V_pgsfprms(e) ELSE V_pgsfsfr(e)
    [] e.op = "badpoint" ->
         Chk(CASE e.what = "ws" -> "C09" [] e.what = "sub" -> "C10" [] OTHER -> "C20",
             "malformed-point-accepted", e.err = "AssertionError")
    [] e.op = "same" -> V_same(e)
    [] e.op = "broken" -> Broken(e)
    [] OTHER -> {}

---------------------------------------------------------------------------
(* the model's next state *)
AfterStream(e) ==
  LET s1 == NextS(e)
  IN [st EXCEPT !.s = s1,
                !.lost = st.lost \/ ~Defined(s1.mode, LocsOf(s1.arr)),
                !.num = IF s1 = st.s /\ e.op # "conn" THEN st.num ELSE e.after.num]
(* the part of the state that belongs to the FlowDirections object in use *)
PerObject == {"dem", "check", "fdir", "thr", "paths", "loopfree", "acc", "cells"}
Bank == [j \in DOMAIN st.bank \cup {st.cur} |->
           IF j = st.cur THEN [x \in PerObject |-> st[x]] ELSE st.bank[j]]
After(e) ==
  CASE e.op = "use" ->
         LET b == Bank
             o == IF e.k \in DOMAIN b THEN b[e.k] ELSE [x \in PerObject |-> EmptyState[x]]
         IN [x \in DOMAIN st |-> IF x = "bank" THEN b ELSE IF x = "cur" THEN e.k
                                ELSE IF x \in PerObject THEN o[x] ELSE st[x]]
    [] e.op = "mesh" ->
         LET m == e.m IN
         [EmptyState EXCEPT !.m = m, !.tiny = e.tiny, !.adj = Adjacency(m), !.edge = EdgeCells(m)]
    [] e.op = "fa" -> [st EXCEPT !.dem = e.dem, !.check = e.check]
    [] e.op = "fdir" ->
         IF e.res.err # "" \/ Len(e.res.fdir) # st.m.n THEN st
         ELSE LET p == Paths(e.res.fdir)
              IN [st EXCEPT !.fdir = e.res.fdir, !.thr = e.thr, !.paths = p,
                            !.loopfree = LoopFree(e.res.fdir)]
    [] e.op = "facc" -> [st EXCEPT !.acc = e.res.acc, !.cells = e.cells]
    [] e.op = "new" -> [st EXCEPT !.cls = e.cls, !.s = Init0, !.num = <<>>, !.lost = FALSE]
    [] e.op = "delineate" ->
         [st EXCEPT !.s = [arr |-> [c \in Cells(st.m) |-> IF e.res.err # "" \/ Len(e.res.out) # st.m.n THEN 0
                                     ELSE IF e.res.out[c] # 0 THEN 1 ELSE 0], mode |-> "none"],
                    !.num = e.after.num, !.lost = FALSE]
    [] e.op = "setstream" -> IF Len(e.arr) # st.m.n THEN st
                             ELSE [st EXCEPT !.s = [arr |-> e.arr, mode |-> "none"], !.num = e.after.num, !.lost = FALSE]
    [] e.op = "conndata" -> IF Len(e.graph) > 0 THEN st ELSE AfterStream(e)
    [] e.op = "pgsf" -> IF e.cls # "Prms" /\ ~e.pg.known THEN st ELSE AfterStream(e)
    [] e.op \in {"conn", "packdata", "reachdata", "segdata", "irunbnd", "casc", "vectors"} -> AfterStream(e)
    [] OTHER -> st

Report(e, V) ==
  \A v \in V : PrintT("FAIL\t" \o e.id \o "\t" \o e.op \o "\t" \o v[1] \o "\t" \o v[2])

Init == i = 0 /\ st = EmptyState
Next == /\ i < Len(Events)
        /\ LET e == Events[i + 1]
           IN /\ Report(e, Verdict(e))
              /\ st' = After(e)
        /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Done == PrintT("DONE\t" \o ToString(TLCGet("stats").diameter - 1) \o "\t" \o ToString(Len(Events)))
        /\ TLCGet("stats").diameter - 1 = Len(Events)
=============================================================================
