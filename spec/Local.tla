-------------------------------- MODULE Local --------------------------------
(***************************************************************************)
(* The conditions on products in a form that looks at one cell and the cells *)
(* that flow into it at a time.  On flow directions without circles each one  *)
(* says the same as the condition of modules Conditioning, Flow and Streams   *)
(* it is named after (module M_Local checks that), and its cost grows with     *)
(* the number of cells only, so that module Huge can judge meshes of tens of   *)
(* thousands of cells.                                                        *)
(*   nb[c]   cells next to c         In[c]   cells that flow into c            *)
(***************************************************************************)
EXTENDS Streams

InflowIndex(fdir, nb) == TLCEval([c \in DOMAIN fdir |-> {d \in nb[c] : fdir[d] = c}])
Stops(fdir, c) == fdir[c] < 1 \/ fdir[c] = c

(* a surface that descends to the seeds *)
LDrains(nb, out, seeds) == \A c \in (DOMAIN out) \ seeds : \E d \in nb[c] : out[d] < out[c]
(* the least surface with steps of eps > 0 is the only one with *)
LSurface(nb, dem, eps, seeds, out) ==
  \A c \in DOMAIN dem :
    IF c \in seeds THEN out[c] = dem[c]
    ELSE out[c] = Max2(dem[c], MinS({out[d] : d \in nb[c]}) + eps)

(* circles are impossible where all paths descend *)
LDescends(dem, fdir) == \A c \in DOMAIN fdir : Stops(fdir, c) \/ dem[fdir[c]] < dem[c]

LAccum(fdir, In, own, acc) == \A c \in DOMAIN fdir : acc[c] = own[c] + SumOver(acc, In[c])
LWatershed(fdir, p, out) ==
  \A c \in DOMAIN fdir : out[c] = IF c = p THEN 1 ELSE IF Stops(fdir, c) THEN 0 ELSE out[fdir[c]]
LSub(fdir, pts, out) ==
  /\ {out[p] : p \in pts} = 1..Cardinality(pts)
  /\ \A c \in DOMAIN fdir :
       IF c \in pts THEN Stops(fdir, c) \/ out[fdir[c]] = 0 \/ out[c] < out[fdir[c]]
       ELSE out[c] = IF Stops(fdir, c) THEN 0 ELSE out[fdir[c]]
LIrun(fdir, locs, num, out) ==
  \A c \in DOMAIN fdir : out[c] = IF c \in locs THEN num[c] ELSE IF Stops(fdir, c) THEN 0 ELSE out[fdir[c]]

---------------------------------------------------------------------------
(* segments; LStarts is the set of cells in which one starts *)
LStreamIn(fdir, In, locs, c) == (In[c] \cap locs) \cup (IF fdir[c] = c THEN {c} ELSE {})
LStarts(fdir, In, locs, grouped) ==
  {c \in locs : LET I == LStreamIn(fdir, In, locs, c) IN ~grouped \/ I = {} \/ Cardinality(I) >= 2 \/ I = {c}}
LSegNumbering(fdir, In, locs, S, num) ==
  /\ \A c \in DOMAIN num : IF c \in locs THEN num[c] \in 1..Cardinality(S) ELSE num[c] = 0
  /\ Cardinality({num[c] : c \in S}) = Cardinality(S)
  /\ \A c \in locs \ S : \A d \in In[c] \cap locs : num[c] = num[d]
\* the cell a segment ends in
LLast(fdir, locs, S, c) == LET d == NextIn(fdir, locs, c) IN d = 0 \/ d \in S
LOut(fdir, locs, grouped, num, l) ==
  LET d == NextIn(fdir, locs, l) IN IF d = 0 \/ (d = l /\ ~grouped) THEN 0 ELSE num[d]
LPairs(fdir, locs, S, grouped, num) ==
  {<<num[l], LOut(fdir, locs, grouped, num, l)>> : l \in {c \in locs : LLast(fdir, locs, S, c)}}
LReach(fdir, In, locs, S, ireach) ==
  \A c \in locs : IF c \in S THEN ireach[c] = 1 ELSE \A d \in In[c] \cap locs : ireach[c] = ireach[d] + 1

(* lines: cells in flow order from a start to the next one, or to the end *)
LVector(fdir, locs, S, v) ==
  /\ v[1] \in S
  /\ \A k \in 2..Len(v) : v[k] = fdir[v[k - 1]] /\ v[k] \in locs /\ v[k] # v[k - 1]
  /\ \A k \in 2..(Len(v) - 1) : v[k] \notin S
  /\ v[Len(v)] \in S \/ DownCell(fdir, locs, v[Len(v)]) = 0
LVectors(fdir, locs, S, vecs) ==
  LET got == {k \in DOMAIN vecs : Len(Squash(fdir, vecs[k].cells)) >= 2}
  IN /\ \A k \in got : LVector(fdir, locs, S, Squash(fdir, vecs[k].cells))
     /\ Cardinality({vecs[k].cells[1] : k \in got}) = Cardinality(got)
     /\ Cardinality(got) = Cardinality({s \in S : DownCell(fdir, locs, s) # 0})

---------------------------------------------------------------------------
(* the neighbors in a grid of R rows and C columns, numbered row by row *)
GridNbs(R, C) ==
  TLCEval([c \in 1..(R * C) |->
    LET r == (c - 1) \div C  k == (c - 1) % C
    IN {C * a + b + 1 : a \in Max2(0, r - 1)..Min2(R - 1, r + 1), b \in Max2(0, k - 1)..Min2(C - 1, k + 1)} \ {c}])
GridEdge(R, C) == {c \in 1..(R * C) : (c - 1) \div C \in {0, R - 1} \/ (c - 1) % C \in {0, C - 1}}
=============================================================================
