------------------------------- MODULE M_Build -------------------------------
(***************************************************************************)
(* The slopes of the pyGSFLOW stream builder: the next reach of each one is   *)
(* looked up in the reach table by (segment, reach + 1), else by (segment the *)
(* segment flows to, 1), else it is the reach itself; the slope to it is cut   *)
(* at the largest, else at the smallest value; a reach with nothing below      *)
(* gets the default first.  Drops are per unit of distance.                    *)
(* VARIANT "first": the smallest value is put in before the default; "seg":    *)
(* the last reach of a segment has none below; "both": cut at one after the    *)
(* other (must fail).                                                          *)
(***************************************************************************)
EXTENDS Small
CONSTANTS N, DROPS, LIMITS, VARIANT, EMIT
VARIABLES fd, drop, locs, grouped, lim, pc, num, tab, outs, todo, slope
vars == <<fd, drop, locs, grouped, lim, pc, num, tab, outs, todo, slope>>

Par == [k \in 1..N |-> IF fd[k] = k THEN 0 ELSE fd[k]]
Init == /\ fd \in [1..N -> 1..N] /\ IsForest(Par)
        /\ drop \in [1..N -> DROPS] /\ (\A k \in 1..N : fd[k] = k => drop[k] = MinS(DROPS))
        /\ locs \in SUBSET (1..N) /\ locs # {}
        /\ grouped \in BOOLEAN
        /\ lim \in LIMITS \X LIMITS \X LIMITS
        /\ pc = "table" /\ num = <<>> /\ tab = <<>> /\ outs = <<>> /\ todo = {} /\ slope = <<>>
        /\ (EMIT => Case([kind |-> "build", par |-> Par, drop |-> drop, locs |-> SeqOfSet(locs),
                          grouped |-> grouped, lim |-> lim]))
\* reaches are <<segment, place in the segment>>
Table ==
  /\ pc = "table"
  /\ \E R \in {Runs(fd, locs, grouped)} :
     \E q \in {SeqOfSet(DOMAIN R)} :
     \E nu \in {[c \in locs |-> CHOOSE s \in DOMAIN q : c \in Range(R[q[s]])]} :
       /\ num' = nu
       /\ tab' = UNION {{<<s, j, R[q[s]][j]>> : j \in DOMAIN R[q[s]]} : s \in DOMAIN q}
       /\ outs' = [s \in DOMAIN q |-> LET l == R[q[s]][Len(R[q[s]])]  d == NextIn(fd, locs, l)
                                      IN IF d = 0 \/ (d = l /\ ~grouped) THEN 0 ELSE nu[d]]
  /\ todo' = locs /\ slope' = [c \in locs |-> -99]
  /\ pc' = "rows" /\ UNCHANGED <<fd, drop, locs, grouped, lim>>
Get(s, j, default) == LET T == {r \in tab : r[1] = s /\ r[2] = j}
                      IN IF T = {} THEN default ELSE (CHOOSE r \in T : TRUE)[3]
Row ==
  /\ pc = "rows" /\ todo # {}
  /\ \E c \in {MinS(todo)} :
     \E r \in {CHOOSE r \in tab : r[3] = c} :
     \E dn \in {Get(r[1], r[2] + 1, IF VARIANT = "seg" THEN c ELSE Get(outs[r[1]], 1, c))} :
     \E raw \in {IF dn = c THEN (IF VARIANT = "first" THEN 0 ELSE lim[1]) ELSE drop[c]} :
       slope' = [slope EXCEPT ![c] =
         IF VARIANT = "both" THEN Max2(lim[2], Min2(lim[3], raw))
         ELSE IF VARIANT = "first" /\ dn = c /\ raw < lim[2] THEN lim[2]
         ELSE IF raw > lim[3] THEN lim[3] ELSE IF raw < lim[2] THEN lim[2] ELSE raw]
  /\ todo' = todo \ {MinS(todo)}
  /\ UNCHANGED <<fd, drop, locs, grouped, lim, pc, num, tab, outs>>
Finished == pc = "rows" /\ todo = {}
Next == Table \/ Row \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* SegNumbering and SegGraph hold for the numbers the rows refer to, so this  *)
(* is the situation that V_pgsfsfr judges; then its slope condition           *)
At(v) == {k \in 1..3 : lim[k] = v}
Result == Finished =>
  /\ SegNumbering(fd, locs, grouped, [c \in 1..N |-> IF c \in locs THEN num[c] ELSE 0])
  /\ \A c \in locs :
       LET d == DownCell(fd, locs, c)  v == slope[c] IN
       IF d = 0 THEN 1 \in At(v) \/ (lim[1] > lim[3] /\ 3 \in At(v)) \/ (lim[1] < lim[2] /\ 2 \in At(v))
       ELSE \/ drop[c] >= lim[3] /\ 3 \in At(v)
            \/ drop[c] <= lim[2] /\ 2 \in At(v)
            \/ drop[c] >= lim[2] /\ drop[c] <= lim[3] /\ v = drop[c]
(* with limits in order every slope is within them *)
Within == Finished /\ lim[2] <= lim[3] => \A c \in locs : slope[c] >= lim[2] /\ slope[c] <= lim[3]
Terminates == <>Finished
=============================================================================
