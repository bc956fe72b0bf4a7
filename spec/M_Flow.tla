-------------------------------- MODULE M_Flow --------------------------------
(***************************************************************************)
(* What FlowDirections objects, the conditioning functions and the grid share  *)
(* and cache.  Attributes are tags of what they were computed from.            *)
(*   nb      the grid's neighbor cache: "none", "rook", "queen"; pad: lists in   *)
(*           it were padded with the fill index                               *)
(*   ob[k]   object k: its DEM, neighbor lists (kind, padded), flow directions    *)
(*           (the DEM and options they were computed with), reversed directions,  *)
(*           accumulation                                                     *)
(* Every product has to be computed from queen neighbors without padding and     *)
(* from the object's own latest flow directions, whatever was called before.     *)
(*                                                                          *)
(* VARIANT "cached": the grid's neighbor cache is used as it is; "alias": objects *)
(* share the lists of the cache; "stale": reversed directions are kept; "shared":  *)
(* objects share their flow directions (each must fail)                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DEPTH, VARIANT, EMIT
VARIABLES nb, ob, used, h
vars == <<nb, ob, used, h>>
Obj == 1..2
Opt == 1..2                       \* terminal cells and thresholds
NoF == [o |-> 0, opt |-> 0]
Fresh == [made |-> FALSE, kind |-> "none", pad |-> FALSE, share |-> FALSE, f |-> NoF, r |-> NoF, acc |-> NoF]
Call(op, k, x) == [op |-> op, k |-> k, x |-> x]
Calls == {Call("neigh", 0, x) : x \in 1..2} \cup {Call(o, 0, 0) : o \in {"fill", "nan"}}
           \cup {Call("new", k, 0) : k \in Obj} \cup {Call("route", k, x) : k \in Obj, x \in Opt}
           \cup {Call(o, k, 0) : o \in {"acc", "ws", "sub", "geom"}, k \in Obj}
Init == nb = [kind |-> "none", pad |-> FALSE] /\ ob = [k \in Obj |-> Fresh] /\ used = {} /\ h = <<>>

\* modelgrid.neighbors(method="queen", reset=True) of the package
Queen == IF VARIANT = "cached" /\ nb.kind # "none" THEN nb ELSE [kind |-> "queen", pad |-> FALSE]
\* the neighbor lists object k works with
Lists(k) == IF ob[k].share THEN nb ELSE [kind |-> ob[k].kind, pad |-> ob[k].pad]
FOf(k) == IF VARIANT = "shared" THEN (CHOOSE f \in {ob[j].f : j \in Obj} : f # NoF) ELSE ob[k].f
Allowed(c) == CASE c.op \in {"neigh", "fill", "nan", "new"} -> TRUE
                [] c.op = "route" -> ob[c.k].made
                [] OTHER -> ob[c.k].f # NoF
N(g, kind, pad) == [what |-> g, kind |-> kind, pad |-> pad]
F(g, k, f) == [what |-> g, k |-> k, f |-> f]
Effect(c) ==
  CASE c.op = "neigh" -> [nb |-> [kind |-> IF c.x = 1 THEN "rook" ELSE "queen", pad |-> FALSE], ob |-> ob, used |-> {}]
    [] c.op \in {"fill", "nan"} -> [nb |-> Queen, ob |-> ob, used |-> {N("list", Queen.kind, Queen.pad)}]
    [] c.op = "new" -> [nb |-> Queen, used |-> {},
                        ob |-> [ob EXCEPT ![c.k] = [Fresh EXCEPT !.made = TRUE, !.kind = Queen.kind, !.pad = Queen.pad,
                                                             !.share = (VARIANT = "alias")]]]
    [] c.op = "route" ->            \* pads the lists, the fill index is known to the slopes
         LET l == Lists(c.k)
             o2 == [ob EXCEPT ![c.k] = [@ EXCEPT !.pad = TRUE, !.f = [o |-> c.k, opt |-> c.x],
                                                 !.r = IF VARIANT = "stale" THEN @ ELSE NoF]]
         IN [nb |-> IF ob[c.k].share THEN [nb EXCEPT !.pad = TRUE] ELSE nb,
             ob |-> IF VARIANT = "shared" THEN [j \in Obj |-> IF j = c.k THEN o2[j] ELSE [o2[j] EXCEPT !.f = NoF]] ELSE o2,
             used |-> {N("routing", l.kind, FALSE)}]
    [] c.op = "acc" -> [nb |-> nb, ob |-> [ob EXCEPT ![c.k].acc = FOf(c.k)], used |-> {F("fdir", c.k, FOf(c.k))}]
    [] c.op \in {"ws", "sub"} ->
         LET r == IF ob[c.k].r = NoF THEN FOf(c.k) ELSE ob[c.k].r
         IN [nb |-> nb, ob |-> [ob EXCEPT ![c.k].r = r], used |-> {F("fdir", c.k, FOf(c.k)), F("reversed", c.k, r)}]
    [] OTHER -> [nb |-> nb, ob |-> ob, used |-> {F("fdir", c.k, FOf(c.k))}]
\* the latest routing of each object, from the history alone
VARIABLE last
Do(c) == /\ Allowed(c)
         /\ LET e == Effect(c) IN nb' = e.nb /\ ob' = e.ob /\ used' = e.used
         /\ last' = IF c.op = "route" THEN [last EXCEPT ![c.k] = c.x] ELSE IF c.op = "new" THEN [last EXCEPT ![c.k] = 0] ELSE last
         /\ h' = IF DEPTH = 0 THEN h ELSE Append(h, c)
         /\ (EMIT /\ (DEPTH = 99 \/ Len(h) + 1 = DEPTH) => PrintT("CASE\t" \o ToJson([kind |-> "flows", calls |-> Append(h, c)])))
All == <<nb, ob, used, h, last>>
Next == (\E c \in Calls : (DEPTH \in {0, 99} \/ Len(h) < DEPTH) /\ Do(c)) \/ (DEPTH \notin {0, 99} /\ Len(h) = DEPTH /\ UNCHANGED All)
Spec == Init /\ last = [k \in Obj |-> 0] /\ [][Next]_All
Tags == <<nb, ob, last>>

Result == \A u \in used :
  IF u.what \in {"list", "routing"} THEN u.kind = "queen" /\ ~u.pad
  ELSE u.f = [o |-> u.k, opt |-> last[u.k]]
Kept == \A k \in Obj : last[k] # 0 => ob[k].f = [o |-> k, opt |-> last[k]] /\ (ob[k].r # NoF => ob[k].r = ob[k].f)
=============================================================================
