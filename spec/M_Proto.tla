------------------------------- MODULE M_Proto -------------------------------
(***************************************************************************)
(* The caching protocol of dany's stream objects.  The cached attributes are  *)
(* tags: which streams they were computed for and how those were numbered.     *)
(*   sa   _stream_array          [arr, num]   num "raw": as the user gave it    *)
(*   gr   _graph                 [arr, num] or None                           *)
(*   sg   _seg_graph (and _node_seg_rch, always assigned together)             *)
(* Every public call is one step that changes the tags as the code does; used   *)
(* is the set of tags the call's product was computed from.  The protocol       *)
(* refines module Session: s follows Step, and every product is computed from    *)
(* the streams and the connectivity that Step names.                           *)
(* DEPTH > 0 records histories of that length for replay; DEPTH = 99 with VIEW     *)
(* Tags: one history for every (state, call).                                  *)
(*                                                                          *)
(* VARIANT "noreset": set_stream_array and delineate_streams keep the graphs;    *)
(* "nosame": tables do not compare the given streams with the current ones;      *)
(* "vecleak": the connectivity of stream vectors stays (repaired defects of C21, *)
(* each must fail)                                                           *)
(***************************************************************************)
EXTENDS Session, FiniteSets, TLC, Json
CONSTANTS CLASS, DEPTH, VARIANT, EMIT
VARIABLES s, sa, gr, sg, used, h
vars == <<s, sa, gr, sg, used, h>>
None == [arr |-> <<>>, num |-> "none"]
A == <<1>>
B == <<2>>
Nothing == <<>>

Call(op, a, g) == [op |-> op, arr |-> a, group |-> g]
Maybe == {Nothing, A, B}
Calls ==
  {Call("setstream", a, FALSE) : a \in {A, B}} \cup
  {Call("vectors", a, g) : a \in Maybe, g \in BOOLEAN} \cup
  (CASE CLASS = "Sfr6" ->
          {Call("conn", a, FALSE) : a \in Maybe} \cup {Call("packdata", a, FALSE) : a \in Maybe}
            \cup {Call("conndata", Nothing, FALSE)}
     [] CLASS = "Sfr2005" ->
          {Call(o, a, g) : o \in {"conn", "reachdata", "segdata", "irunbnd"}, a \in Maybe, g \in BOOLEAN}
            \cup {Call("pgsf", Nothing, g) : g \in BOOLEAN}
     [] OTHER -> {Call(o, a, g) : o \in {"conn", "casc", "pgsf"}, a \in Maybe, g \in BOOLEAN})

Init == /\ s = Init0 /\ sa = None /\ gr = None /\ sg = None /\ used = {} /\ h = <<>>

\* the three attributes as one value
At(a, g, q) == [sa |-> a, gr |-> g, sg |-> q]
Now == At(sa, gr, sg)
Tag(a, k) == [arr |-> a, num |-> k]
\* _mf6_stream_connectivity, _mf2005_stream_connectivity with streams a
Mf6(f, a) == [f EXCEPT !.sa = Tag(a, "reach"), !.gr = Tag(a, "reach")]
Mf5(f, a, g) == LET k == IF g THEN "seg" ELSE IF CLASS = "Sfr2005" THEN "cell" ELSE "reach"
                IN At(Tag(a, k), Tag(a, k), Tag(a, k))
Conn(f, a, g) == IF CLASS = "Sfr2005" THEN Mf5(f, a, g)
                 ELSE IF CLASS = "Prms" /\ g THEN Mf5(f, a, TRUE) ELSE Mf6(f, a)
Same(f, a) == VARIANT = "nosame" \/ f.sa.arr = a
SetTo(f, a) == IF VARIANT = "noreset" THEN [f EXCEPT !.sa = Tag(a, "raw")] ELSE At(Tag(a, "raw"), None, None)

\* result: the new attributes and what the product was made of
Does(c) ==
  LET f == Now
      a == IF c.arr = Nothing THEN f.sa.arr ELSE c.arr
  IN CASE c.op = "setstream" -> [f |-> SetTo(f, c.arr), used |-> {}]
       [] c.op = "conn" -> LET n == Conn(f, a, c.group) IN [f |-> n, used |-> {n.sa, n.gr}]
       [] c.op = "conndata" ->
            LET n == IF f.gr = None THEN Mf6(f, f.sa.arr) ELSE f IN [f |-> n, used |-> {n.gr}]
       [] c.op = "packdata" ->
            LET n == IF c.arr # Nothing THEN Mf6(f, c.arr) ELSE IF f.gr = None THEN Mf6(f, f.sa.arr) ELSE f
            IN [f |-> n, used |-> {n.sa, n.gr}]
       [] c.op \in {"reachdata", "segdata", "irunbnd"} ->
            LET n == IF f.sg = None \/ ~Same(f, a) THEN Mf5(f, a, c.group) ELSE f
            IN [f |-> n, used |-> IF c.op = "irunbnd" THEN {n.sa} ELSE {n.sg}]
       [] c.op = "casc" ->
            LET n == IF f.gr = None \/ ~Same(f, a) THEN Conn(f, a, c.group) ELSE f
            IN [f |-> n, used |-> {n.sa}]
       [] c.op = "pgsf" /\ CLASS = "Prms" ->
            LET n == Conn(f, a, c.group) IN [f |-> n, used |-> {n.sa, n.gr}]
       [] c.op = "pgsf" ->
            LET n == IF f.sg = None \/ ~Same(f, a) THEN Mf5(f, a, c.group) ELSE f
            IN [f |-> n, used |-> {n.sg, n.sa}]
       [] OTHER ->          \* vectors: connectivity of its own, the attributes are put back
            LET n == IF c.arr # Nothing /\ ~Same(f, c.arr) THEN SetTo(f, c.arr) ELSE f
            IN [f |-> IF VARIANT = "vecleak" THEN Mf5(n, a, c.group) ELSE n, used |-> {}]
Do(c) ==
  /\ IF Rejected(s, c)
     THEN UNCHANGED <<sa, gr, sg>> /\ used' = {}
     ELSE LET r == Does(c) IN sa' = r.f.sa /\ gr' = r.f.gr /\ sg' = r.f.sg /\ used' = r.used
  /\ s' = Step(CLASS, s, c)
  /\ h' = IF DEPTH = 0 THEN h ELSE Append(h, c)
  /\ (EMIT /\ (DEPTH = 99 \/ Len(h) + 1 = DEPTH) => PrintT("CASE\t" \o ToJson([kind |-> "history", cls |-> CLASS, calls |-> Append(h, c)])))
Next == (\E c \in Calls : (DEPTH \in {0, 99} \/ Len(h) < DEPTH) /\ Do(c)) \/ (DEPTH \notin {0, 99} /\ Len(h) = DEPTH /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Tags == <<s, sa, gr, sg>>

\* the refinement
CurrentStreams == sa.arr = s.arr
Current == (s.mode # "none") => sa = Tag(s.arr, s.mode) /\ gr = Tag(s.arr, s.mode)
NotStale == gr # None => gr.arr = s.arr /\ gr.num = s.mode
Products == used \subseteq {Tag(s.arr, s.mode)}
=============================================================================
