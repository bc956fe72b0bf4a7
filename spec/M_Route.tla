------------------------------- MODULE M_Route -------------------------------
(***************************************************************************)
(* dany's flow_directions as a state machine: one step routes one cell, in    *)
(* the order of cell numbers.  Ties among the steepest neighbors are resolved  *)
(* as the package does: neighbors already flowing here are dropped; one, or    *)
(* two or three continuous ones, are taken directly; a terminal one ends the   *)
(* search; else the flat is searched breadth first until a routed cell turns   *)
(* up, and the trace back to the cell is assigned, or all of it becomes a sink. *)
(* The loops of the search have fuel; running out of it is an error.           *)
(*                                                                          *)
(* VARIANT "noterm": the search does not stop at a terminal neighbor (the       *)
(* repaired defect of C07); "uphill": cells flow to the highest neighbor.       *)
(* Both must fail.                                                           *)
(***************************************************************************)
EXTENDS Small
CONSTANTS ROWS, COLS, HI, THR, TERMS, VOIDS, ORDERS, VARIANT, EMIT
M == TLCEval(GridMesh(ROWS, COLS))
N == M.n
Adj == TLCEval(Adjacency(M))
VARIABLES dem, term, thr, ord, fcells, fdir, at, err
vars == <<dem, term, thr, ord, fcells, fdir, at, err>>

Values == (0..HI) \cup (IF VOIDS THEN {NIL} ELSE {})
MinC(d) == LET D == {k \in DOMAIN d : d[k] # NIL} IN {k \in D : \A j \in D : d[k] <= d[j]}
\* the neighbors may be listed in any order: ascending, descending, even ones first
Listed(o, X) == LET q == SeqOfSet(X)
                IN CASE o = 1 -> q [] o = 2 -> Rev(q)
                     [] OTHER -> SelectSeq(q, LAMBDA x : x % 2 = 0) \o SelectSeq(q, LAMBDA x : x % 2 = 1)
Down(d, t, o, k) ==
  LET X == Steepest(M, Adj, d, t, k)
  IN Listed(o, IF VARIANT = "uphill" THEN {x \in Candidates(Adj, d, k) : \A y \in Candidates(Adj, d, k) : d[y] <= d[x]}
              ELSE X)
Init == /\ dem \in {d \in [1..N -> Values] : Cardinality(MinC(d)) = 1}
        /\ term \in {S \in SUBSET (1..N) : Cardinality(S) <= TERMS}
        /\ thr \in THR /\ ord \in ORDERS
        /\ fdir = [k \in 1..N |-> IF k \in term \cup MinC(dem) THEN k ELSE -1]
        /\ fcells = <<>> /\ at = 0 /\ err = ""
        /\ (EMIT /\ ord = MinS(ORDERS) => Case([kind |-> "route", rows |-> ROWS, cols |-> COLS, dem |-> dem, term |-> SeqOfSet(term), thr |-> thr]))

\* are the cells of S connected among themselves
Continuous(S) == LET RECURSIVE G(_)
                     G(T) == LET U == T \cup {x \in S : Adj[x] \cap T # {}} IN IF U = T THEN T ELSE G(U)
                 IN G({MinS(S)}) = S

(* the search; the dictionary _stack is [keys |-> insertion order, from |-> key -> set] *)
Has(st, k) == k \in DOMAIN st.from
Put(st, k, x) == IF Has(st, k) THEN [st EXCEPT !.from[k] = @ \cup {x}]
                 ELSE [keys |-> Append(st.keys, k),
                       from |-> [j \in DOMAIN st.from \cup {k} |-> IF j = k THEN {x} ELSE st.from[j]]]
Touch(st, k) == IF Has(st, k) THEN st
                ELSE [keys |-> Append(st.keys, k),
                      from |-> [j \in DOMAIN st.from \cup {k} |-> IF j = k THEN {} ELSE st.from[j]]]
Drop1(st, k) == [keys |-> SelectSeq(st.keys, LAMBDA x : x # k), from |-> [j \in DOMAIN st.from \ {k} |-> st.from[j]]]
RECURSIVE PutAll(_, _, _)
PutAll(st, q, x) == IF q = <<>> THEN st ELSE PutAll(Put(st, Head(q), x), Tail(q), x)

\* _resolve_flats for the cell x: r = [st, dest, sink]
RECURSIVE Conns(_, _, _)
Conns(r, q, x) ==
  IF q = <<>> THEN r
  ELSE IF Has(r.st, Head(q)) THEN Conns(r, Tail(q), x)
  ELSE Conns([st |-> Put(r.st, Head(q), x), sink |-> FALSE,
              dest |-> IF fdir[Head(q)] \notin {-1, -2} THEN Head(q) ELSE r.dest], Tail(q), x)
Resolve(st, dest, x) ==
  LET q == fcells[x]
  IN Conns([st |-> st, sink |-> TRUE, dest |-> IF Len(q) = 1 THEN q[1] ELSE dest], q, x)

\* the for loop over the growing list q, from position j
RECURSIVE Loop(_, _)
Loop(r, fuel) ==
  IF fuel = 0 THEN [r EXCEPT !.err = "search"]
  ELSE IF r.j > Len(r.q) THEN
     IF r.dest # 0 THEN [r EXCEPT !.sink = FALSE]
     ELSE IF r.sink THEN r
     ELSE Loop([r EXCEPT !.j = 1, !.n = 0], fuel - 1)
  ELSE LET x == r.q[r.j]
       IN IF x \notin r.visited
          THEN LET a == Resolve(r.st, r.dest, x)
               IN Loop([r EXCEPT !.st = a.st, !.dest = a.dest, !.sink = a.sink, !.visited = @ \cup {x},
                                 !.q = IF a.dest = 0 THEN @ \o fcells[x] ELSE @, !.j = @ + 1], fuel - 1)
          ELSE IF r.dest # 0 THEN Loop([r EXCEPT !.j = @ + 1], fuel - 1)
          ELSE Loop([r EXCEPT !.n = @ + 1, !.j = @ + 1,
                              !.sink = (r.n + 1 >= Len(r.st.keys)) \/ @], fuel - 1)
Search(ix, conns) ==
  Loop([st |-> PutAll([keys |-> <<>>, from |-> <<>>], conns, ix), q |-> conns, j |-> 1, n |-> 0,
        visited |-> {}, dest |-> 0, sink |-> TRUE, err |-> ""], 40 * N)

\* the trace: t = function cell -> <<cell it flows to, distance>>
Set2(t, k, v) == [j \in DOMAIN t \cup {k} |-> IF j = k THEN v ELSE t[j]]
RECURSIVE From(_, _, _, _)
From(t, q, to, dest) ==
  IF q = <<>> THEN t
  ELSE LET x == Head(q)
           d == IF to \in DOMAIN t THEN t[to][2] + 1 ELSE 999
           u == IF to = dest THEN Set2(t, x, <<to, 0>>)
                ELSE IF to \in DOMAIN t
                THEN IF d < (IF x \in DOMAIN t THEN t[x][2] ELSE 1000000) THEN Set2(t, x, <<to, d>>) ELSE t
                ELSE Set2(t, x, <<to, 999>>)
       IN From(u, Tail(q), to, dest)
RECURSIVE ForDest(_, _, _, _)
ForDest(st, t, q, dest) ==      \* the for loop over ldest
  IF q = <<>> THEN [st |-> st, t |-> t]
  ELSE LET s2 == Touch(st, Head(q))
       IN ForDest(s2, From(t, SeqOfSet(s2.from[Head(q)]), Head(q), dest), Tail(q), dest)
RECURSIVE Trace_(_, _, _, _, _)
Trace_(st, t, ldest, dest, fuel) ==
  IF st.keys = <<>> THEN [t |-> t, err |-> ""]
  ELSE IF fuel = 0 THEN [t |-> t, err |-> "trace"]
  ELSE LET a == ForDest(st, t, ldest, dest)
           last == ldest[Len(ldest)]
           nf == a.st.from[last]
           s2 == Drop1(a.st, last)
       IN IF nf # {} THEN Trace_(s2, a.t, SeqOfSet(nf), dest, fuel - 1)
          ELSE IF s2.keys = <<>> THEN [t |-> a.t, err |-> "index"]      \* the last key of nothing
          ELSE Trace_(s2, a.t, <<s2.keys[Len(s2.keys)]>>, dest, fuel - 1)

Prepare == /\ at = 0 /\ at' = 1
           /\ fcells' = [k \in 1..N |-> IF dem[k] = NIL THEN <<>> ELSE Down(dem, thr, ord, k)]
           /\ UNCHANGED <<dem, term, thr, ord, fdir, err>>
Skip == /\ at \in 1..N /\ fdir[at] # -1 /\ at' = at + 1 /\ UNCHANGED <<dem, term, thr, ord, fdir, err, fcells>>
Void == /\ at \in 1..N /\ fdir[at] = -1 /\ dem[at] = NIL
        /\ fdir' = [fdir EXCEPT ![at] = at] /\ at' = at + 1 /\ UNCHANGED <<dem, term, thr, ord, err, fcells>>
RouteCell ==
  /\ at \in 1..N /\ fdir[at] = -1 /\ dem[at] # NIL
  /\ \E full \in {fcells[at]} :
     \E q \in {IF Len(full) > 1 THEN SelectSeq(full, LAMBDA x : fdir[x] # at) ELSE full} :
       /\ fcells' = [fcells EXCEPT ![at] = q]
       /\ LET S == Range(q)
              direct == IF Len(q) = 1 THEN q[1]
                        ELSE IF Len(q) = 2 /\ Continuous(S) THEN q[1]
                        ELSE IF Len(q) = 3 /\ Continuous(S) THEN q[3] ELSE 0
              ends == SelectSeq(q, LAMBDA x : fdir[x] = x)
          IN IF direct # 0 THEN fdir' = [fdir EXCEPT ![at] = direct] /\ UNCHANGED err
             ELSE IF ends # <<>> /\ VARIANT # "noterm"
             THEN fdir' = [fdir EXCEPT ![at] = ends[1]] /\ UNCHANGED err
             ELSE \E r \in {Search(at, q)} :
                  IF r.err # "" THEN err' = r.err /\ UNCHANGED fdir
                  ELSE IF r.dest = 0
                  THEN /\ fdir' = [k \in 1..N |-> IF k = at \/ k \in DOMAIN r.st.from THEN -2 ELSE fdir[k]]
                       /\ UNCHANGED err
                  ELSE \E t \in {Trace_(r.st, [k \in {MinS(r.st.from[r.dest])} |-> <<r.dest, 0>>],
                                        <<r.dest>>, r.dest, 40 * N)} :
                       /\ err' = t.err
                       /\ fdir' = [k \in 1..N |-> IF k \in DOMAIN t.t THEN t.t[k][1] ELSE fdir[k]]
  /\ at' = at + 1 /\ UNCHANGED <<dem, term, thr, ord>>
Finished == at = N + 1
Next == Prepare \/ Skip \/ Void \/ RouteCell \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

T == MinC(dem) \cup term \cup Voids(dem)
NoError == err = ""
Result == Finished =>                       \* C05, C07
   /\ Assigned(M, fdir)
   /\ SteepestOrSink(M, Adj, dem, thr, T, fdir)
   /\ UniqueDownhillTaken(M, Adj, dem, thr, T, fdir)
   /\ Terminals(M, fdir) = T
   /\ ResolvableSinks(M, Adj, dem, thr, T, fdir) = {}
CondResult == (Finished /\ Conditioned(M, Adj, dem, T)) =>          \* C06
   /\ LoopFree(fdir) /\ \A k \in 1..N : fdir[k] # -2
   /\ \A k \in 1..N : fdir[k] # k => dem[fdir[k]] < dem[k]
   /\ LET z == Ends(fdir) IN \A k \in 1..N : z[k] \in T
\* terminal cells are never routed on, whatever happens in between
Kept == \A k \in term \cup MinC(dem) : fdir[k] = k
Terminates == <>(Finished \/ err # "")
=============================================================================
