-------------------------------- MODULE M_Seg --------------------------------
(***************************************************************************)
(* MODFLOW-2005 segments of dany for every flow direction function and       *)
(* stream set without closed rings: the segment starts, the walks down each   *)
(* segment, the sort and renumbering, the table rows in order, then irunbnd    *)
(* (walks up from each stream cell) and the stream vectors (walk from the      *)
(* headwater segments).                                                       *)
(* FORESTS restricts to directions without sinks and circles.               *)
(* VARIANT "nomeet": confluences are no starts; "greedy": irunbnd walks up     *)
(* through other stream cells (the repaired defect of C16);                    *)
(* "noseen": no isolated terminal starts (the repaired defect of C14).         *)
(***************************************************************************)
EXTENDS Small
CONSTANTS N, FORESTS, VARIANT, EMIT
VARIABLES fd, locs, grouped, pc, seg, sg, nsr, todo, irun, stack, seen, vecs
vars == <<fd, locs, grouped, pc, seg, sg, nsr, todo, irun, stack, seen, vecs>>

Init == /\ fd \in [1..N -> (IF FORESTS THEN {} ELSE {-2}) \cup (1..N)]
        /\ (FORESTS => IsForest([k \in 1..N |-> IF fd[k] = k THEN 0 ELSE fd[k]]))
        /\ locs \in SUBSET (1..N)
        /\ (LET p == Paths(fd) IN locs \cap OnLoop(fd, p) = {})
        /\ grouped \in BOOLEAN
        /\ pc = "starts" /\ seg = [k \in 1..N |-> 0] /\ sg = <<>> /\ nsr = <<>> /\ todo = <<>>
        /\ irun = [k \in 1..N |-> 0] /\ stack = <<>> /\ seen = {} /\ vecs = {}
        /\ (EMIT /\ (\A k \in 1..N : fd[k] >= 1) /\ IsForest([k \in 1..N |-> IF fd[k] = k THEN 0 ELSE fd[k]])
              => Case([kind |-> "seg", par |-> [k \in 1..N |-> IF fd[k] = k THEN 0 ELSE fd[k]],
                       locs |-> SeqOfSet(locs), grouped |-> grouped]))
Dn(k) == IF fd[k] \in locs THEN fd[k] ELSE 0
DnList == LET q == TLCEval(SeqOfSet(locs)) IN TLCEval([j \in DOMAIN q |-> Dn(q[j])])
NoDup(s) == LET RECURSIVE F(_, _)
                F(t, acc) == IF t = <<>> THEN acc
                             ELSE F(Tail(t), IF Head(t) \in Range(acc) THEN acc ELSE Append(acc, Head(t)))
            IN F(s, <<>>)
\* starts in the order dany numbers them
StartSeq ==
  LET q == TLCEval(SeqOfSet(locs))
      dn == DnList
      Cnt(k) == Cardinality({j \in DOMAIN dn : dn[j] = k})
  IN
  IF grouped
  THEN LET heads == SelectSeq(q, LAMBDA k :
                      Cnt(k) = 0 \/ (VARIANT # "noseen" /\ Dn(k) = k /\ Cnt(k) = 1))
           meets == IF VARIANT = "nomeet" THEN <<>>
                    ELSE SelectSeq(dn, LAMBDA k : k # 0 /\ Cnt(k) > 1)
       IN NoDup(heads \o meets)
  ELSE NoDup(SelectSeq([j \in 1..(2 * Cardinality(locs)) |->
                LET k == q[(j + 1) \div 2] IN IF j % 2 = 1 THEN k ELSE Dn(k)], LAMBDA k : k # 0))
SegOf(S, k) == IndexOf(S, k)
\* cells of the segment that starts at S[s]
RECURSIVE Down(_, _)
Down(S, k) == IF Dn(k) = 0 \/ Dn(k) \in Range(S) THEN <<k>> ELSE <<k>> \o Down(S, Dn(k))
Build ==
  /\ pc = "starts"
  \* (bound in this way each value is computed once)
  /\ \E S \in {StartSeq} :
     \E runs \in {[s \in DOMAIN S |-> IF grouped THEN Down(S, S[s]) ELSE <<S[s]>>]} :
     \E G \in {[s \in DOMAIN S |->
                 LET last == runs[s][Len(runs[s])] t == Dn(last)
                 IN IF t = 0 \/ t \notin Range(S) THEN 0
                    ELSE IF ~grouped /\ t = last THEN 0 ELSE SegOf(S, t)]} :
     \E order \in {TopoSort(G)} :
     \E new \in {[s \in {0} \cup DOMAIN S |-> IF s = 0 THEN 0 ELSE IndexOf(order, s)]} :
        /\ seg' = [k \in 1..N |-> IF \E s \in DOMAIN S : k \in Range(runs[s])
                     THEN new[CHOOSE s \in DOMAIN S : k \in Range(runs[s])] ELSE 0]
        /\ sg' = [t \in DOMAIN S |-> new[G[order[t]]]]
        /\ nsr' = [t \in DOMAIN S |-> runs[order[t]]]
  /\ todo' = SeqOfSet(locs) /\ pc' = "irun"
  /\ UNCHANGED <<fd, locs, grouped, irun, stack, seen, vecs>>
\* irunbnd
UpCell == /\ pc = "irun" /\ stack = <<>> /\ todo # <<>>
          /\ stack' = <<<<Head(todo), seg[Head(todo)]>>>>
          /\ irun' = [irun EXCEPT ![Head(todo)] = seg[Head(todo)]]
          /\ todo' = Tail(todo)
          /\ UNCHANGED <<fd, locs, grouped, pc, seg, sg, nsr, seen, vecs>>
Up == /\ pc = "irun" /\ stack # <<>>
      /\ LET e == stack[Len(stack)] rest == SubSeq(stack, 1, Len(stack) - 1)
             U == {k \in 1..N : fd[k] = e[1] /\ (k \notin locs \/ VARIANT = "greedy")}
         IN IF e[1] \in seen THEN stack' = rest /\ UNCHANGED <<irun, seen>>
            ELSE /\ seen' = seen \cup {e[1]}
                 /\ irun' = [k \in 1..N |-> IF k \in U THEN e[2] ELSE irun[k]]
                 /\ stack' = rest \o [j \in 1..Cardinality(U) |-> <<SeqOfSet(U)[j], e[2]>>]
      /\ UNCHANGED <<fd, locs, grouped, pc, seg, sg, nsr, todo, vecs>>
\* vectors
Heads == SelectSeq([t \in DOMAIN sg |-> t], LAMBDA t : \A u \in DOMAIN sg : sg[u] # t)
ToVec == /\ pc = "irun" /\ stack = <<>> /\ todo = <<>>
         /\ pc' = "vec" /\ todo' = Heads /\ seen' = {}
         /\ UNCHANGED <<fd, locs, grouped, seg, sg, nsr, irun, stack, vecs>>
Vec == /\ pc = "vec" /\ (todo # <<>> \/ stack # <<>>)
       /\ LET s == IF stack # <<>> THEN Head(stack) ELSE Head(todo)
              rest == IF stack # <<>> THEN Tail(stack) ELSE stack
              t == sg[s]
              v == IF t = 0 THEN nsr[s] ELSE Append(nsr[s], nsr[t][1])
          IN /\ stack' = IF t # 0 /\ t \notin seen THEN Append(rest, t) ELSE rest
             /\ todo' = IF stack # <<>> THEN todo ELSE Tail(todo)
             /\ vecs' = IF Len(v) > 1 THEN {x \in vecs : x.seg # s} \cup {[seg |-> s, cells |-> v]} ELSE vecs
             /\ seen' = IF Len(v) > 1 THEN seen \cup {s} ELSE seen
       /\ UNCHANGED <<fd, locs, grouped, pc, seg, sg, nsr, irun>>
Finished == pc = "vec" /\ todo = <<>> /\ stack = <<>>
Next == Build \/ UpCell \/ Up \/ ToVec \/ Vec \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Pairs == [t \in DOMAIN sg |-> <<t, sg[t]>>]
Segments == (pc = "irun" /\ stack = <<>> /\ seen = {}) =>
  /\ SegNumbering(fd, locs, grouped, seg)
  /\ SegGraph(fd, locs, grouped, seg, Pairs)
  /\ (LoopFree(fd) => UpstreamFirst(Pairs))
  /\ LET R == Runs(fd, locs, grouped)          \* rows: each segment is its run, in order
     IN \A t \in DOMAIN nsr : nsr[t][1] \in DOMAIN R /\ R[nsr[t][1]] = nsr[t] /\ seg[nsr[t][1]] = t
Runbnd == pc = "vec" => IrunOK(fd, locs, seg, irun)
AsSeq(S) == LET RECURSIVE F(_)
                F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o F(T \ {x})
            IN F(S)
Vectors == Finished => VectorsOK(fd, locs, grouped, AsSeq(vecs))
Terminates == <>Finished
=============================================================================
