------------------------------- MODULE M_Forms -------------------------------
(***************************************************************************)
(* Node numbers and cell ids.  The grid is walked layer by layer, row by row, *)
(* and nodes are counted; the ids of structured, vertex and unstructured       *)
(* grids and the (row, column) pairs of terminal cells are what dany makes of  *)
(* a node.  VARIANT "columns": nodes run down the columns; "layers": ids keep  *)
(* the layer of a node of a grid of several layers' numbering (must fail).      *)
(***************************************************************************)
EXTENDS Small
CONSTANTS ROWS, COLS, LAYERS, VARIANT, EMIT
VARIABLES nr, nc, nl, r, c, node, ids
vars == <<nr, nc, nl, r, c, node, ids>>

Init == /\ nr \in 1..ROWS /\ nc \in 1..COLS /\ nl \in 1..LAYERS
        /\ r = 0 /\ c = 0 /\ node = 0 /\ ids = <<>>
        /\ (EMIT => \A i \in 0..(nr - 1) : \A j \in 0..(nc - 1) :
              Case([kind |-> "forms", rows |-> nr, cols |-> nc, nlay |-> nl, term |-> i * nc + j + 1]))
(* get_lrc of a node *)
Lrc(x) == IF VARIANT = "columns" THEN <<x \div (nr * nc), (x % (nr * nc)) % nr, (x % (nr * nc)) \div nr>>
          ELSE IF VARIANT = "layers" THEN <<x % nl, x \div nc, x % nc>>
          ELSE <<x \div (nr * nc), (x % (nr * nc)) \div nc, x % nc>>
Visit == /\ r < nr
         /\ ids' = Append(ids, [at |-> <<0, r, c>>, node |-> node,
                                structured |-> Lrc(node), vertex |-> <<0, node>>, unstructured |-> <<node>>,
                                terminal |-> r * nc + c])
         /\ node' = node + 1
         /\ IF c = nc - 1 THEN c' = 0 /\ r' = r + 1 ELSE c' = c + 1 /\ r' = r
         /\ UNCHANGED <<nr, nc, nl>>
Finished == r = nr
Next == Visit \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Mk(kind) == [kind |-> kind, n |-> nr * nc, nrow |-> nr, ncol |-> nc]
Result == Finished =>
  /\ Len(ids) = nr * nc
  /\ \A k \in DOMAIN ids :
       /\ ids[k].structured = ids[k].at
       /\ ids[k].terminal = ids[k].node
       /\ \A q \in {"structured", "vertex", "unstructured"} :
            CellIdShape(Mk(q), ids[k][q]) /\ NodeOf(Mk(q), ids[k][q]) = k
  /\ \A j, k \in DOMAIN ids : j # k => ids[j].structured # ids[k].structured
(* the mesh of Small is the one with these nodes *)
Grid == Finished => LET m == GridMesh(nr, nc) IN
  \A k \in DOMAIN ids : /\ m.xc[k] = 24 * ids[k].at[3] + 12
                        /\ m.yc[k] = 24 * (nr - 1 - ids[k].at[2]) + 12
Terminates == <>Finished
=============================================================================
