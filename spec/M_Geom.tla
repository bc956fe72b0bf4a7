-------------------------------- MODULE M_Geom --------------------------------
(***************************************************************************)
(* Cell areas: the shoelace sum of dany, one vertex per step, over every      *)
(* convex lattice polygon of at most four corners, from any corner, in either *)
(* sense, closed or not, padded to a common length by repeating the last      *)
(* vertex, as for the rows of a regular array.  The oracle is not a formula   *)
(* over the same determinants but a count of lattice points (Pick's theorem). *)
(* VARIANT "open": the sum starts at the second vertex; "signed": the sign     *)
(* is kept; "padfirst": rows are padded with the first vertex of the polygon   *)
(* in front (must fail).                                                      *)
(***************************************************************************)
EXTENDS Small
CONSTANTS SIDE, PAD, VARIANT, EMIT
VARIABLES poly, form, pts, x, sum
vars == <<poly, form, pts, x, sum>>

Lattice == (0..SIDE) \X (0..SIDE)
Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
\* corners in order, all turns to the left, the smallest first
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Triangles == {t \in Lattice \X Lattice \X Lattice :
                Less(t[1], t[2]) /\ Less(t[1], t[3]) /\ Cross(t[1], t[2], t[3]) > 0}
Quads == {q \in Lattice \X Lattice \X Lattice \X Lattice :
            /\ Less(q[1], q[2]) /\ Less(q[1], q[3]) /\ Less(q[1], q[4])
            /\ Cross(q[1], q[2], q[3]) > 0 /\ Cross(q[2], q[3], q[4]) > 0
            /\ Cross(q[3], q[4], q[1]) > 0 /\ Cross(q[4], q[1], q[2]) > 0}
Rot(s, k) == SubSeq(s, k + 1, Len(s)) \o SubSeq(s, 1, k)
RECURSIVE Pad(_, _)
Pad(s, n) == IF Len(s) >= n THEN s
             ELSE IF VARIANT = "padfirst" THEN Pad(<<s[1]>> \o <<<<0, 0>>>> \o Tail(s), n) ELSE Pad(Append(s, s[Len(s)]), n)
Written(p, f) ==
  LET a == Rot(p, f.start)
      b == IF f.cw THEN Rev(a) ELSE a
  IN Pad(IF f.closed THEN Append(b, b[1]) ELSE b, PAD)

Init == /\ poly \in {[k \in 1..3 |-> t[k]] : t \in Triangles} \cup {[k \in 1..4 |-> q[k]] : q \in Quads}
        /\ form \in [start : 0..(Len(poly) - 1), cw : BOOLEAN, closed : BOOLEAN]
        /\ pts = Written(poly, form)
        /\ x = (IF VARIANT = "open" THEN 2 ELSE 1) /\ sum = 0
        /\ (EMIT /\ form.start = 0 => Case([kind |-> "geom", poly |-> poly, cw |-> form.cw, closed |-> form.closed]))
\* the vertex before the first one is the last one
Before(k) == IF k = 1 THEN pts[Len(pts)] ELSE pts[k - 1]
Det == /\ x <= Len(pts)
       /\ sum' = sum + Before(x)[1] * pts[x][2] - Before(x)[2] * pts[x][1]
       /\ x' = x + 1 /\ UNCHANGED <<poly, form, pts>>
Finished == x > Len(pts)
Next == Det \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Value == IF VARIANT = "signed" THEN sum ELSE Abs(sum)
Sides == {<<poly[k], poly[IF k = Len(poly) THEN 1 ELSE k + 1]>> : k \in 1..Len(poly)}
OnSide(s, p) == /\ Cross(s[1], s[2], p) = 0
                /\ p[1] >= Min2(s[1][1], s[2][1]) /\ p[1] <= Max2(s[1][1], s[2][1])
                /\ p[2] >= Min2(s[1][2], s[2][2]) /\ p[2] <= Max2(s[1][2], s[2][2])
Boundary == {p \in Lattice : \E s \in Sides : OnSide(s, p)}
Interior == {p \in Lattice : \A s \in Sides : Cross(s[1], s[2], p) > 0}
\* the mesh record with this one cell, as module Trace gets it
One == LET o == IF form.closed THEN Append(Rot(poly, form.start), poly[form.start + 1]) ELSE Rot(poly, form.start)
       IN [n |-> 1, iv |-> <<[k \in DOMAIN o |-> IndexOf(poly, o[k])]>>,
           vx |-> [k \in DOMAIN poly |-> poly[k][1]], vy |-> [k \in DOMAIN poly |-> poly[k][2]]]
Result == Finished =>
  /\ Value = 2 * Cardinality(Interior) + Cardinality(Boundary) - 2
  /\ Area2(One, 1) = Value
Terminates == <>Finished
=============================================================================
