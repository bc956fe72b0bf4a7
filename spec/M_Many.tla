------------------------------- MODULE M_Many -------------------------------
(***************************************************************************)
(* Many-to-many cascades from one landscape cell: slopes towards K neighbors, *)
(* some of them outside the basin or upwards; links of at most 1% are dropped  *)
(* and the others shared out anew.  Fractions are compared exactly.            *)
(* VARIANT "keep": fractions are not computed again (must fail).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS K, VARIANT, EMIT
SLOPES == {-1, 0, 1, 2, 50, 99, 100, 101, 9999}
VARIABLES s, inside, pc, kept, share      \* share[k] = <<numerator, denominator>>
vars == <<s, inside, pc, kept, share>>
RECURSIVE Sum(_, _)
Sum(g, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN g[x] + Sum(g, S \ {x})
\* s[k] > 0: the neighbor is lower
Init == /\ s \in [1..K -> SLOPES] /\ inside \in SUBSET (1..K)
        /\ pc = "cut" /\ kept = {} /\ share = [k \in 1..K |-> <<0, 1>>]
        /\ (EMIT => PrintT("CASE\t" \o ToJson([kind |-> "many", slopes |-> s,
                                               inside |-> [k \in 1..K |-> IF k \in inside THEN 1 ELSE 0]])))
L == {k \in inside : s[k] >= 0}
Cut == /\ pc = "cut" /\ pc' = "share"
       /\ kept' = {k \in L : 100 * s[k] > Sum(s, L)}
       /\ UNCHANGED <<s, inside, share>>
Share == /\ pc = "share" /\ pc' = "done"
         /\ share' = [k \in 1..K |-> IF k \in kept THEN <<s[k], IF VARIANT = "keep" THEN Sum(s, L) ELSE Sum(s, kept)>>
                                     ELSE <<0, 1>>]
         /\ UNCHANGED <<s, inside, kept>>
Next == Cut \/ Share \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Lower == {k \in inside : s[k] > 0}
Result == pc = "done" =>
  /\ kept \subseteq Lower
  /\ (Lower # {} => kept # {})
  /\ \A k \in kept : 100 * s[k] > Sum(s, Lower)
  /\ \A k \in Lower \ kept : 100 * s[k] <= Sum(s, Lower)
  /\ \A k \in kept : share[k][1] * Sum(s, kept) = s[k] * share[k][2]
  /\ (kept # {} => LET k0 == CHOOSE k \in kept : TRUE
                   IN Sum([k \in kept |-> share[k][1]], kept) = share[k0][2])
=============================================================================
