------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* The contract of a stream object as a state machine: which streams and    *)
(* which connectivity each public call uses and leaves behind.              *)
(*                                                                          *)
(*   arr   the current stream locations: a sequence of 0/1 per cell, <<>>   *)
(*         when there are none yet                                          *)
(*   mode  the connectivity that has been computed for arr:                 *)
(*         "none", "reach" (MODFLOW 6), "seg" (grouped MODFLOW-2005),       *)
(*         "cell" (one segment per cell)                                    *)
(*                                                                          *)
(* Step(cls, s, call) is the next state of call = [op, arr, group].         *)
(* call.arr = <<>> when no stream array is passed.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

Init0 == [arr |-> <<>>, mode |-> "none"]
ModeFor(cls, group) == IF group THEN "seg"
                       ELSE IF cls = "Sfr2005" THEN "cell" ELSE "reach"

\* streams used by a call
Eff(s, call) == IF call.arr # <<>> THEN call.arr ELSE s.arr
\* a call without streams, before any were delineated, is rejected
Rejected(s, call) ==
  call.op \in {"conn", "conndata", "packdata", "reachdata", "segdata", "irunbnd",
               "casc", "vectors", "pgsf"} /\ Eff(s, call) = <<>>

(* connectivity already computed for the same streams is used again *)
Reuse(s, call) == s.mode # "none" /\ Eff(s, call) = s.arr

Step(cls, s, call) ==
  IF Rejected(s, call) THEN s
  ELSE CASE call.op \in {"delineate", "setstream"} -> [arr |-> call.arr, mode |-> "none"]
    [] call.op = "conn" -> [arr |-> Eff(s, call), mode |-> ModeFor(cls, call.group)]
    [] call.op = "conndata" ->
         IF s.mode = "none" THEN [s EXCEPT !.mode = "reach"] ELSE s
    [] call.op = "packdata" ->
         IF s.mode = "none" \/ call.arr # <<>>
         THEN [arr |-> Eff(s, call), mode |-> "reach"] ELSE s
    [] call.op \in {"reachdata", "segdata", "irunbnd", "casc"} ->
         IF Reuse(s, call) THEN s
         ELSE [arr |-> Eff(s, call), mode |-> ModeFor(cls, call.group)]
    [] call.op = "pgsf" ->
         IF cls = "Prms" THEN [arr |-> Eff(s, call), mode |-> ModeFor(cls, call.group)]
         ELSE IF s.mode # "none" THEN s
         ELSE [arr |-> s.arr, mode |-> ModeFor(cls, call.group)]
    [] call.op = "vectors" ->
         IF call.arr = <<>> \/ call.arr = s.arr THEN s
         ELSE [arr |-> call.arr, mode |-> "none"]
    [] OTHER -> s
=============================================================================
