------------------------------ MODULE History ------------------------------
(* Decoding as a relation between calls and results. A call applies one stage  *)
(* or a whole decoder (what) to a picture; what is visible of the picture is   *)
(* all that matters (shown). The library is correct when there is a function   *)
(* from (what, shown) to results that all calls of a history agree with,       *)
(* whatever was called before, on which component, in which thread, from which *)
(* container the picture came, and with which build of the library (how).      *)
(* `known` is what a history has revealed of that function.                    *)
EXTENDS Integers, Sequences, TLC
VARIABLE known
HInit == known = <<>>
Agrees(call, result) == IF call \in DOMAIN known THEN known[call] = result ELSE TRUE
Learn(call, result) == known' = IF call \in DOMAIN known THEN known ELSE known @@ (call :> result)
Call(call, result) == Agrees(call, result) /\ Learn(call, result)
=============================================================================
