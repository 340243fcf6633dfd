------------------------------ MODULE Builder ------------------------------
(* The builder: one slot per component, the last setter wins, building needs   *)
(* all three. Slot values: 0 = nothing set, 100 = the documented default,      *)
(* other numbers = components of the user.                                     *)
EXTENDS Integers, Sequences, SequencesExt
Starts == {"new", "default", "default_info"}
Slots == {"prepare", "detect", "qr"}
Default == 100
VARIABLES slot, built          \* built: "no", "panic" or the components in use
bvars == <<slot, built>>
BInit(start) == /\ slot = [s \in Slots |-> IF start = "new" THEN 0 ELSE Default]
                /\ built = "no"
Set(s, k) == built = "no" /\ slot' = [slot EXCEPT ![s] = k] /\ UNCHANGED built
Build == /\ built = "no"
         /\ built' = IF \E s \in Slots : slot[s] = 0 THEN "panic" ELSE "decoder"
         /\ UNCHANGED slot
=============================================================================
