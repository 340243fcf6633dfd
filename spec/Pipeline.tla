------------------------------ MODULE Pipeline ------------------------------
(* One decode call (Decoder::decode) with arbitrary components.                *)
(*   fate[i] says what happens to the i-th detected location:                  *)
(*     "ok"      extraction and decoding succeed                               *)
(*     "xfail"   extraction fails, the decoder passes the error on             *)
(*     "xsaved"  extraction fails, the decoder makes a result of it anyway     *)
(*     "dfail"   extraction succeeds, decoding fails                           *)
(* Extraction and decoding of different locations may interleave; each goes    *)
(* through the locations in detection order.                                   *)
EXTENDS Integers, Sequences, SequencesExt

Fates == {"ok", "xfail", "xsaved", "dfail"}

VARIABLES fate, prepared, detected, extracted, decoded, returned
pvars == <<fate, prepared, detected, extracted, decoded, returned>>

PInit == /\ prepared = FALSE /\ detected = FALSE
         /\ extracted = 0 /\ decoded = 0
         /\ returned = <<>>
Start(f) == fate = f

Prepare == ~prepared /\ prepared' = TRUE /\ UNCHANGED <<fate, detected, extracted, decoded, returned>>
Detect == prepared /\ ~detected /\ detected' = TRUE
          /\ UNCHANGED <<fate, prepared, extracted, decoded, returned>>
\* extraction of location i, on the prepared image
Extract(i) == /\ detected /\ i = extracted + 1 /\ i <= Len(fate)
              /\ extracted' = i
              /\ UNCHANGED <<fate, prepared, detected, decoded, returned>>
\* what the decoder is given for location i
Handed(i) == IF fate[i] \in {"xfail", "xsaved"} THEN "error" ELSE "data"
ResultOf(i) == CASE fate[i] \in {"ok", "xsaved"} -> <<"ok", i>>
                 [] fate[i] = "xfail" -> <<"x", i>>
                 [] fate[i] = "dfail" -> <<"d", i>>
Decode(i, given) == /\ detected /\ i = decoded + 1 /\ i <= extracted
                    /\ given = Handed(i)
                    /\ decoded' = i
                    /\ UNCHANGED <<fate, prepared, detected, extracted, returned>>
Return == /\ detected /\ decoded = Len(fate) /\ returned = <<>>
          /\ returned' = <<[i \in 1..Len(fate) |-> ResultOf(i)]>>
          /\ UNCHANGED <<fate, prepared, detected, extracted, decoded>>

PNext == \/ Prepare \/ Detect \/ Return
         \/ \E i \in 1..Len(fate) : Extract(i) \/ \E g \in {"data", "error"} : Decode(i, g)
=============================================================================
