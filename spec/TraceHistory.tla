---------------------------- MODULE TraceHistory ----------------------------
(* Recorded histories against History. Events are <<what, shown, result, how>>. *)
(* Calls for different pictures say nothing about each other, so the events    *)
(* come sorted by picture, one line of the trace file for each.                *)
EXTENDS History, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, rejected
E == Traces[t].ev[l]
TInit == HInit /\ t \in 1..Len(Traces) /\ l = 1 /\ rejected = 0
TNext == /\ l <= Len(Traces[t].ev)
         /\ Assert(E[2] = Traces[t].shown, <<"events of another picture", t, l>>)
         /\ t' = t /\ l' = l + 1
         /\ \/ Call(<<E[1], E[2]>>, E[3]) /\ UNCHANGED rejected
            \/ /\ ~Agrees(<<E[1], E[2]>>, E[3])
               /\ PrintT(<<"REJECTED", t, l, E, known[<<E[1], E[2]>>]>>)
               /\ rejected' = rejected + 1
               /\ UNCHANGED known
TSpec == TInit /\ [][TNext]_<<known, t, l, rejected>>
Accepted == rejected = 0
=============================================================================
