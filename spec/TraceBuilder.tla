---------------------------- MODULE TraceBuilder ----------------------------
(* Recorded builder histories: setter calls, then the build with its outcome   *)
(* and, when it succeeds, the components the decoder was seen to use.          *)
EXTENDS Builder, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, rejected
vars == <<slot, built, t, l, rejected>>
TInit == t \in 1..Len(Traces) /\ l = 1 /\ rejected = FALSE /\ BInit(Traces[t].start)
E == Traces[t].ev[l]
Is(name) == ~rejected /\ l <= Len(Traces[t].ev) /\ E[1] = name
TSet == Is("set") /\ Set(E[2], E[3]) /\ l' = l + 1 /\ UNCHANGED <<t, rejected>>
\* <<"build", outcome, prepare, detect, extract, decode>>
TBuild == /\ Is("build") /\ Build /\ built' = E[2]
          /\ E[2] = "decoder" => /\ E[3] = slot["prepare"] /\ E[4] = slot["detect"]
                                 /\ E[5] = slot["qr"] /\ E[6] = slot["qr"]
          /\ l' = l + 1 /\ UNCHANGED <<t, rejected>>
Matched == TSet \/ TBuild
Reject == /\ ~rejected /\ l <= Len(Traces[t].ev) /\ ~ENABLED Matched
          /\ rejected' = PrintT(<<"REJECTED", t, l, E>>)
          /\ UNCHANGED <<slot, built, t, l>>
TSpec == TInit /\ [][Matched \/ Reject]_vars
Accepted == ~rejected
=============================================================================
