---------------------------- MODULE TracePipeline ----------------------------
(* Recorded decode calls with recording components, checked against Pipeline.  *)
(* An event is <<"prepare", same source>>, <<"detect", same image>>,           *)
(* <<"extract", i, same image, same location>>, <<"decode", i, given, intact>>, *)
(* or <<"return", results>> where a result is <<kind, i>>.                     *)
EXTENDS Pipeline, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, rejected
vars == <<pvars, t, l, rejected>>
TInit == /\ t \in 1..Len(Traces) /\ l = 1 /\ rejected = FALSE
         /\ PInit /\ Start(Traces[t].fate)
E == Traces[t].ev[l]
Is(name) == ~rejected /\ l <= Len(Traces[t].ev) /\ E[1] = name
Step(A) == A /\ l' = l + 1 /\ UNCHANGED <<t, rejected>>
TPrepare == Is("prepare") /\ E[2] = TRUE /\ Step(Prepare)
TDetect == Is("detect") /\ E[2] = TRUE /\ Step(Detect)
TExtract == Is("extract") /\ E[3] = TRUE /\ E[4] = TRUE /\ Step(Extract(E[2]))
TDecode == Is("decode") /\ E[4] = TRUE /\ Step(Decode(E[2], E[3]))
TReturn == Is("return") /\ Step(Return) /\ returned' = <<E[2]>>
Matched == TPrepare \/ TDetect \/ TExtract \/ TDecode \/ TReturn
Reject == /\ ~rejected /\ l <= Len(Traces[t].ev) /\ ~ENABLED Matched
          /\ rejected' = PrintT(<<"REJECTED", t, l, E>>)
          /\ UNCHANGED <<pvars, t, l>>
\* a call that stops without returning
Cut == /\ ~rejected /\ l = Len(Traces[t].ev) + 1 /\ returned = <<>>
       /\ rejected' = PrintT(<<"REJECTED", t, l, "no return">>)
       /\ UNCHANGED <<pvars, t, l>>
TSpec == TInit /\ [][Matched \/ Reject \/ Cut]_vars
Accepted == ~rejected
=============================================================================
