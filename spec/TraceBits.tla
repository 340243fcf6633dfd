------------------------------ MODULE TraceBits ------------------------------
(* Recorded runs of the real bit reader, checked step by step against          *)
(* BitReader: an event that the specification does not allow is a rejection.   *)
EXTENDS BitReader, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE)        \* each: [data |-> .., ev |-> <<<<op, n, granted, value>>, ..>>]
VARIABLES t, l, pos, rejected
vars == <<t, l, pos, rejected>>
Init == t \in 1..Len(Traces) /\ l = 1 /\ pos = 0 /\ rejected = FALSE
Event == Traces[t].ev[l]
Take == /\ l <= Len(Traces[t].ev) /\ ~rejected
        /\ \E e \in {Event} : \E r \in {Request(Traces[t].data, pos, e[1], e[2])} :
             IF r[1] = e[3] /\ (r[1] = 1 => r[2] = e[4])
             THEN pos' = r[3] /\ rejected' = FALSE
             ELSE pos' = pos /\ rejected' = PrintT(<<"REJECTED", t, l, e>>)
        /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Take]_vars
Accepted == ~rejected
=============================================================================
