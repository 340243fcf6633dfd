---------------------------- MODULE BitReaderMC ----------------------------
(* All histories of requests on short byte strings: what was granted is always *)
(* the beginning of the string, nothing is lost, repeated or skipped.          *)
EXTENDS BitReader, FiniteSets

Strings == {<<>>, <<165>>, <<255, 0>>, <<129, 126>>, <<1, 128, 37>>, <<202, 254, 186, 190>>}
Sizes == 0..17 \cup {24, 255}
VARIABLES data, pos, got, refused
vars == <<data, pos, got, refused>>
Init == data \in Strings /\ pos = 0 /\ got = <<>> /\ refused = FALSE
Do(op, n) ==
  \E r \in {Request(data, pos, op, n)} :
     /\ pos' = r[3]
     /\ got' = IF r[1] = 1 THEN got \o [i \in 1..n |-> (r[2] \div 2 ^ (n - i)) % 2] ELSE got
     /\ refused' = (r[1] = 0)
     /\ UNCHANGED data
Next == \E op \in Ops, n \in Sizes : Do(op, n)
Spec == Init /\ [][Next]_vars

InBounds == pos \in 0..Total(data)
Faithful == got = [i \in 1..pos |-> Bit(data, i - 1)]
RefusalIsNoOp == [][refused' => (pos' = pos /\ got' = got)]_vars
\* a request for bits that are there is never refused
Generous == \A op \in Ops, n \in Sizes : (n \in 1..Limit(op) /\ n <= Total(data) - pos) => Granted(data, pos, op, n)
=============================================================================
