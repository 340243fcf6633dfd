---------------------------- MODULE TraceDamage ----------------------------
(* Judges recorded outcomes of symbols in which a block has more errors than   *)
(* it can carry: accepting it is only right where the damaged block lies       *)
(* within capacity of another codeword, and then the text is that one's.       *)
EXTENDS QRSymbol, Json, IOUtils
Recorded == JsonDeserialize(IOEnv.TRACE)
VARIABLES at, ok
Init == at \in 1..Len(Recorded) /\ ok = TRUE
Got(c) == c.plain = 1 /\ c.info = 1
Judged(c) ==
  \E r \in {ReadBlocks(c.v, c.l, Damage(BlocksOf(c.v, c.l, c.data), c.plan))} :
    IF r.ok THEN Got(c) /\ c.got = r.text /\ c.got_info = r.text /\ c.errors_info = r.errors
    ELSE c.plain = 0 /\ c.info = 0
Next == /\ at > 0
        /\ at' = 0 - at
        /\ \E c \in {Recorded[at]} : \E j \in {Judged(c)} :
             ok' = IF j THEN TRUE ELSE PrintT(<<"REJECTED", at, 1>>) /\ FALSE
Spec == Init /\ [][Next]_<<at, ok>>
Explained == ok
=============================================================================
