----------------------------- MODULE CornersMC -----------------------------
(* The corners of every symbol of Scene.tla, in every turn and tilt, are taken  *)
(* for a code of its version by Corners.tla, and nothing else is made of them.  *)
EXTENDS Corners, Scene

VARIABLES v, s, turn, tilt
Init == v \in 1..40 /\ s \in {2, 3, 5, 8} /\ turn \in 0..3 /\ tilt = 0
Next == tilt < Len(Tilts) /\ tilt' = tilt + 1 /\ UNCHANGED <<v, s, turn>>
Spec == Init /\ [][Next]_<<v, s, turn, tilt>>

Rotation == Compose(Turn(turn), IF tilt = 0 THEN Tilts[1] ELSE Tilts[tilt])
P == [sn |-> s, sd |-> 1, a |-> Rotation[1], b |-> Rotation[2], c |-> Rotation[3], ox |-> 0, oy |-> 0, g |-> 0, h |-> 0, bend |-> <<1, 0>>]
F == Finders(P, ModulesOf(v))
\* rounded to half pixels
At(q) == << (2 * q[1]) \div F.den, (2 * q[2]) \div F.den, s >>
Seen == <<At(F.tl), At(F.tr), At(F.bl)>>
Taken == \E e \in {Expected(Seen)} :
           /\ DOMAIN e = {<<1, 2, 3>>}
           /\ e[<<1, 2, 3>>].must /\ e[<<1, 2, 3>>].versions = {v}
=============================================================================
