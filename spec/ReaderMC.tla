------------------------------ MODULE ReaderMC ------------------------------
(* The reading state machine of Segments, step by step, on all short codeword  *)
(* sequences over an alphabet that starts every kind of segment.               *)
EXTENDS Segments

CONSTANTS Len0, Alphabet, Vers
VARIABLES cw, v, s, steps
vars == <<cw, v, s, steps>>
Init == /\ cw \in [1..Len0 -> Alphabet] /\ v \in Vers
        /\ s = Start /\ steps = 0
TakeMode == s.st = "mode" /\ s' = Step(cw, v, s) /\ steps' = steps + 1 /\ UNCHANGED <<cw, v>>
TakeGroup == s.st = "data" /\ s.mode # BYT /\ s' = Step(cw, v, s) /\ steps' = steps + 1 /\ UNCHANGED <<cw, v>>
TakeBytes == s.st = "data" /\ s.mode = BYT /\ s' = Step(cw, v, s) /\ steps' = steps + 1 /\ UNCHANGED <<cw, v>>
Next == TakeMode \/ TakeGroup \/ TakeBytes
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InBounds == s.pos >= 0 /\ s.pos <= 8 * Len(cw)
ShortRun == steps <= 2 * Len(cw) + 2                 \* what Read relies on
Progress == [][s'.pos > s.pos \/ Ended(s')]_vars
OutGrows == [][s'.st # "err" => IsPrefix(s.out, s'.out)]_vars
TextIsUtf8 == ValidUtf8(s.out)
RejectedIsEmpty == s.st = "err" => s.out = <<>>
SameAsRead == Ended(s) => Read(cw, v) = s
Halts == <>Ended(s)
=============================================================================
