----------------------------- MODULE BuilderMC -----------------------------
EXTENDS Builder
CONSTANTS Components, MaxSets
VARIABLES start, hist
vars == <<slot, built, start, hist>>
Init == start \in Starts /\ BInit(start) /\ hist = <<>>
Next == \/ \E s \in Slots, k \in Components :
              Len(hist) < MaxSets /\ Set(s, k) /\ hist' = Append(hist, <<s, k>>) /\ UNCHANGED start
        \/ Build /\ UNCHANGED <<start, hist>>
Spec == Init /\ [][Next]_vars
LastSet(s) == LET is == {i \in 1..Len(hist) : hist[i][1] = s} IN
  IF is = {} THEN (IF start = "new" THEN 0 ELSE Default)
  ELSE hist[CHOOSE i \in is : \A j \in is : j <= i][2]
LastWins == \A s \in Slots : slot[s] = LastSet(s)
BuildableExactly == built # "no" => ((built = "panic") <=>
   (start = "new" /\ \E s \in Slots : \A i \in 1..Len(hist) : hist[i][1] # s))
BuiltIsFinal == [][built # "no" => UNCHANGED <<slot, built>>]_vars
=============================================================================
