----------------------------- MODULE HistoryMC -----------------------------
(* The monitor History accepts exactly the histories that some function of the *)
(* call explains: every history up to Depth over 2 stages, 2 pictures and 2    *)
(* results is tried.                                                           *)
EXTENDS History, FiniteSets
CONSTANT Depth
Calls == {"plain", "info"} \X {1, 2}
Results == {"a", "b"}
VARIABLES log, accepted
Init == HInit /\ log = <<>> /\ accepted = TRUE
Next == /\ Len(log) < Depth
        /\ \E c \in Calls, r \in Results :
             /\ log' = Append(log, <<c, r>>)
             /\ accepted' = (accepted /\ Agrees(c, r))
             /\ Learn(c, r)
Spec == Init /\ [][Next]_<<known, log, accepted>>
Explained == \E f \in [Calls -> Results] : \A i \in 1..Len(log) : f[log[i][1]] = log[i][2]
MonitorIsExact == accepted <=> Explained
=============================================================================
