----------------------------- MODULE PipelineMC -----------------------------
EXTENDS Pipeline
CONSTANT MaxLocs
AllFates == UNION {[1..n -> Fates] : n \in 0..MaxLocs}
Init == (\E f \in AllFates : Start(f)) /\ PInit
Spec == Init /\ [][PNext]_pvars /\ WF_pvars(PNext)

Ordered == decoded <= extracted /\ extracted <= Len(fate)
NothingBeforeDetection == (extracted > 0 \/ decoded > 0 \/ returned # <<>>) => detected /\ prepared
OneResultEach == returned # <<>> =>
  /\ Len(returned[1]) = Len(fate)
  /\ \A i \in 1..Len(fate) : returned[1][i][2] = i
\* an error for one code leaves the results of the others untouched
Independent == returned # <<>> =>
  \A i \in 1..Len(fate) : (returned[1][i][1] = "ok") = (fate[i] \in {"ok", "xsaved"})
Returns == <>(returned # <<>>)
=============================================================================
