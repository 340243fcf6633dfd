------------------------------- MODULE PlaneMC -------------------------------
(* Every program of three steps on small values: the operations undo each other, and moving    *)
(* all points moves the results of the same program and leaves the offsets.     *)
EXTENDS Plane, TLC

Values == {<<0, 0>>, <<1, 0>>, <<0 - 2, 3>>}
Scalars == {0 - 2, 1, 3}
Shift == <<5, 0 - 7>>
Bound == 6
Within(q) == q[1] \in (0 - Bound)..Bound /\ q[2] \in (0 - Bound)..Bound
VARIABLES st, moved, left
Moved(s) == [s EXCEPT !.p = [i \in Regs |-> Add(@[i], Shift)]]
\* one register less of each kind than the harness has, to keep this small
Two == 1..2
Init == \E a \in Values, b \in Values, d \in Values, e \in Values :
          /\ st = [p |-> <<a, b, <<0, 0>>>>, d |-> <<d, e, <<0, 0>>>>]
          /\ moved = Moved(st)
          /\ left = 3
Ops == ({"p+d", "p-d", "p-p", "d+d", "d-d"} \X Two \X Two \X Two) \cup ({"d*s", "s*d", "d/s"} \X Two \X Scalars \X Two)
Next == left > 0 /\ left' = left - 1 /\ \E op \in Ops :
          /\ Defined(st, op)
          /\ Within(Result(st, op))
          /\ st' = Step(st, op)
          /\ moved' = Step(moved, op)
Spec == Init /\ [][Next]_<<st, moved, left>>
Equivariant == moved = Moved(st)
Undo ==
  \A i \in Two, j \in Two :
    /\ Sub(Add(st.p[i], st.d[j]), st.d[j]) = st.p[i]
    /\ Add(st.p[i], Sub(st.p[j], st.p[i])) = st.p[j]
    /\ Sub(Add(st.d[i], st.d[j]), st.d[i]) = st.d[j]
    /\ Add(st.p[i], Add(st.d[i], st.d[j])) = Add(Add(st.p[i], st.d[j]), st.d[i])
    /\ \A s \in Scalars : Quotient(Times(st.d[i], s), s) = st.d[i]
    /\ \A s \in Scalars : Times(Add(st.d[i], st.d[j]), s) = Add(Times(st.d[i], s), Times(st.d[j], s))
    /\ Add(st.d[i], Times(st.d[i], 2)) = Times(st.d[i], 3)
=============================================================================
