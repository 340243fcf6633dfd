-------------------------------- MODULE Plane --------------------------------
(* The values components hand to each other: points and offsets of the plane   *)
(* (util::Point, util::Delta), module matrices (util::qr::QRData).              *)
(* A machine of three points and three offsets; coordinates are integers (the   *)
(* harness divides by 64, which a float holds exactly).                         *)
EXTENDS Integers, Sequences

Regs == 1..3
Limit == 2 ^ 25
Small(q) == q[1] < Limit /\ 0 - q[1] < Limit /\ q[2] < Limit /\ 0 - q[2] < Limit
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Times(a, s) == <<a[1] * s, a[2] * s>>
Divides(s, a) == s # 0 /\ (a[1] % (IF s < 0 THEN 0 - s ELSE s)) = 0 /\ (a[2] % (IF s < 0 THEN 0 - s ELSE s)) = 0
Quotient(a, s) == IF s > 0 THEN <<a[1] \div s, a[2] \div s>> ELSE <<(0 - a[1]) \div (0 - s), (0 - a[2]) \div (0 - s)>>

Kinds == <<"p+d", "p-d", "p-p", "d+d", "d-d", "d*s", "s*d", "d/s">>
\* <<kind, source, source or scalar, destination>>
Result(st, op) ==
  CASE op[1] = "p+d" -> Add(st.p[op[2]], st.d[op[3]])
    [] op[1] = "p-d" -> Sub(st.p[op[2]], st.d[op[3]])
    [] op[1] = "p-p" -> Sub(st.p[op[2]], st.p[op[3]])
    [] op[1] = "d+d" -> Add(st.d[op[2]], st.d[op[3]])
    [] op[1] = "d-d" -> Sub(st.d[op[2]], st.d[op[3]])
    [] op[1] = "d*s" -> Times(st.d[op[2]], op[3])
    [] op[1] = "s*d" -> Times(st.d[op[2]], op[3])
    [] op[1] = "d/s" -> Quotient(st.d[op[2]], op[3])
Scaled(op) == op[1] \in {"d*s", "s*d", "d/s"}
Defined(st, op) ==
  IF op[1] = "d/s" THEN Divides(op[3], st.d[op[2]])
  ELSE IF Scaled(op) THEN op[3] < 64 /\ op[3] > 0 - 64 /\ Small(st.d[op[2]]) /\ st.d[op[2]][1] < 2 ^ 24 /\ Small(Result(st, op))
  ELSE Small(Result(st, op))
Step(st, op) == IF op[1] \in {"p+d", "p-d"} THEN [st EXCEPT !.p[op[4]] = Result(st, op)]
                ELSE [st EXCEPT !.d[op[4]] = Result(st, op)]

\* a module matrix: pixels row by row; a module is dark (1) where the pixel is 0
Side(v) == 4 * v + 17
ModuleIn(data, v, x, y) == IF data[y * Side(v) + x + 1] = 0 THEN 1 ELSE 0
=============================================================================
