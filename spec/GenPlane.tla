------------------------------ MODULE GenPlane ------------------------------
(* Programs on points and offsets with the registers after every step, module  *)
(* matrices with every module, and errors with their messages (C22).            *)
EXTENDS Plane, QRRand, Json, TLC, SequencesExt

Out == IOEnv.OUT_DIR
Scalars == <<0 - 8, 0 - 5, 0 - 3, 0 - 2, 0 - 1, 0, 1, 2, 3, 4, 7, 10, 16, 41, 47, 49, 55, 60, 61>>
Value(s, i) == LET m == <<8, 200, 5000, 40000>>[1 + Rnd(s, i, 4)] IN
               <<Rnd(s + 1, i, m) * 37 - 17 * m, Rnd(s + 2, i, m) * 41 - 20 * m>>
OpAt(s, i) ==
  \* every now and then a multiple is divided again
  LET again == i % 6 \in {4, 5}
      k == IF again THEN (IF i % 6 = 4 THEN "s*d" ELSE "d/s") ELSE Kinds[1 + Rnd(s, i, 8)] IN
  IF again THEN <<k, 1 + Rnd(s + 3, i - (i % 6), 3), Scalars[1 + Rnd(s + 4, i - (i % 6), Len(Scalars))], 1 + Rnd(s + 3, i - (i % 6), 3)>> ELSE
  <<k, 1 + Rnd(s + 3, i, 3), IF k \in {"d*s", "s*d", "d/s"} THEN Scalars[1 + Rnd(s + 4, i, Len(Scalars))] ELSE 1 + Rnd(s + 4, i, 3), 1 + Rnd(s + 5, i, 3)>>
Program(s) ==
  LET start == [p |-> [i \in Regs |-> Value(s, i)], d |-> [i \in Regs |-> Value(s, 10 + i)]]
      run == FoldLeft(LAMBDA a, i :
                LET op == OpAt(s, i) IN
                IF Defined(a.st, op) THEN TLCEval([st |-> Step(a.st, op), ev |-> Append(a.ev, <<op, Step(a.st, op)>>)]) ELSE a,
                [st |-> start, ev |-> <<>>], [i \in 1..40 |-> i])
  IN [kind |-> "program", start |-> start, ev |-> run.ev]

\* pixels other than 0 are light, whatever their value
Pixel(s, i) == <<0, 255, 0, 255, 0, 1, 254>>[1 + Rnd(s, i, 7)]
MatrixCase(v) ==
  LET n == Side(v)
      data == [i \in 1..(n * n) |-> Pixel(v, i)]
  IN [kind |-> "matrix", v |-> v, side |-> n, data |-> data,
      rows |-> [y \in 1..n |-> [x \in 1..n |-> ModuleIn(data, v, x - 1, y - 1)]]]

Messages == <<"", "x", "X", "no code", "no code ", "{}", "Error decoding QR Code: ", "a\nb">>
ErrorCase(a, b) == [kind |-> "error", a |-> Messages[a], b |-> Messages[b], equal |-> Messages[a] = Messages[b]]

Matrices == IF Thorough THEN 1..40 ELSE {1, 2, 3, 6, 7, 14, 22, 40}
Programs == IF Thorough THEN 60 ELSE 12
VARIABLE job
Init == job \in ({"p"} \X (1..Programs)) \cup ({"m"} \X Matrices) \cup {<<"e", 1>>}
Next == /\ job[2] > 0
        /\ \E cs \in {CASE job[1] = "p" -> [i \in 1..100 |-> Program(job[2] * 100 + i)]
                        [] job[1] = "m" -> <<MatrixCase(job[2])>>
                        [] job[1] = "e" -> [i \in 1..(Len(Messages) * Len(Messages)) |->
                              ErrorCase(1 + ((i - 1) % Len(Messages)), 1 + ((i - 1) \div Len(Messages)))]} :
             JsonSerialize(Out \o "/plane-" \o job[1] \o "-" \o ToString(job[2]) \o ".json", cs)
        /\ job' = <<job[1], 0 - job[2]>>
Spec == Init /\ [][Next]_job
=============================================================================
