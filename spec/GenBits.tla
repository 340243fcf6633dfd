------------------------------ MODULE GenBits ------------------------------
(* Histories of requests with their required answers. A history leads to a     *)
(* position, makes arbitrary requests there, and then reads the rest in pieces *)
(* (which exposes any hidden state of the reader).                             *)
EXTENDS BitReader, QRRand, Json, TLC

Out == IOEnv.OUT_DIR
Sizes == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 24, 200, 255>>
OpSeq == <<"chomp", "chomp_or", "chomp_or_u16">>
NumReq == 3 * Len(Sizes)
Req(k) == <<OpSeq[((k - 1) % 3) + 1], Sizes[((k - 1) \div 3) + 1]>>

\* runs a sequence of requests: sequence of <<op, n, granted, value>>
Run(data, reqs) ==
  FoldLeft(LAMBDA a, q :
     LET r == TLCEval(Request(data, a.pos, q[1], q[2])) IN
     TLCEval([pos |-> r[3], ev |-> Append(a.ev, <<q[1], q[2], r[1], r[2]>>)]),
   [pos |-> 0, ev |-> <<>>], reqs).ev

\* ways to get to position p
Path(p, style) ==
  LET big == [i \in 1..(p \div 8) |-> <<"chomp", 8>>]
      rest == IF p % 8 = 0 THEN <<>> ELSE <<<<"chomp", p % 8>>>>
  IN CASE style = 0 -> big \o rest
       [] style = 1 -> rest \o big
       [] style = 2 -> [i \in 1..p |-> <<"chomp_or", 1>>]
       [] style = 3 -> (IF p >= 16 THEN <<<<"chomp_or_u16", 16>>>> ELSE <<>>)
                       \o (IF p % 16 = 0 THEN <<>> ELSE <<<<"chomp_or_u16", p % 16>>>>)
\* reading on until nothing is left, in pieces of k bits, then bit by bit
Drain(k, n) == [i \in 1..(n \div k) |-> <<"chomp", k>>] \o [i \in 1..8 |-> <<"chomp", 1>>]

Strings == <<<<165, 60, 129>>, <<255, 0, 255>>, <<1, 128, 254>>, <<>>, <<77>>, <<90, 195>>>>
Job(d, p) == \* all single requests and pairs of requests at position p of string d
  LET data == Strings[d]
      style == (p + d) % 4
      h(a, b) == [data |-> data,
                  ev |-> Run(data, Path(p, style) \o <<Req(a)>> \o (IF b = 0 THEN <<>> ELSE <<Req(b)>>)
                                  \o Drain(1 + ((a + b) % 8), 8 * Len(data)))]
  IN IF Thorough THEN [x \in 1..(NumReq * (NumReq + 1)) |-> h(((x - 1) % NumReq) + 1, (x - 1) \div NumReq)]
     ELSE [x \in 1..(NumReq * 9) |->
             LET a == ((x - 1) % NumReq) + 1 IN
             h(a, IF x <= NumReq THEN 0 ELSE 1 + Rnd(d * 30 + p, x, NumReq))]

VARIABLE job
Init == job \in {<<d, p>> \in (1..Len(Strings)) \X (0..24) : p <= 8 * Len(Strings[d])}
Next == /\ job[1] > 0
        /\ \E d \in {job[1]}, p \in {job[2]} : \E cs \in {Job(d, p)} :
             JsonSerialize(Out \o "/bits-" \o ToString(d) \o "-" \o ToString(p) \o ".json", cs)
        /\ job' = <<0 - job[1], job[2]>>
Spec == Init /\ [][Next]_job
=============================================================================
