-------------------------------- MODULE RSMC --------------------------------
(* The reference decoder of QRReedSolomon, exhaustively on short codes: every  *)
(* set of up to t+1 positions, every combination of values out of Vals.        *)
EXTENDS QRReedSolomon

\* <<length, parity codewords, capacity>>
Codes == {<<6, 2, 1>>, <<7, 4, 2>>, <<7, 4, 1>>, <<8, 6, 3>>, <<8, 5, 2>>}
Vals == {1, 2, 142, 255}
Word(c) == LET d == [i \in 1..(c[1] - c[2]) |-> (i * 91 + c[1]) % 256] IN d \o Parity(d, Generator(c[2]))

VARIABLES code, pos, err, got
vars == <<code, pos, err, got>>
None == [ok |-> FALSE, word |-> <<>>, bits |-> 0 - 1, wrong |-> 0]
Init == /\ code \in Codes
        /\ pos = 1
        /\ err = [i \in 1..code[1] |-> 0]
        /\ got = None
Weight(e) == Cardinality({i \in DOMAIN e : e[i] # 0})
Received == LET w == Word(code) IN [i \in 1..code[1] |-> BXor(w[i], err[i])]
\* damage the next codeword, or leave it
Hit(x) == /\ pos <= code[1] /\ Weight(err) <= code[3]
          /\ err' = [err EXCEPT ![pos] = x] /\ pos' = pos + 1 /\ UNCHANGED <<code, got>>
Skip == pos <= code[1] /\ pos' = pos + 1 /\ UNCHANGED <<code, err, got>>
Correct == /\ pos = code[1] + 1 /\ pos' = pos + 1
           /\ got' = Decode(Received, code[2], code[3]) /\ UNCHANGED <<code, err>>
Next == (\E x \in Vals : Hit(x)) \/ Skip \/ Correct
Spec == Init /\ [][Next]_vars

Corrected == pos = code[1] + 2
Bits == FoldLeft(LAMBDA a, b : a + BitCount(b), 0, err)
\* up to capacity: the original word and the exact number of wrong bits
Repairs == (Corrected /\ Weight(err) <= code[3]) =>
             got.ok /\ got.word = Word(code) /\ got.bits = Bits /\ got.wrong = Weight(err)
\* beyond: refused, or a codeword within capacity of what was received
Sound == (Corrected /\ got.ok) =>
           /\ IsCodeword(got.word, code[2])
           /\ Weight([i \in 1..code[1] |-> BXor(got.word[i], Received[i])]) <= code[3]
=============================================================================
