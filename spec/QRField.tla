------------------------------ MODULE QRField ------------------------------
(* Finite field arithmetic used by QR error correction.                       *)
(* GF(256) is GF(2)[x] / (x^8+x^4+x^3+x^2+1) (0x11D) with generator x (= 2).   *)
(* Everything is derived from "multiply by x and reduce": no table is copied   *)
(* from the implementation.                                                    *)
EXTENDS Integers, Sequences, Bitwise, SequencesExt

BXor(a, b) == a ^^ b

TimesX(a) == IF 2 * a > 255 THEN BXor(2 * a, 285) ELSE 2 * a

\* EXP[i+1] = x^i, 0 <= i < 510 (doubled so that products need no modulo)
EXP == FoldLeft(LAMBDA acc, i : Append(acc, TimesX(acc[i])), <<1>>, [i \in 1..509 |-> i])
Exp(i) == EXP[(i % 255) + 1]

\* LOG[a] for 1 <= a <= 255
LOG == FoldLeft(LAMBDA acc, i : [acc EXCEPT ![EXP[i]] = i - 1],
                [a \in 1..255 |-> 0], [i \in 1..255 |-> i])

Mul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE EXP[LOG[a] + LOG[b] + 1]
Inv(a)    == EXP[((255 - LOG[a]) % 255) + 1]
Div(a, b) == Mul(a, Inv(b))
=============================================================================
