--------------------------- MODULE QRReedSolomon ---------------------------
(* Reed-Solomon codes over the field of QRField: generator polynomials, parity,*)
(* and decoding up to a given number of errors (bounded distance): the word    *)
(* is brought to the one codeword within that distance, or refused.            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, QRField, TLC

\* g(x) = (x - a^0)(x - a^1)...(x - a^(n-1)); coefficients high to low,
\* leading 1 included
RECURSIVE GenPoly(_)
GenPoly(n) ==
  IF n = 0 THEN <<1>>
  ELSE LET p == TLCEval(GenPoly(n - 1))
           a == Exp(n - 1)
       IN TLCEval([i \in 1..(n + 1) |->
             BXor(IF i <= n THEN p[i] ELSE 0,
                 IF i >= 2 THEN Mul(a, p[i - 1]) ELSE 0)])
Generator(n) == Tail(GenPoly(n))

Parity(data, g) ==
  LET n == Len(g) IN
  FoldLeft(LAMBDA rem, d :
      LET f == BXor(d, rem[1]) IN
      TLCEval([i \in 1..n |-> BXor(IF i < n THEN rem[i + 1] ELSE 0, Mul(f, g[i]))]),
    [i \in 1..n |-> 0], data)

Sum(seq) == FoldLeft(LAMBDA a, b : BXor(a, b), 0, seq)

\* S[j+1] = word(a^j), Horner
Syndromes(word, ec) ==
  [j \in 1..ec |-> FoldLeft(LAMBDA acc, c : BXor(Mul(acc, Exp(j - 1)), c), 0, word)]
IsCodeword(word, ec) == \A j \in 1..ec : Syndromes(word, ec)[j] = 0

(* Berlekamp-Massey: shortest recurrence of the syndromes. C[i+1] is the       *)
(* coefficient of x^i of the error locator.                                    *)
Locator(S) ==
  LET ec == Len(S)
      one == [i \in 1..(ec + 2) |-> IF i = 1 THEN 1 ELSE 0]
      upd(s, d) == TLCEval([i \in 1..(ec + 2) |->
                     BXor(s.C[i], IF i > s.m THEN Mul(Div(d, s.b), s.B[i - s.m]) ELSE 0)])
      step(s, n) ==        \* n = 0 .. ec-1
        LET d == TLCEval(Sum([i \in 1..(s.L + 1) |-> Mul(s.C[i], S[n - i + 2])])) IN
        IF d = 0 THEN [s EXCEPT !.m = @ + 1]
        ELSE IF 2 * s.L <= n
             THEN [C |-> upd(s, d), B |-> s.C, L |-> n + 1 - s.L, b |-> d, m |-> 1]
             ELSE [s EXCEPT !.C = upd(s, d), !.m = @ + 1]
  IN FoldLeft(LAMBDA s, n : TLCEval(step(s, n - 1)),
              [C |-> one, B |-> one, L |-> 0, b |-> 1, m |-> 1], [n \in 1..ec |-> n])

Eval(poly, x) == \* low to high coefficients
  FoldLeft(LAMBDA acc, c : BXor(Mul(acc, x), c), 0, Reverse(poly))

Refused == [ok |-> FALSE, word |-> <<>>, bits |-> 0, wrong |-> 0]

BitCount(b) == FoldLeft(LAMBDA a, k : a + ((b \div 2 ^ (k - 1)) % 2), 0, <<1, 2, 3, 4, 5, 6, 7, 8>>)

Decode(word, ec, t) ==
  LET n == Len(word)
      S == TLCEval(Syndromes(word, ec))
  IN IF \A j \in 1..ec : S[j] = 0 THEN [ok |-> TRUE, word |-> word, bits |-> 0, wrong |-> 0]
     ELSE
     LET lc == TLCEval(Locator(S))
         L == lc.L
         C == SubSeq(lc.C, 1, L + 1)
         \* position p (1-based from the front) is the power n - p
         X(p) == Exp(n - p)
         roots == TLCEval({p \in 1..n : Eval(C, Inv(X(p))) = 0})
     IN IF L > t \/ L + 2 > Len(lc.C) \/ Cardinality(roots) # L THEN Refused
        ELSE
        LET omega == TLCEval([i \in 1..ec |->
                        Sum([j \in 1..(IF i < L + 1 THEN i ELSE L + 1) |-> Mul(C[j], S[i - j + 1])])])
            deriv == TLCEval([i \in 1..L |-> IF i % 2 = 1 THEN C[i + 1] ELSE 0])
            mag(p) == LET xi == Inv(X(p)) IN
                      Mul(X(p), Div(Eval(omega, xi), Eval(deriv, xi)))
            singular == \E p \in roots : Eval(deriv, Inv(X(p))) = 0
        IN IF singular THEN Refused
           ELSE
           LET err == TLCEval([p \in 1..n |-> IF p \in roots THEN mag(p) ELSE 0])
               fixed == TLCEval([p \in 1..n |-> BXor(word[p], err[p])])
           IN IF \A j \in 1..ec : Syndromes(fixed, ec)[j] = 0
              THEN [ok |-> TRUE, word |-> fixed,
                    bits |-> FoldLeft(LAMBDA a, b : a + BitCount(b), 0, err),
                    wrong |-> Cardinality({p \in roots : err[p] # 0})]
              ELSE Refused
=============================================================================
