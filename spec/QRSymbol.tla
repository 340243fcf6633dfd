------------------------------ MODULE QRSymbol ------------------------------
(* Whole symbols: data codewords to blocks to codeword stream to modules, and  *)
(* the reading of (possibly damaged) blocks: what a decoder has to return.     *)
EXTENDS QRStd, QRReedSolomon, Segments

\* a fold gives a concrete sequence, which TLC evaluates once
Generators == FoldLeft(LAMBDA a, n : Append(a, Generator(n)), <<>>, [n \in 1..30 |-> n])

Offset(v, l, b) == LET sd == ShortTotal(v, l) - Ec(v, l)
                       ns == NumShort(v, l)
                   IN (b - 1) * sd + (IF b > ns + 1 THEN b - ns - 1 ELSE 0)
\* the blocks (data and parity codewords) of a symbol holding `data`
BlocksOf(v, l, data) ==
  [b \in 1..NB(v, l) |->
     LET d == SubSeq(data, Offset(v, l, b) + 1, Offset(v, l, b) + BlockData(v, l, b))
     IN d \o Parity(d, Generators[Ec(v, l)])]

Stream(v, l, blocks) ==
  LET o == TLCEval(InterleaveOrder(v, l)) IN [k \in 1..Len(o) |-> blocks[o[k][1]][o[k][2]]]

(* A damage plan is a set of <<block, position, xor>>.                         *)
Damage(blocks, plan) ==
  FoldLeft(LAMBDA bs, d : [bs EXCEPT ![d[1]][d[2]] = BXor(@, d[3])], blocks, plan)

(* What reading the blocks must give.                                          *)
ReadBlocks(v, l, blocks) ==
  LET dec == TLCEval([b \in 1..NB(v, l) |-> Decode(blocks[b], Ec(v, l), Cap(v, l))])
  IN IF \E b \in 1..NB(v, l) : ~dec[b].ok
     THEN [ok |-> FALSE, text |-> <<>>, errors |-> 0, why |-> "damage"]
     ELSE LET data == TLCEval(FoldLeft(LAMBDA a, b : a \o SubSeq(dec[b].word, 1, BlockData(v, l, b)),
                                <<>>, [b \in 1..NB(v, l) |-> b]))
              r == TLCEval(Read(data, v))
          IN IF r.st = "done"
             THEN [ok |-> TRUE, text |-> r.out,
                   errors |-> FoldLeft(LAMBDA a, d : a + d.bits, 0, dec), why |-> "content"]
             ELSE [ok |-> FALSE, text |-> <<>>, errors |-> 0, why |-> "content"]

(* All modules, 1 = dark; used to check the harness's own assembly.            *)
Modules(v, l, m, data) ==
  LET s == Side(v)
      cs == TLCEval(AlignCentres(v))
      ord == TLCEval(DataOrder(v))
      str == TLCEval(Stream(v, l, TLCEval(BlocksOf(v, l, data))))
      w == FormatWord(l, m)
      base == TLCEval([k \in 1..(s * s) |->
                LET x == (k - 1) % s  y == (k - 1) \div s IN
                IF IsFunction(v, cs, x, y) THEN (IF FunctionDark(v, cs, x, y) THEN 1 ELSE 0) ELSE 0])
      withData == FoldLeft(LAMBDA a, k :
                LET idx == ord[k]  x == idx % s  y == idx \div s
                    bit == IF (k - 1) \div 8 < Len(str)
                           THEN BitAt(str[(k - 1) \div 8 + 1], 7 - ((k - 1) % 8)) ELSE 0
                IN [a EXCEPT ![idx + 1] = BXor(bit, MaskBit(m, x, y))],
              base, [k \in 1..Len(ord) |-> k])
  IN FoldLeft(LAMBDA a, i : [a EXCEPT ![Fmt1(v, i - 1) + 1] = BitAt(w, i - 1),
                                      ![Fmt2(v, i - 1) + 1] = BitAt(w, i - 1)],
              withData, [i \in 1..15 |-> i])
=============================================================================
