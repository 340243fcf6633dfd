------------------------------ MODULE GenDamage ------------------------------
(* Damaged symbols with their required outcome (C02, C03, C09).                *)
(*   within: every block has at most capacity-many wrong codewords; the text   *)
(*           must come back, with the exact number of wrong bits;              *)
(*   over:   one block has more; the outcome is that of the bounded distance   *)
(*           reading of that block - in general an error.                      *)
EXTENDS QRSymbol, Contents, Json

Out == IOEnv.OUT_DIR
BlocksWanted == IF Thorough THEN 240 ELSE 32
Reps(v, l) == 1 + (BlocksWanted - 1) \div NB(v, l)
OverReps == IF Thorough THEN 40 ELSE 6

\* n distinct positions out of 1..len
Positions(s, n, len) ==
  FoldLeft(LAMBDA a, i : LET p == 1 + Rnd(s, i, len) IN
                         IF Len(a) = n \/ \E k \in 1..Len(a) : a[k] = p THEN a ELSE Append(a, p),
           <<>>, [i \in 1..(6 * n + 6) |-> i])
NonZero(s, i) == 1 + Rnd(s, i, 255)

(* Families of error patterns, several of them chosen so that intermediate     *)
(* quantities of decoding algorithms vanish.                                   *)
NumFamilies == 10
Pattern(fam, s, len, t) ==      \* sequence of <<position, xor>>
  LET rp(n) == TLCEval(Positions(s, n, len))
      few == 1 + Rnd(s, 5, t)
      val(p) == [k \in 1..Len(p) |-> <<p[k], NonZero(s + 3, k)>>]
  IN CASE fam = 0 -> val(rp(t))
       [] fam = 1 -> [k \in 1..t |-> <<k, NonZero(s, k)>>]                    \* burst, start
       [] fam = 2 -> [k \in 1..t |-> <<len + 1 - k, NonZero(s, k)>>]          \* burst, end
       [] fam = 3 -> LET p == rp(t) IN [k \in 1..Len(p) |-> <<p[k], NonZero(s, 1)>>]   \* equal: S0 = 0
       [] fam = 4 -> val(rp(few))
       [] fam = 5 -> <<<<1 + Rnd(s, 2, len), NonZero(s, 1)>>>>                \* single
       [] fam = 6 -> LET p == rp(t)                                           \* sum zero
                         q == val(p)
                         z == Sum([k \in 1..(Len(q) - 1) |-> q[k][2]])
                     IN IF Len(q) < 2 \/ z = 0 THEN q ELSE [q EXCEPT ![Len(q)][2] = z]
       [] fam = 7 -> LET p == rp(t) IN                                        \* S1 contributions equal
                     [k \in 1..Len(p) |-> <<p[k], Exp(255 - (len - p[k]))>>]
       [] fam = 8 -> <<<<len - 1 + (s % 2), NonZero(s, 1)>>>>                 \* last or last but one
       [] fam = 9 -> val(rp(IF t > 1 THEN t - 1 ELSE 1))

BitsIn(pat) == FoldLeft(LAMBDA a, e : a + BitCount(e[2]), 0, pat)

Content(v, l, s) ==
  ContentSegs(<<0, 6, 3, 2>>[1 + Rnd(s, 9, 4)], v, DataCodewords(v, l), s)

WithinPlan(v, l, s, rep) ==
  [b \in 1..NB(v, l) |->
     LET fam == (rep * 7 + b + v + l) % (NumFamilies + 1)
     IN IF fam = NumFamilies THEN <<>>          \* an undamaged block
        ELSE Pattern(fam, s + 13 * b, BlockTotal(v, l, b), Cap(v, l))]
Flatten(plan) ==
  FoldLeft(LAMBDA a, b : a \o [k \in 1..Len(plan[b]) |-> <<b, plan[b][k][1], plan[b][k][2]>>],
           <<>>, [b \in 1..Len(plan) |-> b])

WithinCase(v, l, rep) ==
  LET s == v * 1000 + l * 100 + rep * 7
      segs == TLCEval(Content(v, l, s))
      data == TLCEval(EncodeSegs(segs, v, DataCodewords(v, l)))
      plan == TLCEval(WithinPlan(v, l, s, rep))
  IN [v |-> v, l |-> l, mask |-> Rnd(s, 3, 8), data |-> data, plan |-> TLCEval(Flatten(plan)),
      ok |-> TRUE, text |-> TLCEval(TextOf(segs)),
      errors |-> FoldLeft(LAMBDA a, p : a + BitsIn(p), 0, plan), kind |-> "within"]

\* every single-codeword error of the smallest symbols
SingleCase(v, l, b, p) ==
  LET c == WithinCase(v, l, 0)
      x == NonZero(v + l, b * 200 + p)
  IN [c EXCEPT !.plan = <<<<b, p, x>>>>, !.errors = BitCount(x), !.kind = "single"]

OverCase(v, l, rep) ==
  LET s == v * 1000 + l * 100 + rep * 7 + 500
      segs == TLCEval(Content(v, l, s))
      data == TLCEval(EncodeSegs(segs, v, DataCodewords(v, l)))
      blocks == TLCEval(BlocksOf(v, l, data))
      bad == 1 + Rnd(s, 1, NB(v, l))
      len == BlockTotal(v, l, bad)
      t == Cap(v, l)
      n == IF rep % 3 # 2 THEN t + 1 ELSE t + 1 + Rnd(s, 2, IF len - t - 1 < 12 THEN len - t - 1 ELSE 12)
      plan0 == TLCEval(IF rep % 2 = 0 THEN [b \in 1..NB(v, l) |-> <<>>] ELSE WithinPlan(v, l, s, rep))
      over == TLCEval(Pattern(IF rep % 4 = 3 THEN 3 ELSE IF rep % 4 = 2 THEN 6 ELSE 0, s, len, n))
      plan == TLCEval([plan0 EXCEPT ![bad] = over])
      recv == TLCEval([k \in 1..len |->
                 FoldLeft(LAMBDA a, e : IF e[1] = k THEN BXor(a, e[2]) ELSE a, blocks[bad][k], over)])
      r == TLCEval(Decode(recv, Ec(v, l), t))
      off == Offset(v, l, bad)
      nd == BlockData(v, l, bad)
      data2 == IF r.ok THEN [k \in 1..Len(data) |->
                               IF k > off /\ k <= off + nd THEN r.word[k - off] ELSE data[k]]
               ELSE data
      rd == IF r.ok THEN TLCEval(Read(data2, v)) ELSE Start
  IN [v |-> v, l |-> l, mask |-> Rnd(s, 3, 8), data |-> data, plan |-> TLCEval(Flatten(plan)),
      ok |-> r.ok /\ rd.st = "done", text |-> IF r.ok THEN rd.out ELSE <<>>,
      errors |-> IF ~r.ok THEN 0 ELSE
         r.bits + FoldLeft(LAMBDA a, b : a + (IF b = bad THEN 0 ELSE BitsIn(plan[b])), 0,
                           [b \in 1..NB(v, l) |-> b]),
      kind |-> IF Len(over) > t THEN "over" ELSE "within"]

\* design check on small symbols: the reference reading repairs the plan
Repairs(c) ==
  c.v > 6 \/ LET r == ReadBlocks(c.v, c.l, Damage(BlocksOf(c.v, c.l, c.data), c.plan))
             IN r.ok /\ r.text = c.text /\ r.errors = c.errors

Name(tag, v, l) == Out \o "/" \o tag \o "-" \o ToString(v) \o "-" \o ToString(l) \o ".json"
SinglesFor(v, l) == v <= (IF Thorough THEN 4 ELSE 2)
Singles(v, l) ==
  FoldLeft(LAMBDA a, b : a \o [p \in 1..BlockTotal(v, l, b) |-> SingleCase(v, l, b, p)],
           <<>>, [b \in 1..NB(v, l) |-> b])

What == IOEnv.WHAT       \* "within" or "over"
VARIABLES cfg, ok
Init == cfg \in Versions \X Levels /\ ok = TRUE
Within(v, l) ==
  LET cs == TLCEval([j \in 1..Reps(v, l) |-> WithinCase(v, l, j - 1)])
  IN /\ JsonSerialize(Name("within", v, l),
            cs \o (IF SinglesFor(v, l) THEN TLCEval(Singles(v, l)) ELSE <<>>))
     /\ ok' = \A j \in 1..Len(cs) : Repairs(cs[j])
Over(v, l) ==
  LET cs == TLCEval([j \in 1..OverReps |-> OverCase(v, l, j - 1)])
  IN /\ JsonSerialize(Name("over", v, l), cs)
     /\ ok' = TRUE
Next == /\ cfg[1] > 0
        /\ IF What = "within" THEN Within(cfg[1], cfg[2]) ELSE Over(cfg[1], cfg[2])
        /\ cfg' = <<0 - cfg[1], cfg[2]>>
Spec == Init /\ [][Next]_<<cfg, ok>>
RepairsHold == ok
=============================================================================
