------------------------------- MODULE QRRand -------------------------------
(* Reproducible pseudo-random choices: every generator module of this          *)
(* specification draws from Mix, seeded with VERIF_SEED (IOEnv).                *)
EXTENDS Integers, IOUtils

SeedOf == IF "VERIF_SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.VERIF_SEED) % 10000 ELSE 1
Thorough == "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough"

Mix(s, i) ==
  LET a == ((s % 46337) + (i % 46337) * 31 + SeedOf * 577 + 7) % 46337
      b == (a * a + 12345) % 46337
      c == (b * 40503 + (i % 46337) * 3 + (s % 46337)) % 46337
      d == (c * c + b) % 46337
  IN (d * 40503 + c) % 46337
Rnd(s, i, n) == Mix(s, i) % n            \* 0 <= Rnd < n
=============================================================================
