--------------------------------- MODULE Rnd ---------------------------------
(* A small deterministic pseudo-random function, so that generated programs   *)
(* depend only on the seed handed to the specification.                       *)
EXTENDS Integers, Sequences, TLC
M == 46337
Rn(s, i) == LET x == (s + 7919 * i + 13) % M IN (((x * x) % M) + 5 * x + 31 * i + 17) % M
Pick(s, i, seq) == seq[(Rn(s, i) % Len(seq)) + 1]
Chance(s, i, n) == Rn(s, i) % n = 0
Within(s, i, n) == Rn(s, i) % (n + 1)
\* mostly up to n, now and then far beyond
Upto(s, i, n) == IF Rn(s, i + 500) % 13 = 0 THEN Rn(s, i) % (4 * n + 4) ELSE Within(s, i, n)
Many(F(_), s, i, n) == [j \in 1..n |-> F(Rn(s, i + j))]
=============================================================================
