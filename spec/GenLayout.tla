----------------------------- MODULE GenLayout -----------------------------
(* Operation sequences: all short ones over a small alphabet, and random long      *)
(* ones whose words have all lengths around the page width.                        *)
EXTENDS Rnd, Json, FiniteSets
CONSTANTS Seed, Count, Full, Out        \* Full: length of the exhaustive sequences
Op(k, x, n, m) == [op |-> k, s |-> x, n |-> n, next |-> m]
Alphabet == <<Op("token", "ab", 1, ""), Op("token", "abcdefg", 1, ""), Op("string", "q", 1, ""), Op("space", "", 1, ""),
             Op("newline", "", 1, ""), Op("token", "", 1, ""), Op("indent", "", 1, ""), Op("inc", "", 1, ""), Op("dec", "", 1, ""), Op("incby", "", 2, ""), Op("decby", "", 2, ""),
             Op("flow", "one t fourteen a", 1, ""), Op("flow", "a bc  def\nghij", 1, "# "), Op("flow", "elephants", 1, "// "), Op("flow", " ab cd ", 1, "")>>
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN <<<<>>>> ELSE LET r == Seqs(n - 1) IN [k \in 1..(Len(r) * Len(Alphabet)) |-> Append(r[((k - 1) \div Len(Alphabet)) + 1], Alphabet[((k - 1) % Len(Alphabet)) + 1])]
Pages == <<0, 1, 2, 3, 5, 7, 8, 10, 13>>
Tabs == <<1, 2, 4>>
Exhaustive == LET r == Seqs(Full) IN [k \in 1..Len(r) |-> [ops |-> r[k], page |-> Pick(k, 1, Pages), tab |-> Pick(k, 2, Tabs), exact |-> TRUE]]
Letters == "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.;(){}abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.;(){}abcdefghijklmnopqrstuvwxyz"
Word(s, max) == LET n == 1 + (Rn(s, 1) % max) IN LET a == 1 + (Rn(s, 2) % 20) IN SubSeq(Letters, a, a + n - 1)
\* a length near the page width now and then
WordNear(s, page) == IF Rn(s, 3) % 6 = 0 THEN LET n == (IF page < 140 THEN page ELSE 20) - 3 + (Rn(s, 4) % 6) IN SubSeq(Letters, 1, IF n < 1 THEN 1 ELSE n) ELSE Word(Rn(s, 5), IF Rn(s, 6) % 3 = 0 THEN 30 ELSE 9)
RECURSIVE Text(_, _, _)
Text(s, n, page) == IF n = 0 THEN "" ELSE WordNear(Rn(s, n), page) \o (IF n = 1 THEN "" ELSE Pick(s, 30 + n, <<" ", " ", " ", "  ", "\n", " \n  ", "     ">>)) \o Text(s, n - 1, page)
AnyOp(s, page) ==
  LET k == Rn(s, 1) % 24 IN
  CASE k < 6 -> Op("token", WordNear(Rn(s, 2), page), 1, "")
    [] k < 9 -> Op("space", "", 1, "")
    [] k = 9 -> Op("spaces", "", Rn(s, 3) % 12, "")
    [] k = 10 -> Op("tokens", Word(Rn(s, 2), 3), Rn(s, 3) % 9, "")
    [] k = 11 -> Op("string", WordNear(Rn(s, 2), page), 1, "")
    [] k = 12 -> Op("triple", WordNear(Rn(s, 2), page), 1, "")
    [] k < 15 -> Op("newline", "", 1, "")
    [] k < 17 -> Op("indent", "", 1, "")
    [] k = 17 -> Op("inc", "", 1, "")
    [] k = 18 -> Op("dec", "", 1, "")
    [] k = 19 -> Op("incby", "", Rn(s, 3) % 20, "")
    [] k = 20 -> Op("decby", "", Rn(s, 3) % 20, "")
    [] OTHER -> Op("flow", Pick(s, 4, <<"", "", " ">>) \o Text(Rn(s, 5), 1 + (Rn(s, 6) % 14), page) \o Pick(s, 7, <<"", "", " ">>), 1, Pick(s, 8, <<"", "// ", "# ", " *   ", "/// ">>))
Random(s) ==
  LET page == Pick(s, 1, <<0, 1, 4, 10, 20, 40, 40, 80, 80, 100, 150>>) IN
  [ops |-> [k \in 1..(3 + (Rn(s, 2) % 30)) |-> AnyOp(Rn(s, 100 + (7 * k)), page)], page |-> page, tab |-> Pick(s, 3, <<1, 1, 2, 4, 4, 8>>), exact |-> TRUE]
ASSUME JsonSerialize(Out, (IF Full = 0 THEN <<>> ELSE Exhaustive) \o [j \in 1..Count |-> Random(Rn(Seed, 17 * j))])
=============================================================================
