----------------------------- MODULE GenInputs -----------------------------
(* Files of all kinds in environments of all kinds.                                *)
EXTENDS Recognize, Rnd, Json
CONSTANTS Seed, Count, Out
Seq1(S) == LET RECURSIVE q(_)
               q(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o q(T \ {x})
           IN q(S)
BodySeq == Seq1(Bodies \ {"config"})
Common == <<"sol-source", "vy-source", "both-source", "sol-tree", "vy-tree", "sol-tree-source">>
Exts == <<"sol", "vy", "json", "mgnx", "ast", "", "SOL", "txt">>
NoCfg == [language |-> "", names |-> "none"]
File(s, k) ==
  LET b == IF Rn(s, 1) % 2 = 0 THEN Pick(s, 2, Common) ELSE Pick(s, 2, BodySeq)
      w == Rn(s, 3) % 14
  IN [what |-> IF w = 0 THEN "dir" ELSE IF w \in {1, 2} THEN "missing" ELSE "file", ext |-> Pick(s, 4, Exts), body |-> b, cfg |-> NoCfg,
      how |-> Pick(s, 5, <<"plain", "link", "deep">>), n |-> k]
Listed(s, k) == LET f == File(s, k) IN IF Rn(s, 6) % 3 = 0 THEN f ELSE [f EXCEPT !.what = "file", !.body = Pick(s, 7, <<"sol-tree", "vy-tree", "sol-source", "vy-source">>)]
Config(s) ==
  [what |-> "file", ext |-> IF Rn(s, 1) % 6 = 0 THEN Pick(s, 2, Exts) ELSE "mgnx", body |-> "config",
   cfg |-> [language |-> Pick(s, 3, <<"Solidity", "Vyper", "Solidity", "Vyper", "Solidity", "Vyper", "Cobol", "absent", "number", "solidity ">>),
            names |-> Pick(s, 4, <<"list", "list", "list", "list", "list", "none", "other">>)], how |-> "plain", n |-> 0]
Env(s) == [solc |-> Pick(s, 1, <<"good", "good", "good", "absent", "rejects", "silent", "garbage", "foreign">>),
           vyper |-> Pick(s, 2, <<"good", "good", "good", "absent", "rejects", "noversion", "garbage", "foreign">>),
           docker |-> Pick(s, 3, <<"absent", "absent", "good", "rejects", "garbage">>),
           version |-> Pick(s, 4, <<"0.3.7+commit.6020b8b", "0.3.7", "3.1.0", "3.0.0", "2.9.9", "0.1.0b17", "0.4.0rc6", "10.0.1+commit.1", "0.2.16">>)]
Input(s) ==
  LET conf == Rn(s, 1) % 4 = 0
      m == Rn(s, 2) % 4
  IN [file |-> IF conf THEN Config(Rn(s, 3)) ELSE File(Rn(s, 3), 0), env |-> Env(Rn(s, 4)),
      listed |-> IF conf THEN [k \in 1..m |-> Listed(Rn(s, 10 + k), k)] ELSE <<>>,
      command |-> IF conf \/ Rn(s, 5) % 3 > 0 THEN "mutate" ELSE "pretty-print", validate |-> Rn(s, 6) % 3 = 0, seed |-> Pick(s, 7, <<"0", "1", "2", "3", "4", "5">>)]
ASSUME JsonSerialize(Out, [j \in 1..Count |-> Input(Rn(Seed, 19 * j))])
=============================================================================
