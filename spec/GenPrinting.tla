---------------------------- MODULE GenPrinting ----------------------------
(* Lists of files to print: several paths, a content for each, in any order.       *)
EXTENDS Printing, Rnd, Json
CONSTANTS Seed, Count, Out
Good == <<"sol-source", "vy-source", "sol-tree", "vy-tree", "sol-tree", "vy-tree", "sol-tree-source", "both-source", "sol-tree-bare", "vy-tree-bare">>
Poor == <<"text", "binary", "empty", "sol-tree-cut", "vy-tree-cut", "object", "array", "config", "sol-number", "vy-noname">>
NoCfg == [language |-> "Solidity", names |-> "list"]
\* one file per number; bases and extensions repeat so that names clash
File(s, k, simple) ==
  LET w == Rn(s, 1) % 12
      bad == Rn(s, 2) % 5 = 0
  IN [what |-> IF w = 0 THEN "missing" ELSE IF w = 1 THEN "dir" ELSE "file",
      dir |-> Pick(s, 3, <<".", "a", "b", "a/c">>), base |-> Pick(s, 4, IF simple THEN <<"p", "q", "r", "s", "t", "u">> ELSE <<"x", "x.sol.z", "x.vy_0", "x">>),
      ext |-> IF bad /\ Rn(s, 9) % 2 = 0 THEN "mgnx" ELSE Pick(s, 5, <<"sol", "vy", "json", "", "ast">>),
      body |-> IF bad THEN Pick(s, 6, Poor) ELSE Pick(s, 6, Good), cfg |-> NoCfg, n |-> k, how |-> "plain"]
RECURSIVE Fresh(_, _)
Fresh(fs, have) == IF fs = <<>> THEN <<>> ELSE IF Path(fs[1]) \in have THEN Fresh(Tail(fs), have) ELSE <<fs[1]>> \o Fresh(Tail(fs), have \cup {Path(fs[1])})
\* a plain file must not be another's directory
NoDir(fs) == SelectSeq(fs, LAMBDA f : Path(f) \notin {"a", "b", "a/c"})
Env(s) == [solc |-> Pick(s, 1, <<"good", "good", "good", "good", "absent", "rejects", "garbage">>),
           vyper |-> Pick(s, 2, <<"good", "good", "good", "good", "absent", "rejects", "garbage">>),
           docker |-> Pick(s, 3, <<"absent", "absent", "good">>), version |-> "0.3.7"]
Job(s) ==
  LET simple == Rn(s, 1) % 3 > 0
      m == 1 + (Rn(s, 2) % 6)
      fs == NoDir(Fresh([k \in 1..m |-> File(Rn(s, 10 + k), k, simple)], {}))
      ix == IF Rn(s, 3) % 3 = 0 THEN [k \in 1..(Len(fs) + 2) |-> 1 + (Rn(s, 30 + k) % Len(fs))] ELSE [k \in 1..Len(fs) |-> k]
  IN [files |-> IF fs = <<>> THEN <<>> ELSE [k \in DOMAIN ix |-> fs[ix[k]]], env |-> Env(Rn(s, 4)),
      form |-> Pick(s, 5, <<"dir", "dir", "stdout">>), out |-> Pick(s, 6, <<"out", "out", "new/deep/out", "a", "." >>), seed |-> Pick(s, 7, <<"0", "1", "2", "3">>)]
ASSUME JsonSerialize(Out, [j \in 1..Count |-> Job(Rn(Seed, 23 * j))])
=============================================================================
