------------------------------ MODULE GenCalls -----------------------------
(* Command lines and configurations with compiler settings.                         *)
EXTENDS Calls, Rnd, Json
CONSTANTS Seed, Count, Out
Paths == <<"b", "lib dir", "./rel/../x", "/abs/path", "..", "with'quote", "$HOME", "*", "node_modules/@oz", "x:y", "#1", "a;b", "q\"q">>
Odd == Paths \o <<"-dash", "--base-path", "">>
Maps == <<"@oz/=node_modules/@oz/", "ctx:pre=to", "x=y=z", "a b=c d", "p=">>
Several(s, P) == [k \in 1..Pick(s, 1, <<0, 1, 1, 2, 3>>) |-> Pick(s, 10 + k, P)]
One(s, n, P) == IF Rn(s, 1) % n = 0 THEN <<>> ELSE <<Pick(s, 2, P)>>
Exe(s, c) == c \o Pick(s, 3, <<"", "A", "B">>)
\* on the command line include paths need a base path
Sol(s, cli) ==
  LET base == One(Rn(s, 1), 2, IF cli THEN Paths ELSE Odd) IN
  [exe |-> Exe(Rn(s, 2), "solc"), base |-> base, include |-> IF cli /\ base = <<>> THEN <<>> ELSE Several(Rn(s, 4), IF cli THEN Paths ELSE Odd),
   allow |-> Several(Rn(s, 5), Paths), remap |-> Several(Rn(s, 6), Maps), stop |-> IF Rn(s, 7) % 3 = 0 THEN <<Pick(s, 8, <<"parsing", "analysis">>)>> ELSE <<>>]
Vy(s, cli) == [exe |-> Exe(Rn(s, 2), "vyper"), root |-> One(Rn(s, 1), 2, IF cli THEN Paths ELSE Odd)]
Job(s) ==
  LET l == Pick(s, 1, <<"Solidity", "Vyper">>)
      c == Rn(s, 2) % 2 = 0
      d == c /\ Rn(s, 3) % 4 > 0
  IN [lang |-> l, source |-> Rn(s, 4) % 3 > 0, config |-> c, details |-> d,
      settings |-> IF l = "Solidity" THEN Sol(Rn(s, 5), FALSE) ELSE Vy(Rn(s, 5), FALSE)]
Session(s) ==
  [cli |-> [Solidity |-> Sol(Rn(s, 1), TRUE), Vyper |-> Vy(Rn(s, 2), TRUE)], jobs |-> [k \in 1..Pick(s, 3, <<1, 1, 2, 3>>) |-> Job(Rn(s, 20 + k))],
   command |-> Pick(s, 4, <<"mutate", "mutate", "mutate", "pretty-print">>), validate |-> Rn(s, 5) % 2 = 0, verdict |-> Pick(s, 6, <<"accept", "hash", "parse">>),
   version |-> Pick(s, 7, <<"0.3.7+commit.6020b8b", "3.1.0">>), docker |-> Rn(s, 8) % 5 = 0, seed |-> Pick(s, 9, <<"1", "2", "3">>)]
ASSUME JsonSerialize(Out, [j \in 1..Count |-> Session(Rn(Seed, 23 * j))])
=============================================================================
