------------------------------ MODULE GenNames ------------------------------
(* Requests for algorithms, on the command line or in a configuration.             *)
EXTENDS Names, Rnd, Json
CONSTANTS Seed, Count, Out
Wrong == <<"integer", "INTEGER", "Integer ", " Integer", "", "IntegerX", "Integ", "All", "*", "SwapLine", "DeleteStatement,Integer", "if-statement",
           "Generic(Integer)", "arithmeticBinaryOp", "unaryop", "Assignment\t", "Require()", "FunctionCalls", "Swap Lines", "0">>
Names1(s, n, from) == [k \in 1..n |-> Pick(s, k, from)]
Mixed(s) == [k \in 1..(2 + (Rn(s, 1) % 9)) |-> IF Rn(s, 20 + k) % 3 = 0 THEN Pick(s, 40 + k, Wrong) ELSE Pick(s, 40 + k, SolAlgs)]
\* the first requests are for each name alone
Request(s, j) ==
  LET kind == Rn(s, 1) % 8
      m == Mixed(Rn(s, 2))
      one == Pick(s, 3, SolAlgs)
      r == IF j <= 2 * Len(SolAlgs) THEN [all |-> FALSE, names |-> <<SolAlgs[1 + ((j - 1) % Len(SolAlgs))]>>]
           ELSE CASE kind = 0 -> [all |-> TRUE, names |-> <<>>]
                  [] kind = 1 -> [all |-> TRUE, names |-> m]
                  [] kind = 2 -> [all |-> FALSE, names |-> Names1(Rn(s, 4), 1 + (Rn(s, 5) % 3), Wrong)]
                  [] kind = 3 -> [all |-> FALSE, names |-> <<one, one, one>>]
                  [] OTHER -> [all |-> FALSE, names |-> m]
  IN r @@ [via |-> Pick(s, 6, <<"cli", "cli", "config">>), num |-> Pick(s, 7, <<3, 6, 20>>), seed |-> Pick(s, 8, <<"0", "1", "5", "9">>)]
ASSUME JsonSerialize(Out, [j \in 1..Count |-> Request(Rn(Seed, 29 * j), j)])
=============================================================================
