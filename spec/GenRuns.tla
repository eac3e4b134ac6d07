------------------------------ MODULE GenRuns ------------------------------
(* Settings for runs of the tool: algorithms, number of mutants, seed, whether   *)
(* to validate and how the compiler behaves.                                     *)
EXTENDS Rnd, Json
CONSTANTS Seed, Count, Lang, Validate, Out   \* Validate: "no", "yes", "some" or "hard"
SolNames == <<"ArithmeticBinaryOp", "LogicalBinaryOp", "BitwiseBinaryOp", "BitshiftBinaryOp", "ComparisonBinaryOp",
             "Assignment", "DeleteStatement", "FunctionCall", "SwapFunctionArguments", "IfStatement", "Integer",
             "SwapOperatorArguments", "SwapLines", "UnaryOp", "Require", "UncheckedBlock", "ElimDelegateCall">>
Names == IF Lang = "Solidity" THEN SolNames ELSE SubSeq(SolNames, 1, 14)
Some(s, k) == [j \in 1..k |-> Pick(s, 10 + j, SolNames)]
AlgsOf(s) ==
  CASE Rn(s, 1) % 5 = 0 -> [all |-> TRUE, algs |-> <<>>]
    [] Rn(s, 1) % 5 \in {1, 2} -> [all |-> FALSE, algs |-> <<Pick(s, 2, Names)>>]
    [] Rn(s, 1) % 5 = 3 -> [all |-> FALSE, algs |-> Some(s, 2) \o <<Pick(s, 2, Names)>>]
    [] OTHER -> [all |-> FALSE, algs |-> Some(s, 6) \o <<Pick(s, 2, Names)>>]
Verdicts == <<[mode |-> "accept"], [mode |-> "reject"], [mode |-> "parse"], [mode |-> "first", k |-> 1], [mode |-> "first", k |-> 3],
              [mode |-> "first", k |-> 17], [mode |-> "alternate", n |-> 2, k |-> 1], [mode |-> "alternate", n |-> 2, k |-> 0],
              [mode |-> "distinct", k |-> 2], [mode |-> "distinct", k |-> 1],
              [mode |-> "distinct", k |-> 2], [mode |-> "hash", n |-> 2, k |-> 0], [mode |-> "hash", n |-> 3, k |-> 1], [mode |-> "hash", n |-> 2, k |-> 1]>>
\* Validate = "hard": every candidate is rejected several times before one is accepted
Hard == <<[mode |-> "alternate", n |-> 5, k |-> 4], [mode |-> "alternate", n |-> 7, k |-> 6], [mode |-> "alternate", n |-> 4, k |-> 2]>>
Run(s) ==
  LET v == Pick(s, 3, IF Validate = "hard" THEN Hard ELSE Verdicts)
      validate == Validate \in {"yes", "hard"} \/ (Validate = "some" /\ Rn(s, 4) % 2 = 0)
  IN AlgsOf(s) @@
     [num |-> Pick(s, 5, IF Validate = "hard" THEN <<12, 500>> ELSE IF validate /\ v.mode = "reject" THEN <<1, 2>> ELSE IF validate /\ v.mode = "hash" THEN <<1, 2, 3, 5, 8>>
                     ELSE IF validate /\ v.mode = "distinct" THEN <<1, 1, 1, 3>>
                     ELSE <<1, 2, 3, 4, 5, 7, 10, 25, 60, 500>>), seed |-> Pick(s, 6, <<"0", "1", "2", "7", "99", "12345", "4294967296", "9223372036854775807">>),
      validate |-> validate, verdict |-> v,
      every |-> IF validate /\ v.mode = "alternate" THEN v.n ELSE 1,
      need |-> IF validate /\ v.mode = "distinct" THEN v.k ELSE 0,
      unsure |-> validate /\ (v.mode \in {"reject", "hash"} \/ (Lang = "Vyper" /\ v.mode = "parse"))]
ASSUME JsonSerialize(Out, [j \in 1..Count |-> Run(Rn(Seed, 7 * j))])
=============================================================================
