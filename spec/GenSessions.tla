---------------------------- MODULE GenSessions ----------------------------
(* Sessions: a command line and inputs, some of them configurations, with the    *)
(* jobs that result.                                                              *)
EXTENDS Settings, Rnd, Json
CONSTANTS Seed, Count, NFiles, Configs, Out   \* Configs: "no", "yes" or "some"
Names == <<"ArithmeticBinaryOp", "LogicalBinaryOp", "BitwiseBinaryOp", "BitshiftBinaryOp", "ComparisonBinaryOp",
           "Assignment", "DeleteStatement", "FunctionCall", "SwapFunctionArguments", "IfStatement", "Integer",
           "SwapOperatorArguments", "SwapLines", "UnaryOp", "Require", "UncheckedBlock", "ElimDelegateCall">>
Common == <<"Integer", "SwapLines", "DeleteStatement", "Assignment">>
Maybe(s, i, n, m, v) == IF Rn(s, i) % n = 0 THEN m :> v ELSE None
Flag(s, i, n, m) == Maybe(s, i, n, m, TRUE)
SomeAlgs(s) == [j \in 1..(1 + (Rn(s, 1) % 4)) |-> Pick(s, 2 + j, Names)] \o <<Pick(s, 7, Common), Pick(s, 8, Common)>>
Funcs(s) == Pick(s, 1, <<<<"pa", "pb">>, <<"pa", "pb", "pc">>, <<"pa", "pc", "xpa">>, <<"pb", "pc", "zz">>, <<"pa">>>>)
Seeds == <<"0", "1", "2", "3", "77", "123456789", "9223372036854775807">>
BigSeeds == Seeds \o <<"18446744073709551615", "9223372036854775808">>
Cli(s) ==
  LET o == Rn(s, 0) % 4 IN
  [seed |-> Pick(s, 1, Seeds)] @@ Maybe(s, 2, 2, "num", Pick(s, 3, <<1, 2, 3, 6>>))
  @@ (IF o = 0 THEN "all" :> TRUE @@ Maybe(s, 20, 3, "algs", SomeAlgs(Rn(s, 21))) ELSE IF o = 1 /\ Configs = "yes" /\ Rn(s, 22) % 4 = 0 THEN None ELSE "algs" :> SomeAlgs(Rn(s, 5)))
  @@ Maybe(s, 6, 4, "funcs", Funcs(Rn(s, 7))) @@ Flag(s, 8, 3, "validate") @@ Flag(s, 9, 3, "print")
  @@ Maybe(s, 10, 2, "out", Pick(s, 11, <<"o1", "o1/deep/er", "o2">>)) @@ Flag(s, 12, 12, "stdout")
  @@ Maybe(s, 13, 2, "compiler", Pick(s, 14, <<"A", "B", "C">>))
Cfg(s) ==
  Maybe(s, 1, 2, "num", Pick(s, 2, <<1, 2, 4, 7>>)) @@ Maybe(s, 3, 2, "seed", Pick(s, 4, BigSeeds))
  @@ Maybe(s, 5, 2, "algs", IF Rn(s, 6) % 5 = 0 THEN <<>> ELSE SomeAlgs(Rn(s, 7)))
  @@ Maybe(s, 8, 3, "all", Rn(s, 9) % 3 > 0) @@ Maybe(s, 10, 3, "funcs", IF Rn(s, 11) % 5 = 0 THEN <<>> ELSE Funcs(Rn(s, 12)))
  @@ Maybe(s, 13, 2, "validate", Rn(s, 14) % 2 = 0) @@ Maybe(s, 15, 2, "print", Rn(s, 16) % 2 = 0)
  @@ Maybe(s, 17, 2, "out", Pick(s, 18, <<"c1", "c1/x", "o1", "stdout">>)) @@ Maybe(s, 19, 2, "compiler", Pick(s, 20, <<"A", "B", "C">>))
Input(s, k) ==
  LET conf == Configs = "yes" \/ (Configs = "some" /\ Rn(s, 1) % 2 = 0) IN
  IF conf THEN [kind |-> "config", cfg |-> Cfg(Rn(s, 2)), files |-> IF Rn(s, 3) % 3 = 0 THEN <<2 * k - 1, 2 * k>> ELSE <<2 * k - 1>>]
  ELSE [kind |-> "file", cfg |-> None, files |-> <<2 * k - 1>>]
Session(s) ==
  LET n == 1 + (Rn(s, 1) % NFiles)
      x == [cli |-> Cli(Rn(s, 2)), inputs |-> [k \in 1..n |-> Input(Rn(s, 10 + k), k)]]
  IN x @@ [jobs |-> Jobs(x)]
ASSUME JsonSerialize(Out, [j \in 1..Count |-> Session(Rn(Seed, 11 * j))])
=============================================================================
