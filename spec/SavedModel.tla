---------------------------- MODULE SavedModel -----------------------------
(* What a saved configuration says, and what the settings of a job mean.         *)
EXTENDS Settings
AllNames == {"ArithmeticBinaryOp", "LogicalBinaryOp", "BitwiseBinaryOp", "BitshiftBinaryOp", "ComparisonBinaryOp",
             "Assignment", "DeleteStatement", "FunctionCall", "SwapFunctionArguments", "IfStatement", "Integer",
             "SwapOperatorArguments", "SwapLines", "UnaryOp", "Require", "UncheckedBlock", "ElimDelegateCall"}
Rng(s) == {s[k] : k \in 1..Len(s)}
\* two settings with the same meaning lead to the same run
Meaning(j) ==
  [algs |-> IF j.all THEN AllNames ELSE Rng(j.algs) \cap AllNames, num |-> j.num, seed |-> j.seed, funcs |-> Rng(j.funcs),
   validate |-> j.validate, print |-> j.print, out |-> IF j.stdout THEN <<"stdout">> ELSE <<"dir", j.out>>, compiler |-> j.compiler]
\* a configuration that says it all
Save(j) ==
  [num |-> j.num, seed |-> j.seed, validate |-> j.validate, print |-> j.print, out |-> IF j.stdout THEN "stdout" ELSE j.out,
   compiler |-> j.compiler] @@ (IF j.all THEN "all" :> TRUE ELSE "algs" :> j.algs) @@ (IF j.funcs = <<>> THEN None ELSE "funcs" :> j.funcs)
Again(j) == Effective([seed |-> "none"], Save(j), TRUE)
=============================================================================
