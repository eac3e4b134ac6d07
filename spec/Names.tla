------------------------------- MODULE Names -------------------------------
(* The names of the algorithms: which there are, which apply to a language, and    *)
(* what a request for algorithms selects.                                           *)
EXTENDS SolMutators
OnlySolidity == {"Require", "UncheckedBlock", "ElimDelegateCall"}
Known == {SolAlgs[k] : k \in 1..Len(SolAlgs)}
NamesFor(lang) == IF lang = "Solidity" THEN Known ELSE Known \ OnlySolidity
\* a request: all (whether all are wanted) and names in any number and order
Selects(all, names, lang) == (IF all THEN Known ELSE {names[k] : k \in 1..Len(names)}) \cap NamesFor(lang)
\* the operators that a description may list
DocumentedOperators(a) ==
  CASE OpClass(a) # {} -> OpClass(a)
    [] a = "UnaryOp" -> PrefixOps \cup PostfixOps
    [] a = "SwapOperatorArguments" -> NonCommutative
    [] OTHER -> {}
=============================================================================
