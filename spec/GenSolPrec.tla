----------------------------- MODULE GenSolPrec -----------------------------
(* Every kind of operand in every operand position of every operator, so that  *)
(* every bracket that a tree requires or does not require is decided; Per       *)
(* statements a program.                                                        *)
EXTENDS SolGen, Json
CONSTANTS Seed, Per, Out
V(j) == Ident("v" \o ToString(j), "uint256")
Cond(a, b, c) == Node("Conditional", [type |-> "uint256"], "condition" :> <<a>> @@ "trueExpression" :> <<b>> @@ "falseExpression" :> <<c>>)
PreOps == <<"-", "!", "~", "++", "--", "delete">>
NB == Len(BinOps)
\* operands
Kids == [j \in 1..NB |-> Bin(BinOps[j], V(1), V(2), "uint256")]
        \o [j \in 1..Len(PreOps) |-> Un(PreOps[j], "true", V(1), "uint256")]
        \o <<Un("++", "false", V(1), "uint256"), Un("--", "false", V(1), "uint256"), Cond(V(1), V(2), V(3)), Asg("=", V(1), V(2), "uint256"), Asg("+=", V(1), V(2), "uint256"),
             Tup(<<Bin("+", V(1), V(2), "uint256")>>, "false", "uint256"), Num("7"), Num("1e3"), UnitLit(3), FracLit(2),
             Call(Ident("f", "function"), <<V(1)>>, <<>>, "uint256"), Mem(V(1), "m", "uint256"), Idx(V(1), V(2), "uint256"),
             Call(Node("NewExpression", NoA, "typeName" :> <<UType("C0")>>), <<V(1)>>, <<>>, "uint256"), Tup(<<V(1), V(2)>>, "true", "uint256[2]")>>
\* positions: an operator and where its operand stands
NP == 2 * NB + 13
Place(p, k) ==
  CASE p <= NB -> Bin(BinOps[p], k, V(8), "uint256")
    [] p <= 2 * NB -> Bin(BinOps[p - NB], V(8), k, "uint256")
    [] p = 2 * NB + 1 -> Un("-", "true", k, "int256")
    [] p = 2 * NB + 2 -> Un("!", "true", k, "bool")
    [] p = 2 * NB + 3 -> Un("~", "true", k, "uint256")
    [] p = 2 * NB + 4 -> Cond(k, V(8), V(9))
    [] p = 2 * NB + 5 -> Cond(V(8), k, V(9))
    [] p = 2 * NB + 6 -> Cond(V(8), V(9), k)
    [] p = 2 * NB + 7 -> Asg("=", V(8), k, "uint256")
    [] p = 2 * NB + 8 -> Asg("-=", V(8), k, "uint256")
    [] p = 2 * NB + 9 -> Mem(k, "m", "uint256")
    [] p = 2 * NB + 10 -> Idx(k, V(8), "uint256")
    [] p = 2 * NB + 11 -> Idx(V(8), k, "uint256")
    [] p = 2 * NB + 12 -> Call(k, <<V(8)>>, <<>>, "uint256")
    [] OTHER -> Call(Ident("f", "function"), <<k, V(8)>>, <<>>, "uint256")
NK == Len(Kids)
\* a literal is no base of a member access, an index or a call
Fits(p, k) == ~(k.t = "Literal" /\ p \in {2 * NB + 9, 2 * NB + 10, 2 * NB + 12}) /\ ~(k.t = "FunctionCall" /\ p = 0)
All == SelectSeq([i \in 1..(NP * NK) |->
          LET p == ((i - 1) \div NK) + 1
              k == Kids[((i - 1) % NK) + 1]
          IN IF Fits(p, k) THEN ES(Place(p, k)) ELSE Null], LAMBDA x : x.t # "null")
N == (Len(All) + Per - 1) \div Per
ASSUME JsonSerialize(Out, [i \in 1..N |-> Wrap(i, SelectSeq([j \in 1..Per |-> IF i + (j - 1) * N <= Len(All) THEN All[i + (j - 1) * N] ELSE Null],
                                                            LAMBDA x : x.t # "null"))])
=============================================================================
