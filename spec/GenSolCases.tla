---------------------------- MODULE GenSolCases ----------------------------
(* Small programs that go through everything an algorithm decides on: every     *)
(* operator, every pattern of argument types and of literal arguments, every     *)
(* integer type, every notation of a number, every arrangement of returns in a   *)
(* block; Per statements a program.                                              *)
EXTENDS SolGen, Json
CONSTANTS Seed, Per, Out
V(j) == Ident("v" \o ToString(j), "uint256")
VT(j, ty) == Ident("v" \o ToString(j), ty)
S(j) == ES(Asg("=", Ident("s" \o ToString(j), "string"), Ident("t" \o ToString(j), "string"), "string"))

Operators == [j \in 1..Len(BinOps) |-> ES(Bin(BinOps[j], V(1), V(2), "uint256"))]
Chains == [j \in 1..Len(BinOps) |-> ES(Asg("=", V(0), Bin(BinOps[j], Bin(BinOps[j], V(1), V(2), "uint256"), Bin(BinOps[j], V(3), V(4), "uint256"), "uint256"), "uint256"))]
Unaries == <<ES(Un("++", "true", V(1), "uint256")), ES(Un("--", "true", V(1), "uint256")), ES(Un("~", "true", V(1), "uint256")),
             ES(Un("++", "false", V(1), "uint256")), ES(Un("--", "false", V(1), "uint256")), ES(Un("-", "true", V(1), "int256")),
             ES(Un("!", "true", VT(1, "bool"), "bool")), ES(Un("delete", "true", V(1), "tuple()")),
             ES(Un("~", "true", Un("~", "true", V(1), "uint256"), "uint256")), ES(Un("-", "true", Un("++", "false", V(1), "int256"), "int256"))>>

\* arguments: number them by type (0 = no type known) in all ways up to five arguments, and some with more
T(k) == <<"uint256", "bool", "address", "bytes32", "string memory">>[k]
Patterns ==
  UNION {[1..n -> 1..3] : n \in {1, 2, 3, 4}}
  \cup {<<1, 1, 1, 1, 1>>, <<1, 2, 1, 2, 1>>, <<2, 1, 1, 1, 2>>, <<1, 2, 3, 4, 1>>, <<1, 2, 3, 4, 5>>, <<5, 4, 4, 3, 5>>, <<1, 1, 2, 2, 3>>,
        <<1, 2, 2, 2, 1, 1>>, <<1, 2, 3, 3, 2, 1>>, <<4, 1, 1, 1, 1, 1, 4>>, <<1, 2, 3, 4, 5, 1>>}
\* renaming the types changes nothing: keep those that use new types in order
RECURSIVE Tidy(_, _, _)
Tidy(p, j, m) == j > Len(p) \/ (p[j] <= m + 1 /\ Tidy(p, j + 1, IF p[j] > m THEN p[j] ELSE m))
RECURSIVE SetSq(_)
SetSq(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o SetSq(X \ {x})
ArgTypes == SetSq({p \in Patterns : Len(p) > 4 \/ Tidy(p, 1, 0)})
CallTypes == [j \in 1..Len(ArgTypes) |-> ES(Call(Ident("f", "function"), [i \in 1..Len(ArgTypes[j]) |-> VT(10 * j + i, T(ArgTypes[j][i]))], <<>>, "bool"))]
\* literal or not, up to four arguments; named arguments too
LitPatterns == SetSq(UNION {[1..n -> BOOLEAN] : n \in 1..4})
CallLits == [j \in 1..Len(LitPatterns) |->
               LET p == LitPatterns[j] IN
               ES(Call(Ident("g", "function"), [i \in 1..Len(p) |-> IF p[i] THEN Num(ToString(100 * j + i)) ELSE VT(100 * j + i, T(i))],
                       IF j % 3 = 0 THEN Names(Len(p), j) ELSE <<>>, "bool"))]

IntTypes == [j \in 1..64 |-> IF j <= 32 THEN "uint" \o ToString(8 * j) ELSE "int" \o ToString(8 * (j - 32))]
OtherTypes == <<"bool", "address", "bytes32", "string storage ref", "contract C", "enum E", "address payable", "bytes1", "uint256[] storage ref", "uint256[3] memory",
                "struct C.S memory", "mapping(uint256 => bool)", "function ()", "type(uint256)", "V", "interface I", "tuple(int8,bool)", "int_const 3", "fixed128x18">>
Asgs == [j \in 1..64 |-> ES(Asg(AsgOps[(j % Len(AsgOps)) + 1], VT(j, IntTypes[j]), IF j % 3 = 0 THEN NumLit(j) ELSE VT(j + 1, IntTypes[j]), IntTypes[j]))]
        \o [j \in 1..Len(OtherTypes) |-> ES(Asg("=", VT(j, OtherTypes[j]), VT(j + 100, OtherTypes[j]), OtherTypes[j]))]
        \o <<ES(Asg("=", VT(1, "bool"), Node("Literal", [kind |-> "bool", value |-> "true", type |-> "bool"], NoK), "bool")),
             ES(Asg("=", VT(1, "bool"), Node("Literal", [kind |-> "bool", value |-> "false", type |-> "bool"], NoK), "bool")),
             ES(Asg("=", VT(1, "uint8"), Num("255"), "uint8")), ES(Asg("=", VT(1, "uint8"), Num("0"), "uint8")), ES(Asg("=", VT(1, "int8"), Num("5"), "int8")),
             ES(Asg("=", VT(1, "uint256"), Asg("=", VT(2, "bool"), VT(3, "bool"), "bool"), "uint256"))>>

MoreNums == <<"2", "9", "19", "100", "127", "128", "256", "999", "0x0", "0x00ff", "0xABCdef", "1e0", "5e18", "1E2", "0e5", "1_0", "1_2_3e1", "12e0", "4294967295", "4294967296",
              "9223372036854775808", "18446744073709551615", "18446744073709551616", "170141183460469231731687303715884105728",
              "115792089237316195423570985008687907853269984665640564039457584007913129639935", "1e77", "0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"
            >> \o NumForms
Ints == [j \in 1..Len(MoreNums) |-> ES(Asg("=", VT(j, "string"), Num(MoreNums[j]), "string"))]
        \o <<ES(FracLit(0)), ES(FracLit(1)), ES(FracLit(2)), ES(UnitLit(3)), ES(UnitLit(4)), ES(UnitLit(5)), ES(Call(V(1), <<Num("0"), Un("-", "true", Num("7"), "int256")>>, <<>>, "bool"))>>

\* blocks: n statements, some of them returns, some already unchecked, some no expressions
Kinds == SetSq(UNION {[1..n -> 1..2] : n \in 1..4} \cup {<<1, 1, 1, 1, 1>>, <<1, 2, 1, 1, 2, 1>>, <<1, 1, 1, 2>>, <<3>>, <<3, 1>>, <<1, 3>>, <<3, 3>>, <<4, 1>>, <<1, 4, 2>>, <<4, 4>>, <<4>>, <<2, 3, 4>>, <<5, 1>>, <<5, 5, 1, 5>>})
Piece(k, j) == CASE k = 1 -> S(j) [] k = 2 -> Node("Return", NoA, "expression" :> <<V(j)>>) [] k = 3 -> Node("UncheckedBlock", NoA, "statements" :> <<S(j), S(j + 50)>>)
                 [] k = 4 -> Node("EmitStatement", NoA, "eventCall" :> <<Call(Ident("E0", "function"), <<>>, <<>>, "tuple()")>>) [] OTHER -> Node("Break", NoA, NoK)
Block(j) == Blk([i \in 1..Len(Kinds[j]) |-> Piece(Kinds[j][i], 10 * j + i)])
Blocks == [j \in 1..Len(Kinds) |-> Block(j)]
Bodies == [j \in 1..Len(Kinds) |->
             LET b == Block(j) IN
             CASE j % 4 = 0 -> Node("WhileStatement", NoA, "condition" :> <<V(j)>> @@ "body" :> <<b>>)
               [] j % 4 = 1 -> Node("IfStatement", NoA, "condition" :> <<V(j)>> @@ "trueBody" :> <<b>> @@ "falseBody" :> <<Blk(<<>>)>>)
               [] j % 4 = 2 -> Node("IfStatement", NoA, "condition" :> <<Bin("<", V(j), V(1), "bool")>> @@ "trueBody" :> <<ES(V(2))>> @@ "falseBody" :> <<b>>)
               [] OTHER -> Node("ForStatement", NoA, "condition" :> <<V(j)>> @@ "body" :> <<b>>)]

Req(args) == ES(Call(Ident("require", "function"), args, <<>>, "tuple()"))
Requires == <<Req(<<VT(1, "bool")>>), Req(<<VT(1, "bool"), StrLit(1)>>), Req(<<Bin("==", V(1), V(2), "bool")>>), Req(<<Bin("&&", VT(1, "bool"), VT(2, "bool"), "bool"), StrLit(2)>>),
              Req(<<Un("!", "true", VT(1, "bool"), "bool")>>), Req(<<Tup(<<VT(1, "bool")>>, "false", "bool")>>), Req(<<BoolLit(1)>>),
              Req(<<Node("Conditional", [type |-> "bool"], "condition" :> <<VT(1, "bool")>> @@ "trueExpression" :> <<VT(2, "bool")>> @@ "falseExpression" :> <<VT(3, "bool")>>)>>),
              Req(<<Asg("=", VT(1, "bool"), VT(2, "bool"), "bool")>>), Req(<<Call(V(1), <<Call(Ident("require", "function"), <<VT(2, "bool")>>, <<>>, "tuple()")>>, <<>>, "bool")>>),
              ES(Call(Ident("assert", "function"), <<VT(1, "bool")>>, <<>>, "tuple()")), ES(Call(Ident("requires", "function"), <<VT(1, "bool")>>, <<>>, "tuple()")),
              ES(Call(Mem(V(1), "require", "function"), <<VT(1, "bool")>>, <<>>, "tuple()"))>>
Del(e, m) == Mem(e, m, "function")
Delegates == <<ES(Call(Del(V(1), "delegatecall"), <<V(2)>>, <<>>, "bool")), ES(Call(Del(V(1), "call"), <<V(2)>>, <<>>, "bool")), ES(Call(Del(V(1), "staticcall"), <<V(2)>>, <<>>, "bool")),
               ES(Call(Del(Del(V(1), "delegatecall"), "delegatecall"), <<>>, <<>>, "bool")), ES(Del(V(1), "delegatecalls")), ES(Ident("delegatecall", "function")),
               ES(Call(Node("FunctionCallOptions", NoA, "expression" :> <<Del(V(1), "delegatecall")>> @@ "names" :> Names(1, 1) @@ "options" :> <<V(3)>>), <<V(2)>>, <<>>, "bool"))>>

All == Operators \o Chains \o Unaries \o CallTypes \o CallLits \o Asgs \o Ints \o Blocks \o Bodies \o Requires \o Delegates
N == (Len(All) + Per - 1) \div Per
ASSUME JsonSerialize(Out, [i \in 1..N |-> Wrap(i, SelectSeq([j \in 1..Per |-> IF i + (j - 1) * N <= Len(All) THEN All[i + (j - 1) * N] ELSE Null],
                                                            LAMBDA x : x.t # "null"))])
=============================================================================
