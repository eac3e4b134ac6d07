------------------------------- MODULE SolGen -------------------------------
(* Generator of Solidity syntax trees, written as a grammar.  Every           *)
(* production takes the generators of its parts as parameters, so that the    *)
(* same productions serve random programs and systematic "parent x child"     *)
(* combinations.                                                              *)
EXTENDS Tree, Rnd

Nm(s) == Pick(s, 95, <<"a", "a", "a", "a", "a", "_", "$", "A_b$", "returns", "memory_", "requires", "x0x">>) \o ToString(s)
Opt(b, r, n) == IF b THEN (r :> <<n>>) ELSE NoK
OptA(b, x, v) == IF b THEN (x :> v) ELSE NoA

TyStrs == <<"uint256", "int128", "bool", "address", "uint8", "int256", "bytes32", "uint256[] memory", "string memory", "contract C">>
Ty(s) == Pick(s, 90, TyStrs)

Ident(nm, ty) == Node("Identifier", [name |-> nm, type |-> ty], NoK)
Id(s) == Ident(Nm(s), Ty(s))
Num(v) == Node("Literal", [kind |-> "number", value |-> v, type |-> "int_const " \o v], NoK)
NumForms == <<"0", "1", "7", "42", "255", "1000", "0x1F", "0xfF", "1e3", "1_000", "9223372036854775807",
              "340282366920938463463374607431768211456", "2e2", "10", "99", "0xffffffffffffffffffffffff">>
NumLit(s) == IF Chance(s, 1, 3) THEN Num(Pick(s, 2, NumForms)) ELSE Num(ToString(s))
FracLit(s) == Node("Literal", [kind |-> "number", value |-> Pick(s, 1, <<"0.5", "2.5e3", ".25">>), type |-> "rational_const"], NoK)
UnitLit(s) == Node("Literal", [kind |-> "number", value |-> ToString(s), subdenomination |-> Pick(s, 1, <<"ether", "days", "wei", "gwei", "seconds", "minutes", "hours", "weeks", "years", "finney", "szabo">>), type |-> "int_const"], NoK)
BoolLit(s) == Node("Literal", [kind |-> "bool", value |-> Pick(s, 1, <<"true", "false">>), type |-> "bool"], NoK)
\* string contents are named here and spelled out by the driver
StrLit(s) == Node("Literal", [kind |-> Pick(s, 1, <<"string", "string", "unicodeString", "hexString">>),
                              content |-> Pick(s, 2, <<"plain", "space", "empty", "quote", "backslash", "newline", "tab",
                                                       "ctrl", "latin", "wide", "binary", "nul", "slashes", "long">>),
                              type |-> "literal_string"], NoK)
Leaf(s) ==
  LET c == Rn(s, 3) % 12 IN
  CASE c \in 0..5 -> Id(s) [] c \in 6..8 -> NumLit(s) [] c = 9 -> BoolLit(s)
    [] c = 10 -> StrLit(s) [] OTHER -> Pick(s, 4, <<UnitLit(s), FracLit(s), NumLit(s)>>)

BinOps == <<"+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^", "<", ">", "<=", ">=", "==", "!=", "&&", "||">>
AsgOps == <<"=", "=", "=", "=", "=", "=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>=">>
Bin(op, l, r, ty) == Node("BinaryOperation", [operator |-> op, type |-> ty], "leftExpression" :> <<l>> @@ "rightExpression" :> <<r>>)
Un(op, pre, e, ty) == Node("UnaryOperation", [operator |-> op, prefix |-> pre, type |-> ty], "subExpression" :> <<e>>)
Asg(op, l, r, ty) == Node("Assignment", [operator |-> op, type |-> ty], "leftHandSide" :> <<l>> @@ "rightHandSide" :> <<r>>)
Call(f, args, names, ty) == Node("FunctionCall", [kind |-> "functionCall", type |-> ty],
                                 "expression" :> <<f>> @@ "arguments" :> args @@ "names" :> names)
Str(v) == Node("#", [v |-> v], NoK)
Names(n, s) == [j \in 1..n |-> Str("p" \o ToString(j))]
OptNames(s, n) == [j \in 1..n |-> Str(<<"value", "gas", "salt">>[((s + j) % 3) + 1])]
Mem(e, m, ty) == Node("MemberAccess", [memberName |-> m, type |-> ty], "expression" :> <<e>>)
Idx(b, i, ty) == Node("IndexAccess", [type |-> ty], "baseExpression" :> <<b>> @@ "indexExpression" :> <<i>>)
Tup(cs, arr, ty) == Node("TupleExpression", [isInlineArray |-> arr, type |-> ty], "components" :> cs)
Null == Node("null", NoA, NoK)

\* something a postfix operator may follow directly
Base(n, s) == IF n.t \in {"Literal"} THEN Id(s) ELSE n
LVal(n, s) == IF n.t \in {"Identifier", "MemberAccess", "IndexAccess"} THEN n ELSE Id(s)

ElemTypes == <<"uint256", "int128", "bool", "address", "bytes32", "string", "bytes", "uint8", "int256", "bytes1", "uint24", "int8", "fixed128x18">>
Elem(nm) == Node("ElementaryTypeName", [name |-> nm], NoK)
Payable == Node("ElementaryTypeName", [name |-> "address", stateMutability |-> "payable"], NoK)
Path(nm) == Node("IdentifierPath", [name |-> nm], NoK)
UType(nm) == Node("UserDefinedTypeName", NoA, "pathNode" :> <<Path(nm)>>)

VarDecl(ty, nm, attrs, kids) ==
  Node("VariableDeclaration", attrs @@ [name |-> nm, visibility |-> "internal", constant |-> "false", stateVariable |-> "false",
                               mutability |-> "mutable", storageLocation |-> "default"], "typeName" :> <<ty>> @@ kids)
Param(ty, nm, loc) == VarDecl(ty, nm, [storageLocation |-> loc], NoK)
Params(ps) == Node("ParameterList", NoA, "parameters" :> ps)

RECURSIVE TypeName(_, _)
TypeName(s, d) ==
  LET c == Rn(s, 5) % (IF d = 0 THEN 5 ELSE 12) IN
  CASE c \in 0..2 -> Elem(Pick(s, 6, ElemTypes))
    [] c = 3 -> Payable
    [] c = 4 -> UType(Pick(s, 7, <<"C0", "L0.T0", "S0", "M.L1.T1">>))
    [] c \in 5..6 -> Node("Mapping", IF Chance(s, 8, 2) THEN [keyName |-> "", valueName |-> ""]
                                     ELSE [keyName |-> Pick(s, 9, <<"", "kn">>), valueName |-> Pick(s, 18, <<"", "vn">>)],
                          "keyType" :> <<IF Chance(s, 16, 4) THEN UType("L0.K0") ELSE Elem(Pick(s, 6, ElemTypes))>> @@ "valueType" :> <<TypeName(Rn(s, 10), d - 1)>>)
    [] c \in 7..9 -> Node("ArrayTypeName", NoA,
                          "baseType" :> <<TypeName(Rn(s, 11), d - 1)>> @@ Opt(Chance(s, 12, 2), "length", Pick(s, 14, <<NumLit(Rn(s, 13)), NumLit(Rn(s, 13)), Id(Rn(s, 13)), Bin("+", Id(Rn(s, 13)), NumLit(s), "uint256")>>)))
    [] OTHER -> Node("FunctionTypeName",
                     [visibility |-> Pick(s, 14, <<"internal", "external">>),
                      stateMutability |-> Pick(s, 15, <<"nonpayable", "view", "pure", "payable">>)],
                     "parameterTypes" :> <<Params(Many(LAMBDA x : Param(TypeName(x, 0), "", "default"), s, 20, Upto(s, 16, 2)))>>
                     @@ "returnParameterTypes" :> <<Params(Many(LAMBDA x : Param(TypeName(x, 0), "", "default"), s, 30, Upto(s, 17, 2)))>>)

-----------------------------------------------------------------------------
(* Expressions: production j with parts from E                                *)
NExpr == 29
ExprProd(j, s, E(_)) ==
  LET e1 == E(Rn(s, 41))
      e2 == E(Rn(s, 42))
      e3 == E(Rn(s, 43))
  IN
  CASE j \in 1..5 -> Bin(Pick(s, 44, BinOps), e1, e2, Ty(s))
    [] j = 6 -> Un(Pick(s, 44, <<"-", "!", "~">>), "true", e1, Ty(s))
    [] j = 7 -> Un(Pick(s, 44, <<"++", "--">>), "true", LVal(e1, s), Ty(s))
    [] j = 8 -> Un(Pick(s, 44, <<"++", "--">>), "false", LVal(e1, s), Ty(s))
    [] j = 9 -> Asg(Pick(s, 44, AsgOps), LVal(e1, s), e2, Ty(s))
    [] j = 10 -> Call(Base(e1, s), <<e2>>, <<>>, Ty(s))
    [] j = 11 -> Call(Ident("f" \o ToString(s), "function"), <<e1, e2>>, <<>>, Ty(s))
    [] j = 12 -> LET es == SubSeq(<<e1, e2, e3>>, 1, Pick(s, 45, <<1, 2, 3, 3, 3>>)) \o Many(Leaf, s, 60, Pick(s, 45, <<0, 0, 0, 1, 4>>))
                 IN Call(Ident("g" \o ToString(s), "function"), es, Names(Len(es), s), Ty(s))
    [] j = 13 -> Call(Ident("h" \o ToString(s), "function"), <<>>, <<>>, Ty(s))
    [] j = 14 -> Call(Node("FunctionCallOptions", NoA,
                           "expression" :> <<Mem(Base(e1, s), Pick(s, 45, <<"call", "delegatecall", "foo">>), "function")>>
                           @@ Pick(s, 46, <<"names" :> OptNames(s, 2) @@ "options" :> <<e2, e3>>, "names" :> OptNames(s, 1) @@ "options" :> <<e2>>,
                                          "names" :> OptNames(s, 3) @@ "options" :> <<e2, Id(s), e3>>>>)),
                      Many(Id, s, 60, Within(s, 47, 2)), <<>>, Ty(s))
    [] j = 15 -> Call(Node("NewExpression", NoA, "typeName" :> <<Pick(s, 44, <<UType("C0"), UType("L0.C1"), Elem("bytes"), Node("ArrayTypeName", NoA, "baseType" :> <<Elem("uint256")>>)>>)>>), <<e1>>, <<>>, Ty(s))
    [] j = 16 -> Mem(Base(e1, s), Pick(s, 44, <<"length", "balance", "m1">>), Ty(s))
    [] j = 17 -> Call(Mem(Base(e1, s), Pick(s, 44, <<"delegatecall", "call", "add", "transfer">>), "function"), <<e2>>, <<>>, Ty(s))
    [] j = 18 -> Idx(Base(e1, s), e2, Ty(s))
    [] j = 19 -> Node("IndexRangeAccess", [type |-> Ty(s)], "baseExpression" :> <<Base(e1, s)>>
                      @@ Opt(Rn(s, 44) % 4 # 0, "startExpression", e2) @@ Opt(Rn(s, 45) % 3 # 0, "endExpression", e3))
    [] j = 20 -> Tup(<<e1>>, "false", Ty(s))
    [] j = 21 -> Tup(Pick(s, 44, <<Many(LAMBDA x : IF Chance(x, 44, 3) THEN E(x) ELSE IF Chance(x, 45, 2) THEN Null ELSE Leaf(x), s, 60, 2 + Upto(s, 45, 3)), <<e1, e2>>, <<Null, e1>>, <<e1, Null>>, <<e1, Null, e2>>, <<Null, Null, e1>>, <<e1, e2, e3>>>>), "false", Ty(s))
    [] j = 22 -> Tup(Pick(s, 44, <<<<e1>>, <<e1, e2>>, <<e1, e2, e3>>>>), "true", Ty(s))
    [] j = 23 -> Node("Conditional", [type |-> Ty(s)], "condition" :> <<e1>> @@ "trueExpression" :> <<e2>> @@ "falseExpression" :> <<e3>>)
    [] j = 24 -> Call(Node("ElementaryTypeNameExpression", [isPure |-> "true"], "typeName" :> <<Pick(s, 44, <<Elem("uint256"), Elem("address"), Payable, Elem("bytes32"), Elem("string")>>)>>), <<e1>>, <<>>, Ty(s))
    [] j = 25 -> Call(Ident("k" \o ToString(s), "function"), <<NumLit(Rn(s, 46)), Pick(s, 47, <<BoolLit(s), NumLit(Rn(s, 48)), e1>>)>>, <<>>, Ty(s))
    [] j = 26 -> Call(Ident("require", "function"), Pick(s, 47, <<<<e1>>, <<e1, StrLit(s)>>>>), <<>>, "tuple()")
    [] j = 28 -> Call(Ident("l" \o ToString(s), "function"), Many(LAMBDA x : IF Chance(x, 44, 3) THEN E(x) ELSE Leaf(x), s, 60, 4 + Upto(s, 45, 3)), <<>>, Ty(s))
    [] j = 29 -> Tup(Many(LAMBDA x : IF Chance(x, 44, 3) THEN E(x) ELSE Leaf(x), s, 60, 4 + Upto(s, 45, 3)), Pick(s, 46, <<"true", "false">>), Ty(s))
    [] OTHER -> Leaf(s)
RECURSIVE Expr(_, _)
Depth(s) == Pick(s, 91, <<1, 1, 1, 1, 2, 3>>)
Expr(s, d) == IF d = 0 THEN Leaf(s) ELSE ExprProd((Rn(s, 40) % NExpr) + 1, s, LAMBDA x : Expr(x, d - 1))

-----------------------------------------------------------------------------
(* Inline assembly                                                            *)
YId(s) == Node("YulIdentifier", [name |-> "y" \o ToString(s) \o Pick(s, 1, <<"", "", "", ".slot", "_$">>)], NoK)
YTyped(s) == Node("YulTypedName", [name |-> "y" \o ToString(s)], NoK)
YNum(v) == Node("YulLiteral", [kind |-> "number", value |-> v], NoK)
YCall(f, args) == Node("YulFunctionCall", NoA, "functionName" :> <<Node("YulIdentifier", [name |-> f], NoK)>> @@ "arguments" :> args)
RECURSIVE YExpr(_, _), YStmt(_, _)
YExpr(s, d) ==
  LET c == Rn(s, 5) % (IF d = 0 THEN 5 ELSE 8) IN
  CASE c \in 0..1 -> YId(s) [] c = 2 -> YNum(Pick(s, 6, <<ToString(s), "0x40", "0xfFfF", "0">>))
    [] c = 3 -> Node("YulLiteral", [kind |-> "bool", value |-> Pick(s, 6, <<"true", "false">>)], NoK)
    [] c = 4 -> Node("YulLiteral", [kind |-> "string", content |-> Pick(s, 6, <<"plain", "quote", "backslash", "space", "empty">>)], NoK)
    [] OTHER -> YCall(Pick(s, 6, <<"add", "mload", "calldataload", "sub">>), Many(LAMBDA x : YExpr(x, d - 1), s, 10, Upto(s, 7, 2)))
YBlk(ss) == Node("YulBlock", NoA, "statements" :> ss)
YStmt(s, d) ==
  LET c == Rn(s, 5) % (IF d = 0 THEN 6 ELSE 12)
      body == YBlk(Many(LAMBDA x : YStmt(x, d - 1), s, 20, Upto(s, 8, 2)))
  IN
  CASE c \in 0..1 -> Node("YulVariableDeclaration", NoA, "variables" :> Many(YTyped, s, 30, 1 + Upto(s, 9, 1))
                          @@ Opt(Rn(s, 10) % 3 # 0, "value", YExpr(Rn(s, 11), 1)))
    [] c = 2 -> Node("YulAssignment", NoA, "variableNames" :> Many(YId, s, 30, 1 + Upto(s, 9, 1)) @@ "value" :> <<YExpr(Rn(s, 11), 2)>>)
    [] c \in 3..4 -> Node("YulExpressionStatement", NoA, "expression" :> <<YCall("mstore", <<YExpr(Rn(s, 12), 1), YExpr(Rn(s, 13), 1)>>)>>)
    [] c = 5 -> Node(Pick(s, 14, <<"YulBreak", "YulContinue", "YulLeave">>), NoA, NoK)
    [] c = 6 -> Node("YulIf", NoA, "condition" :> <<YExpr(Rn(s, 11), 1)>> @@ "body" :> <<body>>)
    [] c = 7 -> Node("YulSwitch", NoA, "expression" :> <<YExpr(Rn(s, 11), 1)>>
                     @@ "cases" :> (<<Node("YulCase", NoA, "value" :> <<Pick(s, 22, <<YNum("0"), YNum("0xff"), Node("YulLiteral", [kind |-> "bool", value |-> "true"], NoK),
                                                                               Node("YulLiteral", [kind |-> "string", content |-> "plain"], NoK)>>)>> @@ "body" :> <<body>>)>>
                                     \o Many(LAMBDA x : Node("YulCase", NoA, "value" :> <<YNum(ToString(x))>> @@ "body" :> <<YBlk(<<YStmt(x, 0)>>)>>), s, 50, Within(s, 19, 2))
                                     \o (IF Chance(s, 20, 3) THEN <<>> ELSE <<Node("YulCase", NoA, "body" :> <<YBlk(Many(LAMBDA x : YStmt(x, 0), s, 60, Within(s, 21, 2)))>>)>>)))
    [] c = 8 -> Node("YulForLoop", NoA, "pre" :> <<YBlk(Many(LAMBDA x : YStmt(x, 0), s, 60, Within(s, 15, 2)))>> @@ "condition" :> <<YExpr(Rn(s, 16), 1)>>
                     @@ "post" :> <<YBlk(Many(LAMBDA x : YStmt(x, 0), s, 40, Upto(s, 17, 2)))>> @@ "body" :> <<body>>)
    [] c = 9 -> Node("YulFunctionDefinition", [name |-> "yf" \o ToString(s)], "parameters" :> Many(YTyped, s, 30, Upto(s, 9, 2))
                     @@ "returnVariables" :> Many(YTyped, s, 34, Upto(s, 18, 2)) @@ "body" :> <<body>>)
    [] OTHER -> body

-----------------------------------------------------------------------------
(* Statements                                                                 *)
ES(e) == Node("ExpressionStatement", NoA, "expression" :> <<e>>)
Blk(ss) == Node("Block", NoA, "statements" :> ss)
Doc(s) == Node("StructuredDocumentation", [content |-> Pick(s, 3, <<"one", "two", "long", "wide">>)], NoK)

NStmt == 28
StmtProd(j, s, E(_), S(_)) ==
  LET e1 == E(Rn(s, 41))
      e2 == E(Rn(s, 42))
      b1 == S(Rn(s, 43))
      b2 == S(Rn(s, 44))
      asBlock(x) == IF x.t = "Block" THEN x ELSE Blk(<<x>>)
      \* declarations and unchecked blocks only occur inside blocks
      asBody(x) == IF x.t \in {"UncheckedBlock", "VariableDeclarationStatement"} THEN Blk(<<x>>) ELSE x
      notUn(x) == IF x.t = "UncheckedBlock" THEN Blk(K(x, "statements")) ELSE x
  IN
  CASE j \in 1..3 -> ES(ExprProd(Pick(s, 45, <<7, 8, 9, 9, 11, 12, 26>>), s, E))
    [] j = 4 -> ES(e1)
    [] j = 5 -> ES(Un("delete", "true", LVal(e1, s), "tuple()"))
    [] j = 6 -> Node("VariableDeclarationStatement", NoA,
                     "declarations" :> <<VarDecl(TypeName(Rn(s, 46), 1), Nm(s), [storageLocation |-> Pick(s, 47, <<"default", "memory", "storage", "calldata">>)], NoK)>>
                     @@ Opt(Rn(s, 48) % 4 # 0, "initialValue", e1))
    [] j = 7 -> Node("VariableDeclarationStatement", NoA,
                     "declarations" :> Pick(s, 46, <<Many(LAMBDA x : IF Chance(x, 1, 4) THEN Null ELSE Param(TypeName(x, 1), Nm(x), Pick(x, 2, <<"default", "memory">>)), s, 60, 2 + Upto(s, 49, 2)),
                                                     <<Param(Elem("bool"), Nm(s), "default"), Null>>,
                                                     <<Null, Param(Elem("bytes"), Nm(s), "memory")>>,
                                                     <<Param(Elem("bool"), Nm(s), "default"), Param(Elem("uint8"), Nm(Rn(s, 2)), "default"), Null>>>>)
                     @@ "initialValue" :> <<e1>>)
    [] j = 8 -> Node("IfStatement", NoA, "condition" :> <<e1>> @@ "trueBody" :> <<Blk(<<b1, b2>>)>>)
    [] j = 9 -> Node("IfStatement", NoA, "condition" :> <<e1>> @@ "trueBody" :> <<asBlock(b1)>> @@ "falseBody" :> <<asBlock(b2)>>)
    [] j = 10 -> Node("IfStatement", NoA, "condition" :> <<e1>> @@ "trueBody" :> <<ES(e2)>> @@ "falseBody" :> <<asBody(b2)>>)
    [] j = 11 -> Node("IfStatement", NoA, "condition" :> <<e1>> @@ "trueBody" :> <<Blk(<<b1>>)>>
                      @@ "falseBody" :> <<Node("IfStatement", NoA, "condition" :> <<e2>> @@ "trueBody" :> <<ES(Id(s))>>)>>)
    [] j = 12 -> Node("ForStatement", NoA,
                      Opt(Rn(s, 45) % 3 # 0, "initializationExpression",
                          Pick(s, 46, <<ES(Asg("=", Id(s), e1, "uint256")),
                                        Node("VariableDeclarationStatement", NoA, "declarations" :> <<Param(Elem("uint256"), Nm(s), "default")>> @@ "initialValue" :> <<e1>>)>>))
                      @@ Opt(Rn(s, 47) % 3 # 0, "condition", e2)
                      @@ Opt(Rn(s, 48) % 3 # 0, "loopExpression", ES(Pick(s, 51, <<Un("++", "false", Id(Rn(s, 49)), "uint256"), Asg("+=", Id(Rn(s, 49)), e1, "uint256"),
                                                                        Call(Ident("next", "function"), <<e2>>, <<>>, "tuple()")>>)))
                      @@ "body" :> <<Pick(s, 50, <<Blk(<<b1, b2>>), asBody(b1), Blk(<<b1>>)>>)>>)
    [] j = 13 -> Node("WhileStatement", NoA, "condition" :> <<e1>> @@ "body" :> <<Pick(s, 50, <<Blk(<<b1, b2>>), asBody(b1)>>)>>)
    [] j = 14 -> Node("DoWhileStatement", NoA, "condition" :> <<e1>> @@ "body" :> <<Pick(s, 50, <<Blk(<<b1>>), Blk(<<b1, b2>>), asBody(b1)>>)>>)
    [] j = 15 -> Node(Pick(s, 45, <<"Continue", "Break">>), NoA, NoK)
    [] j = 16 -> Node("Return", NoA, Opt(Rn(s, 45) % 4 # 0, "expression", e1))
    [] j = 17 -> Node("EmitStatement", NoA, "eventCall" :> <<Call(IF Chance(s, 45, 3) THEN Mem(Ident("L0", ""), "E1", "function") ELSE Ident("E0", "function"),
                                                                  SubSeq(<<e1, e2>>, 1, Pick(s, 47, <<0, 1, 2, 2, 2>>)),
                                                                  IF Chance(s, 46, 3) THEN Names(Pick(s, 47, <<0, 1, 2, 2, 2>>), s) ELSE <<>>, "tuple()")>>)
    [] j = 18 -> Node("RevertStatement", NoA, "errorCall" :> <<Call(IF Chance(s, 45, 3) THEN Mem(Ident("L0", ""), "Err1", "function") ELSE Ident("Err0", "function"),
                                                                    SubSeq(<<e1, e2>>, 1, Pick(s, 47, <<0, 1, 1, 2>>)),
                                                                    IF Chance(s, 46, 3) THEN Names(Pick(s, 47, <<0, 1, 1, 2>>), s) ELSE <<>>, "tuple()")>>)
    [] j = 19 -> Node("UncheckedBlock", NoA, "statements" :> <<notUn(b1), notUn(b2)>>)
    [] j = 20 -> Blk(<<b1, b2>>)
    [] j = 21 -> Blk(<<>>)
    [] j = 22 ->
         LET ps == Params(Many(LAMBDA x : Param(TypeName(x, 0), IF Chance(x, 1, 3) THEN "" ELSE Nm(x), "default"), s, 60, 1 + Within(s, 46, 2)))
             clause(nm, prm, blk) == Node("TryCatchClause", [errorName |-> nm], prm @@ "block" :> <<blk>>)
             all == <<clause("Error", "parameters" :> <<Params(<<Param(Elem("string"), Nm(Rn(s, 3)), "memory")>>)>>, Blk(<<b2, ES(e2)>>)),
                      clause("Panic", "parameters" :> <<Params(<<Param(Elem("uint256"), Nm(Rn(s, 4)), "default")>>)>>, Blk(<<ES(e2)>>)),
                      Pick(s, 49, <<clause("", NoK, Blk(<<>>)), clause("", NoK, Blk(<<b2>>)),
                                    clause("", "parameters" :> <<Params(<<Param(Elem("bytes"), Nm(Rn(s, 5)), "memory")>>)>>, Blk(<<b1, b2>>))>>)>>
         IN Node("TryStatement", NoA,
                 "externalCall" :> <<Pick(s, 48, <<Call(Mem(Id(s), "ext", "function"), <<e1>>, <<>>, Ty(s)),
                                                   Call(Node("NewExpression", NoA, "typeName" :> <<UType("C0")>>), <<e1, e2>>, <<>>, Ty(s)),
                                                   Call(Node("FunctionCallOptions", NoA, "expression" :> <<Mem(Id(s), "ext", "function")>> @@ "names" :> Names(1, s) @@ "options" :> <<e2>>), <<e1>>, <<>>, Ty(s))>>)>>
                 @@ "clauses" :> (<<clause("", Opt(Chance(s, 45, 2), "parameters", ps), Pick(s, 47, <<Blk(<<b1>>), Blk(<<b1>>), Blk(<<>>), Blk(<<b1, b2, ES(e1)>>)>>))>>
                                  \o SelectSeq(all, LAMBDA c : \E k \in 1..3 : c = all[k] /\ Rn(s, 50 + k) % 3 # 0)
                                  \o (IF \E k \in 1..3 : Rn(s, 50 + k) % 3 # 0 THEN <<>> ELSE <<all[3]>>)))
    [] j = 23 -> Node("InlineAssembly", IF Chance(s, 45, 2) THEN [content |-> "asm"] ELSE NoA,
                      "AST" :> <<YBlk(Many(LAMBDA x : YStmt(x, 1), s, 20, 1 + Upto(s, 46, 2)))>>
                      @@ (IF Chance(s, 47, 2) THEN "flags" :> <<Node("#", [v |-> "memory-safe"], NoK)>> ELSE NoK))
    [] j = 24 -> Blk(<<b1, b2, ES(e1), Node("Return", NoA, "expression" :> <<e2>>)>>)
    [] j = 25 -> Node("IfStatement", NoA, "condition" :> <<e1>> @@ "trueBody" :> <<asBody(b1)>>)
    [] j = 26 -> Blk(<<ES(e1), Node("Return", NoA, NoK), Node("Return", NoA, NoK)>>)
    [] j = 28 -> Blk(<<b1>> \o Many(LAMBDA x : IF Chance(x, 44, 3) THEN S(x) ELSE ES(Id(x)), s, 60, 4 + Upto(s, 45, 3)) \o <<b2>>)
    [] OTHER -> ES(Call(Ident("require", "function"), <<e1, StrLit(s)>>, <<>>, "tuple()"))
RECURSIVE Stmt(_, _)
\* a dangling else would attach elsewhere: bodies before "else" are blocks or simple statements
Stmt(s, d) ==
  StmtProd(IF d = 0 THEN Pick(s, 40, <<1, 2, 4, 6, 7, 16, 17, 18, 15, 3, 5>>) ELSE (Rn(s, 40) % NStmt) + 1,
           s, LAMBDA x : Expr(x, Depth(x)), LAMBDA x : Stmt(x, IF d = 0 THEN 0 ELSE d - 1))

-----------------------------------------------------------------------------
(* Declarations                                                               *)
Override(s) == Node("OverrideSpecifier", NoA, "overrides" :> Many(LAMBDA x : Path(Pick(x, 4, <<"C0", "C1", "L0.C2">>)), s, 60, Pick(s, 4, <<0, 0, 1, 2, 3>>)))
ModInv(s, E(_)) == Node("ModifierInvocation", NoA, "modifierName" :> <<Path("m" \o ToString(s % 7))>>
                        @@ (IF Chance(s, 5, 2) THEN "arguments" :> Many(E, s, 60, Upto(s, 6, 2)) ELSE NoK))
Fn(nm, kind, s, body, E(_)) ==
  Node("FunctionDefinition",
       [name |-> nm, kind |-> kind,
        visibility |-> IF kind = "freeFunction" THEN "internal" ELSE IF kind \in {"receive", "fallback"} THEN "external"
                       ELSE IF kind = "constructor" THEN "public" ELSE Pick(s, 1, <<"public", "external", "internal", "private">>),
        stateMutability |-> IF kind = "receive" THEN "payable" ELSE Pick(s, 2, <<"nonpayable", "view", "pure", "payable">>),
        virtual |-> IF kind \in {"function", "fallback", "receive"} /\ Chance(s, 3, 3) THEN "true" ELSE "false",
        implemented |-> IF body = <<>> THEN "false" ELSE "true"],
       "parameters" :> <<Params(IF kind = "receive" THEN <<>> ELSE Many(LAMBDA x : Param(TypeName(x, 1), IF Chance(x, 1, 4) THEN "" ELSE Nm(x), Pick(x, 2, <<"default", "memory", "calldata">>)), s, 20, Upto(s, 7, 2)))>>
       @@ "returnParameters" :> <<Params(IF kind \in {"receive", "constructor"} THEN <<>> ELSE Many(LAMBDA x : Param(TypeName(x, 0), IF Chance(x, 1, 2) THEN "" ELSE Nm(x), "default"), s, 30, Upto(s, 8, 2)))>>
       @@ "modifiers" :> (IF kind = "freeFunction" THEN <<>> ELSE Many(LAMBDA x : ModInv(x, E), s, 50, Upto(s, 9, 2)))
       @@ Opt(kind \in {"function", "fallback", "receive"} /\ Chance(s, 10, 3), "overrides", Override(s))
       @@ Opt(Chance(s, 11, 3), "documentation", Doc(s))
       @@ (IF body = <<>> THEN NoK ELSE "body" :> body))

NDecl == 17
DeclProd(j, s, E(_), S(_)) ==
  LET body == <<Blk(Many(S, s, 70, IF Chance(s, 31, 9) THEN 0 ELSE 1 + Upto(s, 12, 2)))>> IN
  CASE j \in 1..3 -> Fn("f" \o ToString(s), "function", s, body, E)
    [] j = 4 -> Fn("", Pick(s, 13, <<"constructor", "fallback", "receive">>), s, body, E)
    [] j = 5 -> Fn("f" \o ToString(s), "function", s, <<>>, E)
    [] j = 6 -> Node("ModifierDefinition", [name |-> "m" \o ToString(s), virtual |-> Pick(s, 1, <<"true", "false">>), visibility |-> "internal"],
                     "parameters" :> <<Params(Many(LAMBDA x : Param(TypeName(x, 0), Nm(x), "default"), s, 20, Upto(s, 7, 2)))>>
                     @@ Opt(Chance(s, 10, 2), "overrides", Override(s)) @@ Opt(Chance(s, 11, 3), "documentation", Doc(s))
                     @@ (IF Chance(s, 14, 6) THEN NoK ELSE "body" :> <<Blk(<<S(Rn(s, 71)), Node("PlaceholderStatement", NoA, NoK), S(Rn(s, 72))>>)>>))
    [] j \in 7..9 ->
         LET c == Rn(s, 14) % 4 IN
         VarDecl(TypeName(Rn(s, 15), 2), Nm(s),
                 [stateVariable |-> "true", visibility |-> Pick(s, 16, <<"public", "private", "internal">>),
                  constant |-> IF c = 0 THEN "true" ELSE "false",
                  mutability |-> CASE c = 0 -> "constant" [] c = 1 -> "immutable" [] OTHER -> "mutable"],
                 Opt(Chance(s, 17, 3), "overrides", Override(s)) @@ Opt(c = 0 \/ Chance(s, 18, 2), "value", E(Rn(s, 19)))
                 @@ Opt(Chance(s, 11, 4), "documentation", Doc(s)))
    [] j = 10 -> Node("EventDefinition", [name |-> "E" \o ToString(s), anonymous |-> Pick(s, 1, <<"true", "false">>)],
                      "parameters" :> <<Params(Many(LAMBDA x : VarDecl(TypeName(x, 0), IF Chance(x, 1, 3) THEN "" ELSE Nm(x), [indexed |-> Pick(x, 2, <<"true", "false">>)], NoK), s, 20, Upto(s, 7, 3)))>>
                      @@ Opt(Chance(s, 11, 3), "documentation", Doc(s)))
    [] j = 11 -> Node("ErrorDefinition", [name |-> "Err" \o ToString(s)],
                      "parameters" :> <<Params(Many(LAMBDA x : Param(TypeName(x, 0), Nm(x), "default"), s, 20, Upto(s, 7, 2)))>>
                      @@ Opt(Chance(s, 11, 3), "documentation", Doc(s)))
    [] j = 12 -> Node("StructDefinition", [name |-> "S" \o ToString(s)],
                      "members" :> Many(LAMBDA x : VarDecl(TypeName(x, 2), Nm(x), NoA, NoK), s, 20, 1 + Upto(s, 7, 2))
                      @@ Opt(Chance(s, 11, 3), "documentation", Doc(s)))
    [] j = 13 -> Node("EnumDefinition", [name |-> "N" \o ToString(s)],
                      "members" :> Many(LAMBDA x : Node("EnumValue", [name |-> Nm(x)], NoK), s, 20, 1 + Upto(s, 7, 2))
                      @@ Opt(Chance(s, 11, 4), "documentation", Doc(s)))
    [] j = 14 -> Node("UsingForDirective", [global |-> "false"],
                      (IF Chance(s, 1, 2) THEN "libraryName" :> <<Path(Pick(s, 5, <<"L0", "M.L1">>))>>
                       ELSE "functionList" :> Many(LAMBDA x : Node("{}", NoA, "function" :> <<Path(Pick(x, 4, <<"L0.fa", "fb", "M.L1.fc">>))>>), s, 60, 1 + Within(s, 5, 2)))
                      @@ Opt(Rn(s, 2) % 3 # 0, "typeName", TypeName(Rn(s, 3), 1)))
    [] j = 15 -> Node("UserDefinedValueTypeDefinition", [name |-> "V" \o ToString(s)], "underlyingType" :> <<Pick(s, 5, <<Elem("uint256"), Elem("bytes32"), Payable>>)>>)
    [] j = 16 -> Fn("g" \o ToString(s), "function", s, <<Blk(<<>>)>>, E)
    [] OTHER -> Fn("f" \o ToString(s), "function", s, <<Blk(<<S(Rn(s, 73)), S(Rn(s, 74)), S(Rn(s, 75)), S(Rn(s, 76))>>)>>, E)
Decl(s, d) == DeclProd((Rn(s, 40) % NDecl) + 1, s, LAMBDA x : Expr(x, 1), LAMBDA x : Stmt(x, d))

Contract(nm, kind, abs, bases, doc, nodes) ==
  Node("ContractDefinition", [name |-> nm, contractKind |-> kind, abstract |-> abs],
       "nodes" :> nodes @@ "baseContracts" :> bases @@ doc)
PragmaLits == <<<<"solidity", "^", "0.8", ".13">>, <<"solidity", ">=", "0.4", ".22", "<", "0.9", ".0">>, <<"abicoder", "v2">>,
                <<"experimental", "ABIEncoderV2">>, <<"solidity", "0.8", ".19">>, <<"solidity", "^", "0.8", ".0", "||", "^", "0.7", ".0">>,
                <<"solidity", "0.5", ".0", "-", "0.8", ".9">>, <<"solidity", "^", "0.8", ".0", "0.8", ".5">>, <<"solidity", "=", "0.8", ".1">>,
                <<"solidity", "~", "0.8", ".4", ">", "0.8", ".1", "<=", "0.8", ".30">>, <<"solidity", "0.8", ".", "*">>, <<"solidity", "*">>,
                <<"solidity", "0", ".", "x">>, <<"abicoder", "v1">>, <<"experimental", "SMTChecker">>>>
Pragma(s) == Node("PragmaDirective", NoA, "literals" :> [j \in 1..Len(Pick(s, 1, PragmaLits)) |-> Str(Pick(s, 1, PragmaLits)[j])])
Import(s) ==
  Node("ImportDirective", [file |-> Pick(s, 1, <<"./A.sol", "lib/B b.sol", "@oz/c-1.0/D_e.sol", "https://example.org/F.sol">>), unitAlias |-> Pick(s, 2, <<"", "Alias">>)],
       "symbolAliases" :> (IF Chance(s, 3, 2) /\ Rn(s, 2) % 2 = 0
                           THEN Many(LAMBDA x : Node("{}", IF Chance(x, 4, 2) THEN [local |-> "X" \o ToString(x)] ELSE NoA, "foreign" :> <<Ident("Y" \o ToString(x), "")>>),
                                     s, 60, 1 + Upto(s, 5, 2))
                           ELSE <<>>))
Inherit(s) == Node("InheritanceSpecifier", NoA, "baseName" :> <<Path(Pick(s, 5, <<"", "L0.">>) \o "B" \o ToString(s % 5))>>
                   @@ (IF Chance(s, 1, 3) THEN "arguments" :> Many(LAMBDA x : Expr(x, 1), s, 60, Within(s, 4, 2)) ELSE NoK))
NTop == 8
TopProd(j, s) ==
  CASE j = 1 -> Pragma(s) [] j = 2 -> Import(s)
    [] j = 3 -> DeclProd(12, s, LAMBDA x : Expr(x, 1), LAMBDA x : Stmt(x, 0))
    [] j = 4 -> VarDecl(TypeName(Rn(s, 3), 1), "K" \o ToString(s), [constant |-> "true", mutability |-> "constant"], "value" :> <<Expr(Rn(s, 2), 1)>>)
    [] j = 5 -> Fn("free" \o ToString(s), "freeFunction", s, <<Blk(Many(LAMBDA x : Stmt(x, 0), s, 70, Within(s, 5, 3)))>>, Leaf)
    [] j = 6 -> Node("UsingForDirective", [global |-> "true"],
                     "functionList" :> Many(LAMBDA x : IF Chance(x, 2, 3) THEN Node("{}", NoA, "function" :> <<Path("L1.fc")>>)
                                                       ELSE Node("{}", [operator |-> Pick(x, 1, <<"+", "-", "*", "/", "%", "|", "&", "^", "~", "==", "!=", "<", "<=", ">", ">=">>)],
                                                                 "definition" :> <<Path(Pick(x, 3, <<"opf", "L1.opg">>))>>), s, 60, 1 + Within(s, 1, 3))
                     @@ "typeName" :> <<UType("V0")>>)
    [] j = 7 -> DeclProd(Pick(s, 1, <<11, 13, 15>>), s, Leaf, LAMBDA x : Stmt(x, 0))
    [] OTHER -> Contract("I" \o ToString(s), Pick(s, 1, <<"interface", "library">>), "false", Many(Inherit, s, 110, Within(s, 6, 1)), Opt(Chance(s, 7, 3), "documentation", Doc(s)),
                         Many(LAMBDA x : DeclProd(Pick(x, 1, <<5, 5, 10, 11, 12, 13, 14, 15>>), x, Leaf, LAMBDA y : Stmt(y, 0)), s, 60, Within(s, 8, 3)))
Top(s) == TopProd((Rn(s, 39) % NTop) + 1, s)

Unit(lic, nodes) == Node("SourceUnit", OptA(lic # "", "license", lic), "nodes" :> nodes)

\* a random program with nd contract members of statement depth d
Program(s, nd, d) ==
  Unit(Pick(s, 1, <<"", "MIT", "GPL-3.0-or-later">>),
       <<Pragma(Rn(s, 2))>> \o Many(Top, s, 100, Upto(s, 3, 2))
       \o <<Contract("C" \o ToString(s), "contract", Pick(s, 5, <<"true", "false">>),
                     Many(Inherit, s, 110, Upto(s, 6, 2)),
                     Opt(Chance(s, 7, 3), "documentation", Doc(s)),
                     Many(LAMBDA x : Decl(x, d), s, 120, nd))>>)
\* a program whose statements come from the operator given
Wrap(s, stmts) ==
  Unit("", <<Contract("C" \o ToString(s), "contract", "false", <<>>, NoK,
                      <<Fn("f" \o ToString(s), "function", 46330, <<Blk(stmts)>>, Leaf)>>)>>)
\* systematic combinations: expression production p with every child of production c
PairExpr(p, c, s) == ExprProd(p, s, LAMBDA x : ExprProd(c, x, LAMBDA y : Leaf(y)))
PairStmt(p, c, s) == StmtProd(p, s, LAMBDA x : Leaf(x), LAMBDA x : StmtProd(c, x, LAMBDA y : Leaf(y), LAMBDA y : ES(Id(y))))
ExprInStmt(p, c, s) == StmtProd(p, s, LAMBDA x : ExprProd(c, x, LAMBDA y : Leaf(y)), LAMBDA x : ES(Id(x)))
=============================================================================
