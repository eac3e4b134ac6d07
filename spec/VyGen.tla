-------------------------------- MODULE VyGen --------------------------------
(* Generator of Vyper syntax trees, written as a grammar.  Every production     *)
(* takes the generators of its parts as parameters, so that the same            *)
(* productions serve random programs and systematic "parent x child"            *)
(* combinations.                                                                *)
EXTENDS Tree, Rnd

Nm(s) == Pick(s, 95, <<"a", "a", "a", "a", "a", "_", "A_b", "returns", "self_", "not_", "x0x">>) \o ToString(s)
Opt(b, r, n) == IF b THEN (r :> <<n>>) ELSE NoK

Name(id) == Node("Name", [id |-> id], NoK)
Id(s) == Name(Nm(s))
IntN(v) == Node("Int", [value |-> v], NoK)
IntForms == <<"0", "1", "-1", "255", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616",
              "-9223372036854775808", "-9223372036854775809", "-5", "99", "340282366920938463463374607431768211455",
              "115792089237316195423570985008687907853269984665640564039457584007913129639935">>
IntLit(s) == IF Chance(s, 1, 2) THEN IntN(Pick(s, 2, IntForms)) ELSE IntN(ToString(s))
DecLit(s) == Node("Decimal", [value |-> Pick(s, 1, <<"0.5", "-2.25", "1000.0", "3.1415926535">>)], NoK)
HexLit(s) == Node("Hex", [value |-> Pick(s, 1, <<"0x00", "0xdeadBEEF", "0x5B38Da6a701c568545dCfcB03FcB875f56beddC4">>)], NoK)
StrLit(s) == Node("Str", [content |-> Pick(s, 1, <<"plain", "space", "empty", "quote", "backslash", "newline", "tab", "ctrl", "hash", "long", "docq", "latin">>)], NoK)
BytesLit(s) == Node("Bytes", [content |-> Pick(s, 1, <<"plain", "empty", "quote", "binary", "space", "backslash">>)], NoK)
BoolLit(s) == Node("NameConstant", [value |-> Pick(s, 1, <<"True", "False">>)], NoK)
Attr(e, x) == Node("Attribute", [attr |-> x], "value" :> <<e>>)
SelfAttr(s) == Attr(Name("self"), Nm(s))
Leaf(s) ==
  LET c == Rn(s, 3) % 14 IN
  CASE c \in 0..4 -> Id(s) [] c \in 5..6 -> SelfAttr(s) [] c \in 7..8 -> IntLit(s) [] c = 9 -> BoolLit(s)
    [] c = 10 -> StrLit(s) [] c = 11 -> DecLit(s) [] c = 12 -> HexLit(s) [] OTHER -> Pick(s, 4, <<BytesLit(s), Attr(Name("msg"), "sender")>>)

ArithOps == <<"Add", "Sub", "Mult", "Div", "Mod", "Pow", "FloorDiv", "BitAnd", "BitOr", "BitXor", "LShift", "RShift">>
CmpOps == <<"Eq", "NotEq", "Lt", "Gt", "LtE", "GtE", "In", "NotIn">>
Bin(op, l, r) == Node("BinOp", [operator |-> op], "left" :> <<l>> @@ "right" :> <<r>>)
Cmp(op, l, r) == Node("Compare", [operator |-> op], "left" :> <<l>> @@ "right" :> <<r>>)
Boo(op, vs) == Node("BoolOp", [operator |-> op], "values" :> vs)
Un(op, e) == Node("UnaryOp", [operator |-> op], "operand" :> <<e>>)
Call(f, args, kws) == Node("Call", NoA, "func" :> <<f>> @@ "args" :> args @@ "keywords" :> kws)
Kw(nm, e) == Node("keyword", [arg |-> nm], "value" :> <<e>>)
Sub(e, i) == Node("Subscript", NoA, "value" :> <<e>> @@ "slice" :> <<Node("Index", NoA, "value" :> <<i>>)>>)
Tup(es) == Node("Tuple", NoA, "elements" :> es)
Lst(es) == Node("List", NoA, "elements" :> es)
DictOf(ks, vs) == Node("Dict", NoA, "keys" :> ks @@ "values" :> vs)

\* something a postfix may follow directly
Base(n, s) == IF n.t \in {"Int", "Decimal", "Hex", "NameConstant", "Dict", "Str", "Bytes"} THEN Id(s) ELSE n
LVal(n, s) == IF n.t \in {"Name", "Attribute", "Subscript"} THEN n ELSE Pick(s, 77, <<Id(s), SelfAttr(s)>>)

NExpr == 30
ExprProd(j, s, E(_)) ==
  LET e1 == E(Rn(s, 31))
      e2 == E(Rn(s, 32))
      e3 == E(Rn(s, 33))
      b1 == Base(e1, s)
  IN
  CASE j \in 1..2 -> Bin(Pick(s, 45, ArithOps), e1, e2)
    [] j = 3 -> Bin("Pow", e1, e2)
    [] j = 4 -> Cmp(Pick(s, 45, CmpOps), e1, e2)
    [] j = 5 -> Cmp(Pick(s, 45, <<"In", "NotIn">>), e1, Lst(<<e2, e3>>))
    [] j = 6 -> Boo(Pick(s, 45, <<"And", "Or">>), <<e1, e2>>)
    [] j = 7 -> Boo(Pick(s, 45, <<"And", "Or">>), <<e1, e2, e3>>)
    [] j = 8 -> Un("Not", e1)
    [] j = 9 -> Un("Invert", e1)
    [] j = 10 -> Un("USub", e1)
    [] j = 11 -> Node("IfExp", NoA, "test" :> <<e1>> @@ "body" :> <<e2>> @@ "orelse" :> <<e3>>)
    [] j = 12 -> Call(Attr(Name("self"), "f" \o ToString(s)), <<e1, e2>>, <<>>)
    [] j = 13 -> Call(Name("g" \o ToString(s)), <<e1>>, Pick(s, 46, <<<<Kw("value", e2), Kw("gas", e3)>>, <<Kw("value", e2)>>, <<Kw("value", e2), Kw("gas", e3), Kw("skip_contract_check", BoolLit(s))>>>>))
    [] j = 14 -> Call(Name("h" \o ToString(s)), <<>>, IF Chance(s, 46, 2) THEN <<Kw("x", e1)>> ELSE <<>>)
    [] j = 15 -> Call(Attr(b1, "m" \o ToString(s)), <<e2, e3, Id(s)>>, <<>>)
    [] j = 16 -> Attr(b1, Pick(s, 45, <<"balance", "x1">>))
    [] j = 17 -> Sub(b1, e2)
    [] j = 18 -> Sub(b1, Tup(<<e2, e3>>))
    [] j = 19 -> Tup(Pick(s, 45, <<<<e1, e2>>, <<e1, e2, e3>>>>))
    [] j = 20 -> Tup(Pick(s, 45, <<<<e1>>, <<e1>>, <<>>>>))
    [] j = 21 -> Lst(Pick(s, 45, <<<<e1>>, <<e1, e2>>, <<>>, <<e1, e2, e3>>>>))
    [] j = 22 -> Call(Name("S0"), <<Pick(s, 45, <<DictOf(<<Name("x"), Name("y")>>, <<e1, e2>>), DictOf(<<Name("x")>>, <<e1>>), DictOf(<<Name("x"), Name("y"), Name("z")>>, <<e1, Leaf(s), e2>>)>>)>>, <<>>)
    [] j = 23 -> Call(Name("convert"), <<e1, Name("uint256")>>, <<>>)
    [] j = 24 -> Call(Name("k" \o ToString(s)), <<IntLit(Rn(s, 46)), Pick(s, 47, <<BoolLit(s), HexLit(s), e1>>)>>, <<>>)
    [] j = 25 -> Call(Name("empty"), <<Pick(s, 45, <<Name("address"), Sub(Name("DynArray"), Tup(<<Name("uint8"), IntLit(s)>>))>>)>>, <<>>)
    [] j = 26 -> DictOf(Pick(s, 45, <<<<Name("x")>>, <<>>>>), Pick(s, 45, <<<<e1>>, <<>>>>))
    [] j = 28 -> Call(Name("l" \o ToString(s)), Many(LAMBDA x : IF Chance(x, 44, 3) THEN E(x) ELSE Leaf(x), s, 60, 4 + Upto(s, 45, 3)),
                      Many(LAMBDA x : Kw("k" \o ToString(x), Leaf(x)), s, 90, Upto(s, 47, 2)))
    [] j = 29 -> Lst(Many(LAMBDA x : IF Chance(x, 44, 3) THEN E(x) ELSE Leaf(x), s, 60, 4 + Upto(s, 45, 3)))
    [] j = 30 -> Boo(Pick(s, 45, <<"And", "Or">>), Many(LAMBDA x : IF Chance(x, 44, 3) THEN E(x) ELSE Leaf(x), s, 60, 4 + Upto(s, 46, 3)))
    [] OTHER -> Leaf(s)
RECURSIVE Expr(_, _)
Depth(s) == Pick(s, 91, <<1, 1, 1, 1, 2, 3>>)
Expr(s, d) == IF d = 0 THEN Leaf(s) ELSE ExprProd((Rn(s, 40) % NExpr) + 1, s, LAMBDA x : Expr(x, d - 1))

-----------------------------------------------------------------------------
Elems == <<"uint256", "int128", "bool", "address", "uint8", "int256", "bytes32", "decimal", "bytes4">>
RECURSIVE Type(_, _)
Type(s, d) ==
  LET c == Rn(s, 5) % (IF d = 0 THEN 4 ELSE 10) IN
  CASE c \in 0..2 -> Name(Pick(s, 6, Elems))
    [] c = 3 -> Name(Pick(s, 6, <<"S0", "IFace", "uint256", "bool">>))
    [] c = 4 -> Sub(Name(Pick(s, 6, <<"Bytes", "String">>)), Pick(s, 8, <<IntLit(s), Name("MAX"), Bin("Mult", IntN("32"), Name("N"))>>))
    [] c = 5 -> Sub(Name("HashMap"), Tup(<<Name(Pick(s, 6, Elems)), Type(Rn(s, 7), d - 1)>>))
    [] c = 6 -> Sub(Name("DynArray"), Tup(<<Type(Rn(s, 7), d - 1), Pick(s, 8, <<IntLit(s), Name("MAX")>>)>>))
    [] c = 7 -> Sub(Type(Rn(s, 7), d - 1), IntLit(s))
    [] c = 8 -> Attr(Name("mod"), "T0")
    [] OTHER -> Name(Pick(s, 6, Elems))

-----------------------------------------------------------------------------
(* Statements                                                                   *)
ExprS(e) == Node("Expr", NoA, "value" :> <<e>>)
Assign(t, v) == Node("Assign", NoA, "target" :> <<t>> @@ "value" :> <<v>>)
If(t, b, o) == Node("If", NoA, "test" :> <<t>> @@ "body" :> b @@ "orelse" :> o)
For(t, it, b) == Node("For", NoA, "target" :> <<t>> @@ "iter" :> <<it>> @@ "body" :> b)
Ret(e) == Node("Return", NoA, "value" :> <<e>>)
Pass == Node("Pass", NoA, NoK)

NStmt == 28
StmtProd(j, s, E(_), S(_)) ==
  LET e1 == E(Rn(s, 41))
      e2 == E(Rn(s, 42))
      b1 == S(Rn(s, 43))
      b2 == S(Rn(s, 44))
  IN
  CASE j = 1 -> Assign(LVal(e1, s), e2)
    [] j = 2 -> Assign(SelfAttr(s), Pick(s, 45, <<e1, BoolLit(s), IntLit(s), e1>>))
    [] j = 3 -> Assign(Tup(Pick(s, 45, <<<<Id(s), Id(Rn(s, 2))>>, <<Id(s)>>, Many(LAMBDA x : LVal(Leaf(x), x), s, 60, 2 + Upto(s, 46, 2))>>)), e1)
    [] j = 4 -> Node("AnnAssign", NoA, "target" :> <<Id(s)>> @@ "annotation" :> <<Type(Rn(s, 46), 1)>> @@ "value" :> <<e1>>)
    [] j = 5 -> Node("AnnAssign", NoA, "target" :> <<Id(s)>> @@ "annotation" :> <<Type(Rn(s, 46), 2)>> @@ Opt(Chance(s, 47, 2), "value", e1))
    [] j = 6 -> Node("AugAssign", [operator |-> Pick(s, 45, ArithOps)], "target" :> <<LVal(e1, s)>> @@ "value" :> <<e2>>)
    [] j = 7 -> ExprS(ExprProd(Pick(s, 45, <<12, 13, 14, 15>>), s, E))
    [] j = 8 -> ExprS(e1)
    [] j = 9 -> Node("Assert", NoA, "test" :> <<e1>>)
    [] j = 10 -> Node("Assert", NoA, "test" :> <<e1>> @@ "msg" :> <<Pick(s, 45, <<StrLit(s), Name("UNREACHABLE"), e2>>)>>)
    [] j = 11 -> Node("Raise", NoA, Opt(Rn(s, 45) % 3 # 0, "exc", Pick(s, 46, <<StrLit(s), Name("UNREACHABLE"), e1>>)))
    [] j = 12 -> Node("Return", NoA, NoK)
    [] j = 13 -> Ret(e1)
    [] j = 14 -> Ret(Tup(Pick(s, 45, <<<<e1, e2>>, <<e1>>, <<e1, e2>> \o Many(Leaf, s, 60, 1 + Upto(s, 46, 2))>>)))
    [] j = 15 -> If(e1, <<b1>>, <<>>)
    [] j = 16 -> If(e1, <<b1, b2>>, <<b2>>)
    [] j = 17 -> If(e1, <<b1>>, <<If(e2, <<b2>>, Pick(s, 45, <<<<ExprS(e1), b2>>, <<>>, <<If(e1, <<b1>>, <<b2>>)>>, <<If(e1, <<b1, b2>>, <<>>)>>>>))>>)
    [] j = 18 -> If(e1, <<b1, b2, Ret(e2)>>, <<>>)
    [] j = 19 -> For(Id(s), Call(Name("range"), Pick(s, 45, <<<<e1>>, <<e1, e2>>, <<IntLit(s), Bin("Add", e1, IntLit(s))>>>>), <<>>), <<b1, b2>>)
    [] j = 20 -> For(Id(s), Pick(s, 45, <<Lst(<<e1, e2>>), LVal(e1, s), e1>>), <<b1>>)
    [] j = 21 -> For(Id(s), SelfAttr(s), <<b1, If(e1, <<b2>>, <<>>), b2>>)
    [] j = 22 -> Node(Pick(s, 45, <<"Break", "Continue", "Pass">>), NoA, NoK)
    [] j = 23 -> Node("Log", NoA, "value" :> <<Call(IF Chance(s, 47, 4) THEN Attr(Name("mod"), "E1") ELSE Name("E0"), Pick(s, 45, <<<<e1, e2>>, <<e1>>, <<>>>>),
                                            Pick(s, 46, <<<<>>, <<>>, <<Kw("p", e1)>>, <<Kw("p", e1), Kw("q", e2)>>>>))>>)
    [] j = 24 -> ExprS(Node("Ellipsis", NoA, NoK))
    [] j = 25 -> If(e1, <<Node("Return", NoA, NoK), Ret(e2)>>, <<Pass>>)
    [] j = 26 -> If(e1, <<b1>>, <<b2, b1>>)
    [] j = 28 -> If(e1, <<b1>> \o Many(LAMBDA x : IF Chance(x, 44, 3) THEN S(x) ELSE ExprS(Id(x)), s, 60, 4 + Upto(s, 45, 3)) \o <<b2>>,
                    Many(LAMBDA x : ExprS(Id(x)), s, 80, Upto(s, 46, 3)))
    [] OTHER -> ExprS(Call(Name("send"), <<Attr(Name("msg"), "sender"), e1>>, <<>>))
RECURSIVE Stmt(_, _)
Stmt(s, d) ==
  StmtProd(IF d = 0 THEN Pick(s, 40, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 22, 23, 27>>) ELSE (Rn(s, 40) % NStmt) + 1,
           s, LAMBDA x : Expr(x, Depth(x)), LAMBDA x : Stmt(x, IF d = 0 THEN 0 ELSE d - 1))

-----------------------------------------------------------------------------
(* Declarations                                                                 *)
Str(v) == Node("#", [v |-> v], NoK)
Arg(s) == Node("arg", [arg |-> Nm(s)], "annotation" :> <<Type(Rn(s, 2), 1)>>)
Arguments(s, E(_)) ==
  LET n == Upto(s, 1, 3) IN
  Node("arguments", NoA, "args" :> Many(Arg, s, 20, n) @@ "defaults" :> Many(E, s, 30, IF n = 0 THEN 0 ELSE Within(s, 2, n)))
Deco(s) == Pick(s, 1, <<Name("view"), Name("payable"), Name("pure"), Name("nonreentrant"), Name("deploy"),
                        Call(Name("nonreentrant"), <<Node("Str", [content |-> Pick(s, 2, <<"plain", "space", "quote">>)], NoK)>>, <<>>)>>)
Decorators(s) == (IF Chance(s, 5, 6) THEN <<>> ELSE <<Name(Pick(s, 8, <<"external", "external", "internal">>))>>) \o Many(Deco, s, 110, Within(s, 9, 2))
Docs == <<"", "", "", "one", "two", "long", "quotes", "multi">>
DocA(s) == LET d == Pick(s, 17, Docs) IN IF d = "" THEN NoA ELSE [content |-> d]
Fn(nm, s, body, E(_)) ==
  Node("FunctionDef", [name |-> nm] @@ DocA(s),
       "args" :> <<Arguments(Rn(s, 4), E)>> @@ "decorator_list" :> Decorators(s) @@ "body" :> body
       @@ (LET r == Rn(s, 6) % 6 IN
           CASE r \in 0..1 -> NoK [] r = 5 -> "returns" :> <<Tup(Many(LAMBDA x : Type(x, 1), s, 130, 2 + Within(s, 10, 2)))>>
             [] OTHER -> "returns" :> <<Type(Rn(s, 7), 1)>>))
IfaceFn(s) ==
  Node("FunctionDef", [name |-> "f" \o ToString(s)],
       "args" :> <<Arguments(Rn(s, 4), IntLit)>> @@ "decorator_list" :> <<>>
       @@ "body" :> <<ExprS(Name(Pick(s, 5, <<"view", "pure", "payable", "nonpayable">>)))>> @@ Opt(Chance(s, 6, 2), "returns", Type(Rn(s, 7), 1)))
Member(s) == Node("AnnAssign", NoA, "target" :> <<Id(s)>> @@ "annotation" :> <<Type(Rn(s, 2), 1)>>)
Indexed(s) == IF Chance(s, 3, 2) THEN Member(s)
              ELSE Node("AnnAssign", NoA, "target" :> <<Id(s)>> @@ "annotation" :> <<Call(Name("indexed"), <<Type(Rn(s, 2), 0)>>, <<>>)>>)
Flag(s, i) == IF Chance(s, i, 3) THEN "true" ELSE "false"

NDecl == 19
DeclProd(j, s, E(_), S(_)) ==
  CASE j \in 1..3 -> Fn("f" \o ToString(s), s, Many(S, s, 70, 1 + Upto(s, 12, 3)), E)
    [] j \in 4..5 -> Fn("f" \o ToString(s), s, <<S(Rn(s, 71))>>, E)
    [] j = 6 -> Fn(Pick(s, 11, <<"__init__", "__default__">>), s, <<S(Rn(s, 71)), S(Rn(s, 72))>>, E)
    [] j = 7 -> Fn("f" \o ToString(s), s, <<Ret(E(Rn(s, 71)))>>, E)
    [] j \in 8..10 -> Node("VariableDecl", [is_public |-> Flag(s, 11), is_constant |-> Flag(s, 12), is_immutable |-> Flag(s, 13), is_transient |-> Flag(s, 14)],
                           "target" :> <<Id(s)>> @@ "annotation" :> <<Type(Rn(s, 15), 2)>> @@ Opt(Chance(s, 16, 2), "value", E(Rn(s, 18))))
    [] j = 11 -> Node("InterfaceDef", [name |-> "I" \o ToString(s)], "body" :> Many(IfaceFn, s, 20, 1 + Upto(s, 11, 2)))
    [] j = 12 -> Node("StructDef", [name |-> "S" \o ToString(s)], "body" :> Many(Member, s, 20, 1 + Upto(s, 11, 2)))
    [] j = 13 -> Node("EventDef", [name |-> "E" \o ToString(s)], "body" :> IF Chance(s, 11, 4) THEN <<Pass>> ELSE Many(Indexed, s, 20, 1 + Upto(s, 11, 2)))
    [] j = 14 -> Node("EnumDef", [name |-> "N" \o ToString(s)], "body" :> Many(LAMBDA x : ExprS(Id(x)), s, 20, 1 + Upto(s, 11, 2)))
    [] j = 15 -> Node("Import", [alias |-> Pick(s, 11, <<"", "Al">>)], "nm" :> Pick(s, 12, <<<<Str("Foo")>>, <<Str("a"), Str("b"), Str("Foo")>>, <<Str("x_1"), Str("Foo")>>>>))
    [] j = 16 -> Node("ImportFrom", [level |-> Pick(s, 11, <<"0", "0", "1", "2", "3">>), name |-> Pick(s, 14, <<"Foo", "ERC20", "_m">>), alias |-> Pick(s, 12, <<"", "Al">>)],
                      "mod" :> Pick(s, 13, <<<<>>, <<Str("vyper"), Str("interfaces")>>, <<Str("x")>>, <<Str("a"), Str("b"), Str("c_d")>>>>))
    [] j = 17 -> Node("ImplementsDecl", NoA, "annotation" :> <<Pick(s, 11, <<Name("ERC20"), Attr(Name("mod"), "IF0")>>)>>)
    [] j = 18 -> Fn("f" \o ToString(s), s, <<Pass>>, E)
    [] OTHER -> Fn("f" \o ToString(s), s, <<S(Rn(s, 73)), S(Rn(s, 74)), S(Rn(s, 75)), S(Rn(s, 76))>>, E)
Decl(s, d) == DeclProd((Rn(s, 40) % NDecl) + 1, s, LAMBDA x : Expr(x, 1), LAMBDA x : Stmt(x, d))

Module(s, body) == Node("Module", [name |-> "M"] @@ DocA(s), "body" :> body)
\* a random program with nd declarations of statement depth d
Program(s, nd, d) == Module(s, Many(LAMBDA x : Decl(x, d), s, 120, 1 + Upto(s, 3, nd)))
\* a program whose statements come from the operator given
Wrap(s, stmts) == Module(46330, <<Fn("f" \o ToString(s), 46330, stmts, Leaf)>>)
PairExpr(p, c, s) == ExprProd(p, s, LAMBDA x : ExprProd(c, x, LAMBDA y : Leaf(y)))
PairStmt(p, c, s) == StmtProd(p, s, LAMBDA x : Leaf(x), LAMBDA x : StmtProd(c, x, LAMBDA y : Leaf(y), LAMBDA y : ExprS(Id(y))))
ExprInStmt(p, c, s) == StmtProd(p, s, LAMBDA x : ExprProd(c, x, LAMBDA y : Leaf(y)), LAMBDA x : ExprS(Id(x)))
=============================================================================
