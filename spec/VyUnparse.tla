------------------------------ MODULE VyUnparse ------------------------------
(* The token sequence of the Vyper program that a syntax tree denotes.  Line    *)
(* structure is part of it: <NL> ends a statement, <IN> and <DE> open and close *)
(* an indented block; "@@" is the sign of a decorator.                          *)
EXTENDS Tree

NLt == <<"<NL>">>
TokIf(b, toks) == IF b THEN toks ELSE <<>>

OpToks(op) ==
  CASE op = "Add" -> <<"+">> [] op = "Sub" -> <<"-">> [] op = "Mult" -> <<"*">> [] op = "Div" -> <<"/">>
    [] op = "FloorDiv" -> <<"//">> [] op = "Mod" -> <<"%">> [] op = "Pow" -> <<"**">>
    [] op = "BitAnd" -> <<"&">> [] op = "BitOr" -> <<"|">> [] op = "BitXor" -> <<"^">>
    [] op = "LShift" -> <<"<<">> [] op = "RShift" -> <<">>">>
    [] op = "Eq" -> <<"==">> [] op = "NotEq" -> <<"!=">> [] op = "Gt" -> <<">">> [] op = "GtE" -> <<">=">>
    [] op = "Lt" -> <<"<">> [] op = "LtE" -> <<"<=">> [] op = "In" -> <<"in">> [] op = "NotIn" -> <<"not", "in">>
    [] op = "And" -> <<"and">> [] op = "Or" -> <<"or">>
    [] op = "Not" -> <<"not">> [] op = "Invert" -> <<"~">> [] op = "USub" -> <<"-">>

Compound == {"BinOp", "Compare", "BoolOp", "IfExp"}
IsNot(n) == n.t = "UnaryOp" /\ A(n, "operator") = "Not"
Signed(n) == n.t = "UnaryOp" \/ (n.t \in {"Int", "Decimal"} /\ (Neg(A(n, "value")) \/ A(n, "value") = "?neg"))

RECURSIVE SToks(_), VList(_, _), VBools(_, _, _), VPairs(_, _, _), VCat(_, _), VDots(_, _), VArgs(_, _, _), VDecorators(_, _), VIfaces(_, _), Rep(_, _)
Par(b, n) == IF b THEN <<"(">> \o SToks(n) \o <<")">> ELSE SToks(n)
VOp(n) == Par(n.t \in Compound \/ IsNot(n), n)          \* an operand
VBase(n) == Par(n.t \in Compound \/ n.t = "UnaryOp", n)  \* what stands before . [ or (
VIf(n) == Par(n.t = "IfExp", n)
VList(ns, i) == IF i > Len(ns) THEN <<>> ELSE TokIf(i > 1, <<",">>) \o SToks(ns[i]) \o VList(ns, i + 1)
VBools(ns, i, op) == IF i > Len(ns) THEN <<>> ELSE TokIf(i > 1, op) \o VOp(ns[i]) \o VBools(ns, i + 1, op)
VPairs(ks, vs, i) ==
  IF i > Len(ks) THEN <<>>
  ELSE TokIf(i > 1, <<",">>) \o SToks(ks[i]) \o <<":">> \o SToks(vs[i]) \o VPairs(ks, vs, i + 1)
VCat(ns, i) == IF i > Len(ns) THEN <<>> ELSE SToks(ns[i]) \o VCat(ns, i + 1)
VElems(n) == VList(K(n, "elements"), 1) \o TokIf(Len(K(n, "elements")) = 1, <<",">>)
\* where a tuple needs no parentheses
VBare(n) == IF n.t = "Tuple" /\ K(n, "elements") # <<>> THEN VElems(n) ELSE SToks(n)
VDots(ns, i) == IF i > Len(ns) THEN <<>> ELSE TokIf(i > 1, <<".">>) \o <<A(ns[i], "v")>> \o VDots(ns, i + 1)
Rep(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Rep(x, n - 1)
VOpt(n, r, pre) == IF Has(n, r) THEN pre \o SToks(One(n, r)) ELSE <<>>

VExpr(n) ==
  CASE n.t = "Name" -> <<A(n, "id")>>
    [] n.t = "Attribute" -> VBase(One(n, "value")) \o <<".", A(n, "attr")>>
    [] n.t = "Subscript" -> VBase(One(n, "value")) \o SToks(One(n, "slice"))
    [] n.t = "Index" -> <<"[">> \o VBare(One(n, "value")) \o <<"]">>
    [] n.t = "Tuple" -> <<"(">> \o VElems(n) \o <<")">>
    [] n.t = "List" -> <<"[">> \o VList(K(n, "elements"), 1) \o <<"]">>
    [] n.t = "Call" -> VBase(One(n, "func")) \o <<"(">> \o VList(K(n, "args") \o K(n, "keywords"), 1) \o <<")">>
    [] n.t = "keyword" -> <<A(n, "arg"), "=">> \o SToks(One(n, "value"))
    [] n.t \in {"Int", "Decimal"} -> NumToks(A(n, "value"))
    [] n.t \in {"Hex", "NameConstant"} -> <<A(n, "value")>>
    [] n.t \in {"Str", "Bytes"} -> <<A(n, "str")>>
    [] n.t \in {"BinOp", "Compare"} ->
         (LET l == One(n, "left") IN IF A(n, "operator") = "Pow" THEN Par(Signed(l) \/ l.t \in Compound, l) ELSE VOp(l))
         \o OpToks(A(n, "operator")) \o VOp(One(n, "right"))
    [] n.t = "BoolOp" -> VBools(K(n, "values"), 1, OpToks(A(n, "operator")))
    [] n.t = "UnaryOp" -> OpToks(A(n, "operator")) \o VOp(One(n, "operand"))
    [] n.t = "IfExp" -> VIf(One(n, "body")) \o <<"if">> \o VIf(One(n, "test")) \o <<"else">> \o SToks(One(n, "orelse"))
    [] n.t = "Dict" -> <<"{">> \o VPairs(K(n, "keys"), K(n, "values"), 1) \o <<"}">>
    [] n.t = "Ellipsis" -> <<".", ".", ".">>
    [] n.t = "Hole" -> <<A(n, "v")>>

VBlock(ns) == <<":", "<NL>", "<IN>">> \o VCat(ns, 1) \o <<"<DE>">>
VStmt(n) ==
  CASE n.t = "Assign" -> VBare(One(n, "target")) \o <<"=">> \o VBare(One(n, "value")) \o NLt
    [] n.t = "AnnAssign" -> SToks(One(n, "target")) \o <<":">> \o SToks(One(n, "annotation")) \o VOpt(n, "value", <<"=">>) \o NLt
    [] n.t = "AugAssign" -> SToks(One(n, "target")) \o <<OpToks(A(n, "operator"))[1] \o "=">> \o SToks(One(n, "value")) \o NLt
    [] n.t = "Expr" -> SToks(One(n, "value")) \o NLt
    [] n.t = "Assert" -> <<"assert">> \o SToks(One(n, "test")) \o VOpt(n, "msg", <<",">>) \o NLt
    [] n.t = "Raise" -> <<"raise">> \o VOpt(n, "exc", <<>>) \o NLt
    [] n.t = "Return" -> <<"return">> \o (IF Has(n, "value") THEN VBare(One(n, "value")) ELSE <<>>) \o NLt
    [] n.t = "Log" -> <<"log">> \o SToks(One(n, "value")) \o NLt
    [] n.t = "Break" -> <<"break">> \o NLt
    [] n.t = "Continue" -> <<"continue">> \o NLt
    [] n.t = "Pass" -> <<"pass">> \o NLt
    [] n.t = "For" -> <<"for">> \o SToks(One(n, "target")) \o <<"in">> \o SToks(One(n, "iter")) \o VBlock(K(n, "body"))
    [] n.t = "If" -> <<"if">> \o SToks(One(n, "test")) \o VBlock(K(n, "body"))
                     \o (IF K(n, "orelse") # <<>> THEN <<"else">> \o VBlock(K(n, "orelse")) ELSE <<>>)
    [] n.t = "@" -> <<"@">>

VDoc(n) == TokIf(A(n, "doc") # "", <<A(n, "doc"), "<NL>">>)
VDecorators(ns, i) == IF i > Len(ns) THEN <<>> ELSE <<"@@">> \o SToks(ns[i]) \o NLt \o VDecorators(ns, i + 1)
VArgs(as, ds, i) ==
  LET d == i - (Len(as) - Len(ds)) IN
  IF i > Len(as) THEN <<>>
  ELSE TokIf(i > 1, <<",">>) \o <<A(as[i], "arg"), ":">> \o SToks(One(as[i], "annotation"))
       \o (IF d >= 1 THEN <<"=">> \o SToks(ds[d]) ELSE <<>>) \o VArgs(as, ds, i + 1)
VSig(n) ==
  <<"def", A(n, "name"), "(">> \o VArgs(K(One(n, "args"), "args"), K(One(n, "args"), "defaults"), 1) \o <<")">>
  \o VOpt(n, "returns", <<"->">>)
VIfaces(ns, i) ==
  IF i > Len(ns) THEN <<>>
  ELSE VSig(ns[i]) \o <<":">> \o SToks(One(One(ns[i], "body"), "value")) \o NLt \o VIfaces(ns, i + 1)
Wrapper(n, x) == Is(n, "is_" \o x)
VDecl(n) ==
  CASE n.t = "Module" -> VDoc(n) \o VCat(K(n, "body"), 1)
    [] n.t = "FunctionDef" ->
         VDecorators(K(n, "decorator_list"), 1) \o VSig(n) \o <<":", "<NL>", "<IN>">> \o VDoc(n) \o VCat(K(n, "body"), 1) \o <<"<DE>">>
    [] n.t = "InterfaceDef" -> <<"interface", A(n, "name"), ":", "<NL>", "<IN>">> \o VIfaces(K(n, "body"), 1) \o <<"<DE>">>
    [] n.t = "StructDef" -> <<"struct", A(n, "name")>> \o VBlock(K(n, "body"))
    [] n.t = "EventDef" -> <<"event", A(n, "name")>> \o VBlock(K(n, "body"))
    [] n.t = "EnumDef" -> <<"enum", A(n, "name")>> \o VBlock(K(n, "body"))
    [] n.t = "VariableDecl" ->
         LET ws == SelectSeq(<<"public", "constant", "immutable", "transient">>, LAMBDA x : Wrapper(n, x)) IN
         SToks(One(n, "target")) \o <<":">>
         \o [j \in 1..(2 * Len(ws)) |-> IF j % 2 = 1 THEN ws[(j + 1) \div 2] ELSE "("]
         \o SToks(One(n, "annotation")) \o Rep(")", Len(ws)) \o VOpt(n, "value", <<"=">>) \o NLt
    [] n.t = "Import" -> <<"import">> \o VDots(K(n, "nm"), 1) \o TokIf(A(n, "alias") # "", <<"as", A(n, "alias")>>) \o NLt
    [] n.t = "ImportFrom" ->
         <<"from">> \o Rep(".", IF A(n, "level") = "0" /\ K(n, "mod") = <<>> THEN 1 ELSE NatOf(A(n, "level"), Len(A(n, "level"))))
         \o VDots(K(n, "mod"), 1) \o <<"import", A(n, "name")>> \o TokIf(A(n, "alias") # "", <<"as", A(n, "alias")>>) \o NLt
    [] n.t = "ImplementsDecl" -> <<"implements", ":">> \o SToks(One(n, "annotation")) \o NLt

ExprNodes == {"Name", "Attribute", "Subscript", "Index", "Tuple", "List", "Call", "keyword", "Int", "Decimal", "Hex", "NameConstant",
              "Str", "Bytes", "BinOp", "Compare", "BoolOp", "UnaryOp", "IfExp", "Dict", "Ellipsis", "Hole"}
StmtNodes == {"Assign", "AnnAssign", "AugAssign", "Expr", "Assert", "Raise", "Return", "Log", "Break", "Continue", "Pass", "For", "If", "@"}

\* the tree with the tokens of statements and declarations kept in the nodes (member m)
MemoRoles == {"body", "orelse"}
RECURSIVE Memo(_)
MemoSeq(s, r) ==
  TLCEval([i \in 1..Len(s) |-> LET c == Memo(s[i]) IN
                       IF r \in MemoRoles /\ c.t \notin ExprNodes THEN [t |-> c.t, a |-> c.a, k |-> c.k, m |-> SToks(c)] ELSE c])
Memo(n) == [t |-> n.t, a |-> n.a, k |-> TLCEval([r \in DOMAIN n.k |-> MemoSeq(n.k[r], r)])]

SToks(n) ==
  IF "m" \in DOMAIN n THEN n.m
  ELSE IF n.t \in ExprNodes THEN VExpr(n)
  ELSE IF n.t \in StmtNodes THEN VStmt(n)
  ELSE VDecl(n)
=============================================================================
