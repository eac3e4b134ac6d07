------------------------------ MODULE SolUnparse ------------------------------
(* The token sequence of the Solidity program that a syntax tree denotes.       *)
(* This is the meaning against which printed files and mutants are judged.      *)
EXTENDS Tree

TokIf(b, toks) == IF b THEN toks ELSE <<>>

(* Binding strength of expressions (smaller binds tighter), Solidity's table.   *)
OpPrec(op) ==
  CASE op = "**" -> 3
    [] op \in {"*", "/", "%"} -> 4
    [] op \in {"+", "-"} -> 5
    [] op \in {"<<", ">>"} -> 6
    [] op = "&" -> 7
    [] op = "^" -> 8
    [] op = "|" -> 9
    [] op \in {"<", ">", "<=", ">="} -> 10
    [] op \in {"==", "!="} -> 11
    [] op = "&&" -> 12
    [] op = "||" -> 13
    [] OTHER -> 14
SPrec(n) ==
  CASE n.t = "BinaryOperation" -> OpPrec(A(n, "operator"))
    [] n.t = "UnaryOperation" -> IF Is(n, "prefix") THEN 2 ELSE 1
    [] n.t \in {"Conditional", "Assignment"} -> 14
    [] n.t = "Literal" /\ A(n, "kind") = "number" /\ StartsWith(A(n, "value"), "-") -> 2
    [] OTHER -> 0

RECURSIVE SToks(_), SList(_, _, _), SCat(_, _), SNamed(_, _, _), SStrs(_, _), SUsing(_, _), SCatches(_, _), SAliases(_, _), STuple(_, _)

\* an operand: parenthesised when it binds less tightly than its context allows
SOp(n, max) == IF SPrec(n) > max THEN <<"(">> \o SToks(n) \o <<")">> ELSE SToks(n)

SDoc(n) == IF Has(n, "documentation") THEN SToks(One(n, "documentation")) ELSE <<>>
SOpt(n, r) == IF Has(n, r) THEN SToks(One(n, r)) ELSE <<>>

\* comma separated list
SList(ns, i, sep) ==
  IF i > Len(ns) THEN <<>>
  ELSE TokIf(i > 1, sep) \o SToks(ns[i]) \o SList(ns, i + 1, sep)
SCat(ns, i) == IF i > Len(ns) THEN <<>> ELSE SToks(ns[i]) \o SCat(ns, i + 1)
STuple(ns, i) ==   \* omitted components keep their commas
  IF i > Len(ns) THEN <<>>
  ELSE TokIf(i > 1, <<",">>) \o (IF ns[i].t = "null" THEN <<>> ELSE SToks(ns[i])) \o STuple(ns, i + 1)
SNamed(names, vals, i) ==
  IF i > Len(names) THEN <<>>
  ELSE TokIf(i > 1, <<",">>) \o <<A(names[i], "v"), ":">> \o SToks(vals[i]) \o SNamed(names, vals, i + 1)
SStrs(ns, i) == IF i > Len(ns) THEN <<>> ELSE TokIf(i > 1, <<",">>) \o <<A(ns[i], "str")>> \o SStrs(ns, i + 1)
SUsing(ns, i) ==
  IF i > Len(ns) THEN <<>>
  ELSE TokIf(i > 1, <<",">>)
       \o (IF Has(ns[i], "definition") THEN SToks(One(ns[i], "definition")) \o <<"as", A(ns[i], "operator")>>
           ELSE SOpt(ns[i], "function"))
       \o SUsing(ns, i + 1)
SAliases(ns, i) ==
  IF i > Len(ns) THEN <<>>
  ELSE TokIf(i > 1, <<",">>) \o SOpt(ns[i], "foreign")
       \o TokIf(A(ns[i], "local") # "", <<"as", A(ns[i], "local")>>) \o SAliases(ns, i + 1)
SClause(c) ==
  TokIf(A(c, "errorName") # "", <<A(c, "errorName")>>) \o SOpt(c, "parameters") \o SToks(One(c, "block"))
SCatches(cs, i) ==
  IF i > Len(cs) THEN <<>> ELSE <<"catch">> \o SClause(cs[i]) \o SCatches(cs, i + 1)

\* tokens of a numeric literal value (a leading sign is a token of its own)
LitToks(n) ==
  (IF A(n, "kind") \in {"string", "unicodeString", "hexString"} THEN <<A(n, "str")>>
   ELSE NumToks(A(n, "value")))
  \o TokIf(A(n, "subdenomination") # "", <<A(n, "subdenomination")>>)

\* a dotted name is several tokens
RECURSIVE PathToks(_, _, _)
PathToks(s, from, i) ==
  IF i > Len(s) THEN <<SubSeq(s, from, Len(s))>>
  ELSE IF Ch(s, i) = "." THEN <<SubSeq(s, from, i - 1), ".">> \o PathToks(s, i + 1, i + 1)
  ELSE PathToks(s, from, i + 1)

SSpecs(n) ==  \* function specifiers
  TokIf(A(n, "visibility") # "" /\ A(n, "kind") # "freeFunction", <<A(n, "visibility")>>)
  \o TokIf(Is(n, "virtual"), <<"virtual">>)
  \o TokIf(A(n, "stateMutability") \notin {"", "nonpayable"}, <<A(n, "stateMutability")>>)
  \o SOpt(n, "overrides")
  \o SCat(K(n, "modifiers"), 1)
SReturnsOf(n, r) ==
  IF Has(n, r) /\ K(One(n, r), "parameters") # <<>> THEN <<"returns">> \o SToks(One(n, r)) ELSE <<>>

RECURSIVE SMembers(_, _)
SMembers(ns, i) == IF i > Len(ns) THEN <<>> ELSE SToks(ns[i]) \o <<";">> \o SMembers(ns, i + 1)
RECURSIVE SDecls(_, _)
SDecls(ns, i) ==   \* contract or file level: variables end with a semicolon
  IF i > Len(ns) THEN <<>>
  ELSE SToks(ns[i]) \o TokIf(ns[i].t = "VariableDeclaration", <<";">>) \o SDecls(ns, i + 1)
RECURSIVE SPragma(_, _)
SPragma(ns, i) == IF i > Len(ns) THEN <<>> ELSE <<A(ns[i], "v")>> \o SPragma(ns, i + 1)

DropLast(s) == SubSeq(s, 1, Len(s) - 1)

SStmt(n) ==
  CASE n.t \in {"Block", "YulBlock"} -> <<"{">> \o SCat(K(n, "statements"), 1) \o <<"}">>
    [] n.t = "UncheckedBlock" -> <<"unchecked", "{">> \o SCat(K(n, "statements"), 1) \o <<"}">>
    [] n.t = "ExpressionStatement" -> SToks(One(n, "expression")) \o <<";">>
    [] n.t = "VariableDeclarationStatement" ->
         (IF Len(K(n, "declarations")) > 1 THEN <<"(">> \o STuple(K(n, "declarations"), 1) \o <<")">>
          ELSE SToks(One(n, "declarations")))
         \o (IF Has(n, "initialValue") THEN <<"=">> \o SToks(One(n, "initialValue")) ELSE <<>>) \o <<";">>
    [] n.t = "IfStatement" ->
         <<"if", "(">> \o SToks(One(n, "condition")) \o <<")">> \o SToks(One(n, "trueBody"))
         \o (IF Has(n, "falseBody") THEN <<"else">> \o SToks(One(n, "falseBody")) ELSE <<>>)
    [] n.t = "ForStatement" ->
         <<"for", "(">>
         \o (IF Has(n, "initializationExpression") THEN SToks(One(n, "initializationExpression")) ELSE <<";">>)
         \o SOpt(n, "condition") \o <<";">>
         \o (IF Has(n, "loopExpression") THEN DropLast(SToks(One(n, "loopExpression"))) ELSE <<>>)
         \o <<")">> \o SToks(One(n, "body"))
    [] n.t = "WhileStatement" ->
         <<"while", "(">> \o SToks(One(n, "condition")) \o <<")">> \o SToks(One(n, "body"))
    [] n.t = "DoWhileStatement" ->
         <<"do">> \o SToks(One(n, "body")) \o <<"while", "(">> \o SToks(One(n, "condition")) \o <<")", ";">>
    [] n.t = "Continue" -> <<"continue", ";">>
    [] n.t = "Break" -> <<"break", ";">>
    [] n.t = "Return" -> <<"return">> \o SOpt(n, "expression") \o <<";">>
    [] n.t = "EmitStatement" -> <<"emit">> \o SToks(One(n, "eventCall")) \o <<";">>
    [] n.t = "RevertStatement" -> <<"revert">> \o SToks(One(n, "errorCall")) \o <<";">>
    [] n.t = "PlaceholderStatement" -> <<"_", ";">>
    [] n.t = "TryStatement" ->
         LET c == K(n, "clauses")[1] IN
         <<"try">> \o SToks(One(n, "externalCall"))
         \o (IF Has(c, "parameters") THEN <<"returns">> \o SToks(One(c, "parameters")) ELSE <<>>)
         \o SToks(One(c, "block")) \o SCatches(Tail(K(n, "clauses")), 1)
    [] n.t = "InlineAssembly" ->
         TokIf(A(n, "doc") # "", <<A(n, "doc")>>)
         \o <<"assembly">>
         \o (IF K(n, "flags") # <<>> THEN <<"(">> \o SStrs(K(n, "flags"), 1) \o <<")">> ELSE <<>>)
         \o SOpt(n, "AST")
    [] OTHER -> <<"?stmt", n.t>>

SYul(n) ==
  CASE n.t = "YulVariableDeclaration" ->
         <<"let">> \o SList(K(n, "variables"), 1, <<",">>)
         \o (IF Has(n, "value") THEN <<":=">> \o SToks(One(n, "value")) ELSE <<>>)
    [] n.t = "YulAssignment" -> SList(K(n, "variableNames"), 1, <<",">>) \o <<":=">> \o SToks(One(n, "value"))
    [] n.t = "YulFunctionCall" ->
         SToks(One(n, "functionName")) \o <<"(">> \o SList(K(n, "arguments"), 1, <<",">>) \o <<")">>
    [] n.t = "YulExpressionStatement" -> SToks(One(n, "expression"))
    [] n.t \in {"YulIdentifier", "YulTypedName"} -> PathToks(A(n, "name"), 1, 1)
    [] n.t = "YulLiteral" -> IF A(n, "kind") = "string" THEN <<A(n, "str")>> ELSE <<A(n, "value")>>
    [] n.t = "YulIf" -> <<"if">> \o SToks(One(n, "condition")) \o SToks(One(n, "body"))
    [] n.t = "YulSwitch" -> <<"switch">> \o SToks(One(n, "expression")) \o SCat(K(n, "cases"), 1)
    [] n.t = "YulCase" ->
         (IF Has(n, "value") THEN <<"case">> \o SToks(One(n, "value")) ELSE <<"default">>) \o SToks(One(n, "body"))
    [] n.t = "YulForLoop" ->
         <<"for">> \o SToks(One(n, "pre")) \o SToks(One(n, "condition")) \o SToks(One(n, "post")) \o SToks(One(n, "body"))
    [] n.t = "YulFunctionDefinition" ->
         <<"function", A(n, "name"), "(">> \o SList(K(n, "parameters"), 1, <<",">>) \o <<")">>
         \o (IF K(n, "returnVariables") # <<>> THEN <<"->">> \o SList(K(n, "returnVariables"), 1, <<",">>) ELSE <<>>)
         \o SToks(One(n, "body"))
    [] n.t = "YulBreak" -> <<"break">>
    [] n.t = "YulContinue" -> <<"continue">>
    [] n.t = "YulLeave" -> <<"leave">>
    [] OTHER -> <<"?yul", n.t>>

SExpr(n) ==
  CASE n.t = "Identifier" -> <<A(n, "name")>>
    [] n.t = "IdentifierPath" -> PathToks(A(n, "name"), 1, 1)
    [] n.t = "Literal" -> LitToks(n)
    [] n.t = "BinaryOperation" ->
         LET op == A(n, "operator")
             p == OpPrec(op)
         IN  SOp(One(n, "leftExpression"), IF op = "**" THEN p - 1 ELSE p) \o <<op>>
             \o SOp(One(n, "rightExpression"), IF op = "**" THEN p ELSE p - 1)
    [] n.t = "UnaryOperation" ->
         IF Is(n, "prefix") THEN <<A(n, "operator")>> \o SOp(One(n, "subExpression"), 2)
         ELSE SOp(One(n, "subExpression"), 1) \o <<A(n, "operator")>>
    [] n.t = "Assignment" ->
         SOp(One(n, "leftHandSide"), 13) \o <<A(n, "operator")>> \o SOp(One(n, "rightHandSide"), 14)
    [] n.t = "FunctionCall" ->
         SOp(One(n, "expression"), 1) \o <<"(">>
         \o (IF K(n, "names") # <<>> THEN <<"{">> \o SNamed(K(n, "names"), K(n, "arguments"), 1) \o <<"}">>
             ELSE SList(K(n, "arguments"), 1, <<",">>))
         \o <<")">>
    [] n.t = "FunctionCallOptions" ->
         SOp(One(n, "expression"), 1) \o <<"{">> \o SNamed(K(n, "names"), K(n, "options"), 1) \o <<"}">>
    [] n.t = "MemberAccess" -> SOp(One(n, "expression"), 1) \o <<".", A(n, "memberName")>>
    [] n.t = "IndexAccess" -> SOp(One(n, "baseExpression"), 1) \o <<"[">> \o SOpt(n, "indexExpression") \o <<"]">>
    [] n.t = "IndexRangeAccess" ->
         SOp(One(n, "baseExpression"), 1) \o <<"[">> \o SOpt(n, "startExpression") \o <<":">>
         \o SOpt(n, "endExpression") \o <<"]">>
    [] n.t = "TupleExpression" ->
         IF Is(n, "isInlineArray") THEN <<"[">> \o STuple(K(n, "components"), 1) \o <<"]">>
         ELSE <<"(">> \o STuple(K(n, "components"), 1) \o <<")">>
    [] n.t = "Conditional" ->
         SOp(One(n, "condition"), 13) \o <<"?">> \o SToks(One(n, "trueExpression")) \o <<":">>
         \o SToks(One(n, "falseExpression"))
    [] n.t = "NewExpression" -> <<"new">> \o SToks(One(n, "typeName"))
    [] n.t = "ElementaryTypeNameExpression" ->
         LET ty == One(n, "typeName") IN
         IF A(ty, "stateMutability") = "payable" THEN <<"payable">> ELSE SToks(ty)
    [] OTHER -> <<"?expr", n.t>>

STypeDecl(n) ==
  CASE n.t = "ElementaryTypeName" ->
         <<A(n, "name")>> \o TokIf(A(n, "stateMutability") = "payable", <<"payable">>)
    [] n.t = "UserDefinedTypeName" -> SToks(One(n, "pathNode"))
    [] n.t = "Mapping" ->
         <<"mapping", "(">> \o SToks(One(n, "keyType")) \o TokIf(A(n, "keyName") # "", <<A(n, "keyName")>>)
         \o <<"=>">> \o SToks(One(n, "valueType"))
         \o TokIf(A(n, "valueName") # "", <<A(n, "valueName")>>) \o <<")">>
    [] n.t = "ArrayTypeName" -> SToks(One(n, "baseType")) \o <<"[">> \o SOpt(n, "length") \o <<"]">>
    [] n.t = "FunctionTypeName" ->
         <<"function">> \o SToks(One(n, "parameterTypes"))
         \o TokIf(A(n, "visibility") = "external", <<"external">>)
         \o TokIf(A(n, "stateMutability") \notin {"", "nonpayable"}, <<A(n, "stateMutability")>>)
         \o SReturnsOf(n, "returnParameterTypes")
    [] OTHER -> <<"?type", n.t>>

SDecl(n) ==
  CASE n.t = "SourceUnit" ->
         TokIf(A(n, "license") # "", <<"spdx:" \o A(n, "license")>>) \o SDecls(K(n, "nodes"), 1)
    [] n.t = "PragmaDirective" -> <<"pragma">> \o SPragma(K(n, "literals"), 1) \o <<";">>
    [] n.t = "ImportDirective" ->
         <<"import">>
         \o (IF K(n, "symbolAliases") # <<>> THEN <<"{">> \o SAliases(K(n, "symbolAliases"), 1) \o <<"}", "from">> ELSE <<>>)
         \o <<A(n, "str")>>
         \o TokIf(A(n, "unitAlias") # "", <<"as", A(n, "unitAlias")>>) \o <<";">>
    [] n.t = "ContractDefinition" ->
         SDoc(n) \o TokIf(Is(n, "abstract"), <<"abstract">>) \o <<A(n, "contractKind"), A(n, "name")>>
         \o (IF K(n, "baseContracts") # <<>> THEN <<"is">> \o SList(K(n, "baseContracts"), 1, <<",">>) ELSE <<>>)
         \o <<"{">> \o SDecls(K(n, "nodes"), 1) \o <<"}">>
    [] n.t = "InheritanceSpecifier" ->
         SToks(One(n, "baseName"))
         \o (IF Has(n, "arguments") THEN <<"(">> \o SList(K(n, "arguments"), 1, <<",">>) \o <<")">> ELSE <<>>)
    [] n.t = "ModifierInvocation" ->
         SToks(One(n, "modifierName"))
         \o (IF Has(n, "arguments") THEN <<"(">> \o SList(K(n, "arguments"), 1, <<",">>) \o <<")">> ELSE <<>>)
    [] n.t = "VariableDeclaration" ->
         SDoc(n) \o SOpt(n, "typeName")
         \o TokIf(A(n, "visibility") \notin {"", "internal"}, <<A(n, "visibility")>>)
         \o TokIf(Is(n, "constant"), <<"constant">>)
         \o TokIf(Is(n, "indexed"), <<"indexed">>)
         \o SOpt(n, "overrides")
         \o TokIf(A(n, "mutability") = "immutable", <<"immutable">>)
         \o TokIf(A(n, "storageLocation") \in {"memory", "storage", "calldata"}, <<A(n, "storageLocation")>>)
         \o TokIf(A(n, "name") # "", <<A(n, "name")>>)
         \o (IF Has(n, "value") THEN <<"=">> \o SToks(One(n, "value")) ELSE <<>>)
    [] n.t = "ParameterList" -> <<"(">> \o SList(K(n, "parameters"), 1, <<",">>) \o <<")">>
    [] n.t = "FunctionDefinition" ->
         SDoc(n)
         \o (IF A(n, "kind") \in {"function", "freeFunction"} THEN <<"function", A(n, "name")>> ELSE <<A(n, "kind")>>)
         \o SToks(One(n, "parameters")) \o SSpecs(n) \o SReturnsOf(n, "returnParameters")
         \o (IF Has(n, "body") THEN SToks(One(n, "body")) ELSE <<";">>)
    [] n.t = "ModifierDefinition" ->
         SDoc(n) \o <<"modifier", A(n, "name")>> \o SOpt(n, "parameters")
         \o TokIf(Is(n, "virtual"), <<"virtual">>) \o SOpt(n, "overrides")
         \o (IF Has(n, "body") THEN SToks(One(n, "body")) ELSE <<";">>)
    [] n.t = "OverrideSpecifier" ->
         <<"override">>
         \o (IF K(n, "overrides") # <<>> THEN <<"(">> \o SList(K(n, "overrides"), 1, <<",">>) \o <<")">> ELSE <<>>)
    [] n.t = "StructDefinition" ->
         SDoc(n) \o <<"struct", A(n, "name"), "{">> \o SMembers(K(n, "members"), 1) \o <<"}">>
    [] n.t = "EnumDefinition" ->
         SDoc(n) \o <<"enum", A(n, "name"), "{">> \o SList(K(n, "members"), 1, <<",">>) \o <<"}">>
    [] n.t = "EnumValue" -> <<A(n, "name")>>
    [] n.t = "EventDefinition" ->
         SDoc(n) \o <<"event", A(n, "name")>> \o SToks(One(n, "parameters"))
         \o TokIf(Is(n, "anonymous"), <<"anonymous">>) \o <<";">>
    [] n.t = "ErrorDefinition" -> SDoc(n) \o <<"error", A(n, "name")>> \o SToks(One(n, "parameters")) \o <<";">>
    [] n.t = "UserDefinedValueTypeDefinition" ->
         <<"type", A(n, "name"), "is">> \o SToks(One(n, "underlyingType")) \o <<";">>
    [] n.t = "UsingForDirective" ->
         <<"using">>
         \o (IF Has(n, "libraryName") THEN SToks(One(n, "libraryName"))
             ELSE <<"{">> \o SUsing(K(n, "functionList"), 1) \o <<"}">>)
         \o <<"for">> \o (IF Has(n, "typeName") THEN SToks(One(n, "typeName")) ELSE <<"*">>)
         \o TokIf(Is(n, "global"), <<"global">>) \o <<";">>
    [] n.t = "StructuredDocumentation" -> <<A(n, "doc")>>
    [] n.t = "@" -> <<"@">>      \* a comment added by the tool
    [] n.t = "Hole" -> <<"?int">>   \* some integer
    [] OTHER -> <<"?node", n.t>>

TypeNodes == {"ElementaryTypeName", "UserDefinedTypeName", "Mapping", "ArrayTypeName", "FunctionTypeName"}
ExprNodes == {"Identifier", "IdentifierPath", "Literal", "BinaryOperation", "UnaryOperation", "Assignment",
              "FunctionCall", "FunctionCallOptions", "MemberAccess", "IndexAccess", "IndexRangeAccess",
              "TupleExpression", "Conditional", "NewExpression", "ElementaryTypeNameExpression"}
StmtNodes == {"Block", "YulBlock", "UncheckedBlock", "ExpressionStatement", "VariableDeclarationStatement",
              "IfStatement", "ForStatement", "WhileStatement", "DoWhileStatement", "Continue", "Break", "Return",
              "EmitStatement", "RevertStatement", "PlaceholderStatement", "TryStatement", "InlineAssembly"}
YulNodes == {"YulVariableDeclaration", "YulAssignment", "YulFunctionCall", "YulExpressionStatement", "YulIdentifier",
             "YulTypedName", "YulLiteral", "YulIf", "YulSwitch", "YulCase", "YulForLoop", "YulFunctionDefinition",
             "YulBreak", "YulContinue", "YulLeave"}

\* Remember the tokens of statements and declarations: nodes that a mutation leaves
\* alone need not be worked out again.
MemoRoles == {"statements", "nodes", "body", "trueBody", "falseBody", "block", "parameters", "AST"}
RECURSIVE Memo(_)
MemoSeq(s, r) ==
  TLCEval([i \in 1..Len(s) |-> LET c == Memo(s[i]) IN
                       IF r \in MemoRoles THEN [t |-> c.t, a |-> c.a, k |-> c.k, m |-> SToks(c)] ELSE c])
Memo(n) == [t |-> n.t, a |-> n.a, k |-> TLCEval([r \in DOMAIN n.k |-> MemoSeq(n.k[r], r)])]

SToks(n) ==
  IF "m" \in DOMAIN n THEN n.m
  ELSE IF n.t \in ExprNodes THEN SExpr(n)
  ELSE IF n.t \in TypeNodes THEN STypeDecl(n)
  ELSE IF n.t \in StmtNodes THEN SStmt(n)
  ELSE IF n.t \in YulNodes THEN SYul(n)
  ELSE SDecl(n)
=============================================================================
