----------------------------- MODULE SolMutators -----------------------------
(* The mutation algorithms on Solidity trees, as relations: where an algorithm   *)
(* applies (Mutable, Sites) and what it may turn a place into (Alternatives).    *)
EXTENDS SolUnparse

SolAlgs == <<"ArithmeticBinaryOp", "LogicalBinaryOp", "BitwiseBinaryOp", "BitshiftBinaryOp", "ComparisonBinaryOp",
             "Assignment", "DeleteStatement", "FunctionCall", "SwapFunctionArguments", "IfStatement", "Integer",
             "SwapOperatorArguments", "SwapLines", "UnaryOp", "Require", "UncheckedBlock", "ElimDelegateCall">>

OpClass(alg) ==
  CASE alg = "ArithmeticBinaryOp" -> {"+", "-", "*", "/", "%", "**"}
    [] alg = "LogicalBinaryOp" -> {"&&", "||"}
    [] alg = "BitwiseBinaryOp" -> {"&", "|", "^"}
    [] alg = "BitshiftBinaryOp" -> {"<<", ">>"}
    [] alg = "ComparisonBinaryOp" -> {"==", "!=", "<", ">", "<=", ">="}
    [] OTHER -> {}
PrefixOps == {"++", "--", "~"}
PostfixOps == {"++", "--"}
NonCommutative == {"-", "/", "%", "**", ">", "<", "<=", ">=", "<<", ">>"}
UnaryClass(n) == IF Is(n, "prefix") THEN PrefixOps ELSE PostfixOps

\* integer and truth types
IntBits(ty) ==   \* number of bits, 0 when ty is not an integer type
  LET d == IF StartsWith(ty, "uint") THEN SubSeq(ty, 5, Len(ty))
           ELSE IF StartsWith(ty, "int") THEN SubSeq(ty, 4, Len(ty)) ELSE "" IN
  IF IsNat(d) /\ Len(d) <= 3 THEN NatOf(d, Len(d)) ELSE 0
MinOf(ty) == IF StartsWith(ty, "uint") THEN "0" ELSE "-" \o Pow2(IntBits(ty) - 1)
MaxOf(ty) == IF StartsWith(ty, "uint") THEN Pred(Pow2(IntBits(ty))) ELSE Pred(Pow2(IntBits(ty) - 1))

Stmts(n) == K(n, "statements")
OfType(seq, t) == {i \in 1..Len(seq) : seq[i].t = t}
Movable(n) == {i \in 1..Len(Stmts(n)) : Stmts(n)[i].t # "Return"}
Wrappable(n) == {i \in 1..Len(Stmts(n)) : Stmts(n)[i].t \notin {"Return", "UncheckedBlock"}}
Args(n) == K(n, "arguments")
NonLiteralArgs(n) == {i \in 1..Len(Args(n)) : Args(n)[i].t # "Literal"}
SameTypePairs(n) == {ij \in (1..Len(Args(n))) \X (1..Len(Args(n))) :
                       ij[1] < ij[2] /\ A(Args(n)[ij[1]], "type") # "" /\ A(Args(n)[ij[1]], "type") = A(Args(n)[ij[2]], "type")}

Mutable(alg, n) ==
  CASE OpClass(alg) # {} -> n.t = "BinaryOperation" /\ A(n, "operator") \in OpClass(alg)
    [] alg = "UnaryOp" -> n.t = "UnaryOperation" /\ A(n, "operator") \in UnaryClass(n)
    [] alg = "Assignment" -> n.t = "Assignment" /\ (A(n, "type") = "bool" \/ IntBits(A(n, "type")) > 0)
    [] alg = "DeleteStatement" -> n.t = "Block" /\ Len(Stmts(n)) > 1 /\ OfType(Stmts(n), "ExpressionStatement") # {}
    [] alg = "FunctionCall" -> n.t = "FunctionCall" /\ NonLiteralArgs(n) # {}
    [] alg = "SwapFunctionArguments" -> n.t = "FunctionCall" /\ SameTypePairs(n) # {}
    [] alg = "IfStatement" -> n.t = "IfStatement"
    [] alg = "Integer" -> n.t = "Literal" /\ A(n, "kind") = "number" /\ A(n, "num") # ""
    [] alg = "SwapOperatorArguments" -> n.t = "BinaryOperation" /\ A(n, "operator") \in NonCommutative
    [] alg = "SwapLines" -> n.t = "Block" /\ Cardinality(Movable(n)) >= 2
    [] alg = "Require" -> n.t = "FunctionCall" /\ A(One(n, "expression"), "name") = "require"
                          /\ One(n, "expression").t = "Identifier" /\ Args(n) # <<>>
    [] alg = "UncheckedBlock" -> n.t = "Block" /\ Wrappable(n) # {}
    [] alg = "ElimDelegateCall" -> n.t = "MemberAccess" /\ A(n, "memberName") = "delegatecall"
    [] OTHER -> FALSE

\* places inside a function or modifier with one of the given names (no names: everywhere)
Named(n, funcs) == n.t \in {"FunctionDefinition", "ModifierDefinition"} /\ A(n, "name") \in funcs
Permitted(tree, p, funcs) ==
  funcs = {} \/ \E j \in 0..Len(p) : Named(At(tree, Prefix(p, j)), funcs)
Sites(alg, tree, funcs) == {p \in Paths(tree) : Mutable(alg, At(tree, p)) /\ Permitted(tree, p, funcs)}

-----------------------------------------------------------------------------
(* Alternatives at a place: the new node, the alternative's label, the code the *)
(* comment has to quote, and where below the place the change lies.             *)
Q(code) == <<"'">> \o code \o <<"'">>
Alt(new, label, quotes, sub) == [new |-> new, label |-> label, quotes |-> [q \in 1..Len(quotes) |-> Q(quotes[q])], sub |-> sub]
Here == <<>>
BoolNode(v) == Node("Literal", [kind |-> "bool", value |-> v], NoK)
NumNode(n, v) == SetA(n, "value", v)
Hole == Node("Hole", NoA, NoK)
CommentNode == Node("@", NoA, NoK)
NotOf(e) == Node("UnaryOperation", [operator |-> "!", prefix |-> "true"],
                 "subExpression" :> <<Node("TupleExpression", [isInlineArray |-> "false"], "components" :> <<e>>)>>)

Alternatives(alg, n) ==
  CASE OpClass(alg) # {} ->
         {Alt(SetA(n, "operator", o), o, <<<<A(n, "operator")>>, <<o>>>>, Here) : o \in OpClass(alg) \ {A(n, "operator")}}
    [] alg = "UnaryOp" ->
         {Alt(SetA(n, "operator", o), o, <<<<A(n, "operator")>>, <<o>>>>, Here) : o \in UnaryClass(n) \ {A(n, "operator")}}
    [] alg = "Assignment" ->
         LET rhs == One(n, "rightHandSide") IN
         IF A(n, "type") = "bool"
         THEN {Alt(SetKid(n, "rightHandSide", <<BoolNode(v)>>), v, <<SToks(rhs), <<v>>>>, Here)
                 : v \in {"true", "false"} \ (IF rhs.t = "Literal" THEN {A(rhs, "value")} ELSE {})}
         ELSE {Alt(SetKid(n, "rightHandSide", <<Hole>>), "random", <<SToks(rhs)>>, Here)}
    [] alg = "DeleteStatement" ->
         {Alt(SetKid(n, "statements", ReplaceIdx(Stmts(n), i, CommentNode)), ToString(i), <<SToks(Stmts(n)[i])>>, <<<<"statements", i>>>>)
            : i \in OfType(Stmts(n), "ExpressionStatement")}
    [] alg = "FunctionCall" ->
         {Alt(Args(n)[i], ToString(i), <<SToks(n), SToks(Args(n)[i])>>, Here) : i \in NonLiteralArgs(n)}
    [] alg = "SwapFunctionArguments" ->
         {Alt(SetKid(n, "arguments", SwapAt(Args(n), ij[1], ij[2])), A(Args(n)[ij[1]], "type"),
              <<SToks(Args(n)[ij[1]]), SToks(Args(n)[ij[2]])>>, Here) : ij \in SameTypePairs(n)}
    [] alg = "IfStatement" ->
         LET c == One(n, "condition")
             new(x, l) == Alt(SetKid(n, "condition", <<x>>), l, <<SToks(c), SToks(x)>>, Here)
         IN {new(BoolNode("true"), "true"), new(BoolNode("false"), "false"), new(NotOf(c), "not")}
    [] alg = "Integer" ->
         {Alt(NumNode(n, Succ(A(n, "num"))), "+1", <<NumToks(A(n, "value")), NumToks(Succ(A(n, "num")))>>, Here),
          Alt(NumNode(n, Pred(A(n, "num"))), "-1", <<NumToks(A(n, "value")), NumToks(Pred(A(n, "num")))>>, Here),
          Alt(NumNode(n, "?int"), "random", <<NumToks(A(n, "value"))>>, Here)}
    [] alg = "SwapOperatorArguments" ->
         {Alt(SetKid(SetKid(n, "leftExpression", K(n, "rightExpression")), "rightExpression", K(n, "leftExpression")), "swap",
              <<SToks(One(n, "leftExpression")), SToks(One(n, "rightExpression"))>>, Here)}
    [] alg = "SwapLines" ->
         {Alt(SetKid(n, "statements", SwapAt(Stmts(n), ij[1], ij[2])), ToString(ij),
              <<SToks(Stmts(n)[ij[1]]), SToks(Stmts(n)[ij[2]])>>, Here)
            : ij \in {x \in Movable(n) \X Movable(n) : x[1] < x[2]}}
    [] alg = "Require" ->
         {Alt(SetKid(n, "arguments", ReplaceIdx(Args(n), 1, NotOf(Args(n)[1]))), "not", <<SToks(Args(n)[1]), SToks(NotOf(Args(n)[1]))>>, Here)}
    [] alg = "UncheckedBlock" ->
         {LET w == Node("UncheckedBlock", NoA, "statements" :> <<Stmts(n)[i]>>) IN
          Alt(SetKid(n, "statements", ReplaceIdx(Stmts(n), i, w)), ToString(i), <<SToks(Stmts(n)[i]), SToks(w)>>, <<<<"statements", i>>>>)
            : i \in Wrappable(n)}
    [] alg = "ElimDelegateCall" ->
         {Alt(SetA(n, "memberName", "call"), "call", <<<<"delegatecall">>, <<"call">>>>, Here)}
    [] OTHER -> {}

\* which integers may stand in for the hole
HoleOK(alg, n, v) ==
  CASE alg = "Assignment" ->
         /\ NumLE(MinOf(A(n, "type")), v) /\ NumLE(v, MaxOf(A(n, "type")))
         /\ (LET rhs == One(n, "rightHandSide") IN rhs.t # "Literal" \/ A(rhs, "num") # v)
    [] alg = "Integer" -> v # A(n, "num")
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* The comment goes in front of the innermost statement or contract member that *)
(* contains the change; a lone statement used as a body is put into a block.    *)
IsListBody(t, r) == (t \in {"Block", "UncheckedBlock"} /\ r = "statements") \/ (t = "ContractDefinition" /\ r = "nodes")
IsBody(t, r) == (t \in {"DoWhileStatement", "ForStatement", "WhileStatement", "FunctionDefinition", "ModifierDefinition"} /\ r = "body")
                \/ (t = "IfStatement" /\ r \in {"trueBody", "falseBody"}) \/ (t = "TryCatchClause" /\ r = "block")
AnchorAt(tree, p) ==
  LET J == {j \in 1..Len(p) : LET t == At(tree, Prefix(p, j - 1)).t IN IsListBody(t, p[j][1]) \/ IsBody(t, p[j][1])}
  IN IF J = {} THEN 0 ELSE CHOOSE j \in J : \A i \in J : i <= j
WithComment(tree, p) ==
  LET j == AnchorAt(tree, p) IN
  IF j = 0 THEN tree
  ELSE LET pp == Prefix(p, j - 1)
           par == At(tree, pp)
           r == p[j][1]
           i == p[j][2]
       IN IF IsListBody(par.t, r)
          THEN Put(tree, pp, SetKid(par, r, SubSeq(K(par, r), 1, i - 1) \o <<CommentNode>> \o SubSeq(K(par, r), i, Len(K(par, r)))))
          ELSE LET c == One(par, r) IN
               IF c.t = "Block"
               THEN Put(tree, pp, SetKid(par, r, <<SetKid(c, "statements", <<CommentNode>> \o Stmts(c))>>))
               ELSE Put(tree, pp, SetKid(par, r, <<Node("Block", NoA, "statements" :> <<CommentNode, c>>)>>))
Mutant(tree, p, alt) == WithComment(Put(tree, p, alt.new), p \o alt.sub)
=============================================================================
