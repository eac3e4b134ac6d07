----------------------------- MODULE VyMutators -----------------------------
(* The mutation algorithms on Vyper trees, as relations: where an algorithm     *)
(* applies (Mutable) and what it may turn a place into (Alternatives).          *)
EXTENDS VyUnparse, Match

VyAlgs == <<"ArithmeticBinaryOp", "LogicalBinaryOp", "BitwiseBinaryOp", "BitshiftBinaryOp", "ComparisonBinaryOp",
            "Assignment", "DeleteStatement", "FunctionCall", "SwapFunctionArguments", "IfStatement", "Integer",
            "SwapOperatorArguments", "SwapLines", "UnaryOp">>

OpClass(alg) ==
  CASE alg = "ArithmeticBinaryOp" -> {"Add", "Sub", "Mult", "Div", "Mod", "Pow"}
    [] alg = "LogicalBinaryOp" -> {"And", "Or"}
    [] alg = "BitwiseBinaryOp" -> {"BitAnd", "BitOr", "BitXor"}
    [] alg = "BitshiftBinaryOp" -> {"LShift", "RShift"}
    [] alg = "ComparisonBinaryOp" -> {"Eq", "NotEq", "Lt", "Gt", "LtE", "GtE"}
    [] OTHER -> {}
NonCommutative == {"Sub", "Div", "Mod", "Pow", "Gt", "Lt", "LtE", "GtE", "LShift", "RShift"}
Binary == {"BinOp", "BoolOp", "Compare"}
Literals == {"Int", "Decimal", "Hex", "Str", "Bytes", "NameConstant"}
Args(n) == K(n, "args")
NonLiteralArgs(n) == {i \in 1..Len(Args(n)) : Args(n)[i].t \notin Literals}
Body(n) == K(n, "body")
Movable(n) == {i \in 1..Len(Body(n)) : Body(n)[i].t # "Return"}
\* the body of a function in an interface declaration is only its mutability
Signature(n) == Len(Body(n)) = 1 /\ Body(n)[1].t = "Expr" /\ One(Body(n)[1], "value").t = "Name"
                /\ A(One(Body(n)[1], "value"), "id") \in {"pure", "view", "nonpayable", "payable"}

Mutable(alg, n) ==
  CASE OpClass(alg) # {} -> n.t \in Binary /\ A(n, "operator") \in OpClass(alg)
    [] alg = "UnaryOp" -> n.t = "UnaryOp"
    [] alg = "Assignment" -> n.t = "Assign"
    [] alg = "DeleteStatement" -> n.t \in {"FunctionDef", "For", "If", "Module"} /\ Body(n) # <<>> /\ ~Signature(n)
    [] alg = "FunctionCall" -> n.t = "Call" /\ NonLiteralArgs(n) # {}
    [] alg = "SwapFunctionArguments" -> n.t = "Call" /\ Len(Args(n)) >= 2
    [] alg = "IfStatement" -> n.t = "If"
    [] alg = "Integer" -> n.t = "Int"
    [] alg = "SwapOperatorArguments" -> n.t \in {"BinOp", "Compare"} /\ A(n, "operator") \in NonCommutative
    [] alg = "SwapLines" -> n.t \in {"FunctionDef", "For", "If"} /\ Cardinality(Movable(n)) >= 2
    [] OTHER -> FALSE

Named(n, funcs) == n.t = "FunctionDef" /\ A(n, "name") \in funcs

-----------------------------------------------------------------------------
(* Alternatives at a place: the new node, the alternative's label, what the     *)
(* comment has to contain, and where below the place the change lies.           *)
Q(code) == <<"'">> \o code \o <<"'">>
Alt(new, label, quotes, sub) == [new |-> new, label |-> label, quotes |-> quotes, sub |-> sub]
Here == <<>>
CommentNode == Node("@", NoA, NoK)
Const(v) == Node("NameConstant", [value |-> v], NoK)
Hole(v) == Node("Hole", [v |-> v], NoK)
NotOf(e) == Node("UnaryOp", [operator |-> "Not"], "operand" :> <<e>>)
EmptyOf(ty) == Node("Call", NoA, "func" :> <<Node("Name", [id |-> "empty"], NoK)>> @@ "args" :> <<ty>>)
Ret(e) == Node("Return", NoA, "value" :> <<e>>)

\* integer types
Width(ty, p) == StartsWith(ty, p) /\ IsNat(SubSeq(ty, Len(p) + 1, Len(ty)))
\* what may follow when the only statement of n is gone, with labels
Fillers(n) ==
  IF n.t # "FunctionDef" \/ ~Has(n, "returns") THEN {<<Node("Pass", NoA, NoK), "pass">>}
  ELSE LET r == One(n, "returns")
           ty == IF r.t = "Name" THEN A(r, "id") ELSE ""
       IN CASE r.t = "Tuple" -> {<<Ret(Node("Tuple", NoA, "elements" :> [j \in 1..Len(K(r, "elements")) |-> EmptyOf(K(r, "elements")[j])])), "empty">>}
            [] ty = "bool" -> {<<Ret(Const("True")), "True">>, <<Ret(Const("False")), "False">>}
            [] Width(ty, "uint") \/ Width(ty, "int") -> {<<Ret(Hole("?int")), "number">>}
            [] OTHER -> {<<Ret(EmptyOf(r)), "empty">>}

Alternatives(alg, n) ==
  CASE OpClass(alg) # {} ->
         {LET m == SetA(n, "operator", o) IN Alt(m, o, <<Q(SToks(n)), Q(SToks(m))>>, Here) : o \in OpClass(alg) \ {A(n, "operator")}}
    [] alg = "UnaryOp" -> LET e == One(n, "operand") IN {Alt(e, "operand", <<Q(SToks(n)), Q(SToks(e))>>, Here)}
    [] alg = "Assignment" ->
         LET v == One(n, "value")
             new(x) == SetKid(n, "value", <<x>>)
         IN {Alt(new(Const(b)), b, <<Q(SToks(v)), Q(<<b>>)>>, Here) : b \in {"True", "False"} \ (IF v.t = "NameConstant" THEN {A(v, "value")} ELSE {})}
            \cup {Alt(new(Hole(h)), h, <<Q(SToks(v))>>, Here) : h \in {"?int", "?dec"}}
    [] alg = "DeleteStatement" ->
         IF Len(Body(n)) = 1
         THEN {Alt(SetKid(n, "body", <<CommentNode, f[1]>>), f[2], <<SToks(Body(n)[1])>>, <<<<"body", 1>>>>) : f \in Fillers(n)}
         ELSE {Alt(SetKid(n, "body", ReplaceIdx(Body(n), i, CommentNode)), ToString(i), <<SToks(Body(n)[i])>>, <<<<"body", i>>>>) : i \in 1..Len(Body(n))}
    [] alg = "FunctionCall" ->
         {Alt(Args(n)[i], ToString(i), <<Q(SToks(n)), Q(SToks(Args(n)[i]))>>, Here) : i \in NonLiteralArgs(n)}
    [] alg = "SwapFunctionArguments" ->
         {Alt(SetKid(n, "args", SwapAt(Args(n), ij[1], ij[2])), ToString(ij), <<Q(SToks(Args(n)[ij[1]])), Q(SToks(Args(n)[ij[2]]))>>, Here)
            : ij \in {x \in (1..Len(Args(n))) \X (1..Len(Args(n))) : x[1] < x[2]}}
    [] alg = "IfStatement" ->
         LET c == One(n, "test")
             new(x, l) == Alt(SetKid(n, "test", <<x>>), l, <<Q(SToks(c)), Q(SToks(x))>>, Here)
         IN {new(Const("True"), "True"), new(Const("False"), "False"), new(NotOf(c), "not")}
    [] alg = "Integer" ->
         LET v == A(n, "value")
             new(x, l) == Alt(SetA(n, "value", x), l, <<Q(NumToks(v)), Q(NumToks(x))>>, Here)
         IN {new(Succ(v), "+1"), new(Pred(v), "-1")} \cup {Alt(SetA(n, "value", h), "random", <<Q(NumToks(v))>>, Here) : h \in {"?nat", "?neg"}}
    [] alg = "SwapOperatorArguments" ->
         {Alt(SetKid(SetKid(n, "left", K(n, "right")), "right", K(n, "left")), "swap", <<Q(SToks(One(n, "left"))), Q(SToks(One(n, "right")))>>, Here)}
    [] alg = "SwapLines" ->
         {Alt(SetKid(n, "body", SwapAt(Body(n), ij[1], ij[2])), ToString(ij), <<Q(SToks(Body(n)[ij[1]])), Q(SToks(Body(n)[ij[2]]))>>, Here)
            : ij \in {x \in Movable(n) \X Movable(n) : x[1] < x[2]}}
    [] OTHER -> {}

\* which numbers may stand in for the hole
HoleOK(alg, n, v) ==
  CASE alg = "Assignment" ->
         IF IsDec(Mag(v)) THEN NatLE(SubSeq(Mag(v), 1, Len(Mag(v)) - 2), "18707220957835557353007165858768422651595")
         ELSE /\ NumLE("-" \o Pow2(127), v) /\ NumLE(v, Pred(Pow2(128)))
              /\ LET x == One(n, "value") IN x.t # "Int" \/ A(x, "value") # v
    [] alg = "Integer" -> v # A(n, "value")
    [] alg = "DeleteStatement" ->
         NumLE(IF Width(A(One(n, "returns"), "id"), "uint") THEN "0" ELSE "-10", v) /\ NumLE(v, "10")
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* The comment goes in front of the innermost statement or declaration that     *)
(* contains the change.                                                         *)
IsBody(t, r) == (t \in {"For", "FunctionDef", "Module", "If"} /\ r = "body") \/ (t = "If" /\ r = "orelse")
AnchorAt(tree, p) ==
  LET J == {j \in 1..Len(p) : IsBody(At(tree, Prefix(p, j - 1)).t, p[j][1])}
  IN IF J = {} THEN 0 ELSE CHOOSE j \in J : \A i \in J : i <= j
WithComment(tree, p) ==
  LET j == AnchorAt(tree, p) IN
  IF j = 0 THEN tree
  ELSE LET pp == Prefix(p, j - 1)
           par == At(tree, pp)
           r == p[j][1]
           i == p[j][2]
       IN Put(tree, pp, SetKid(par, r, SubSeq(K(par, r), 1, i - 1) \o <<CommentNode>> \o SubSeq(K(par, r), i, Len(K(par, r)))))
Mutant(tree, p, alt) == WithComment(Put(tree, p, alt.new), p \o alt.sub)
=============================================================================
