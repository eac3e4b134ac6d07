----------------------------- MODULE GenVyCases -----------------------------
(* Small programs that go through everything an algorithm decides on: every     *)
(* operator, every pattern of literal arguments, every magnitude of a number,    *)
(* every arrangement of returns in a body, every type of a result; Per           *)
(* statements a function.                                                        *)
EXTENDS VyGen, Json
CONSTANTS Seed, Per, Out
V(j) == Name("v" \o ToString(j))
S(j) == ExprS(Call(Name("s" \o ToString(j)), <<>>, <<>>))
RECURSIVE SetSq(_)
SetSq(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o SetSq(X \ {x})

Operators == [j \in 1..Len(ArithOps) |-> ExprS(Bin(ArithOps[j], V(1), V(2)))] \o [j \in 1..Len(CmpOps) |-> ExprS(Cmp(CmpOps[j], V(1), V(2)))]
             \o <<ExprS(Boo("And", <<V(1), V(2)>>)), ExprS(Boo("Or", <<V(1), V(2)>>)), ExprS(Boo("And", <<V(1), V(2), V(3)>>)), ExprS(Boo("Or", <<V(1), V(2), V(3), V(4)>>))>>
Chains == [j \in 1..Len(ArithOps) |-> Assign(V(0), Bin(ArithOps[j], Bin(ArithOps[j], V(1), V(2)), Bin(ArithOps[j], V(3), V(4))))]
          \o [j \in 1..Len(CmpOps) |-> Assign(V(0), Cmp(CmpOps[j], Bin("Sub", V(1), V(2)), Bin("Mult", V(3), V(4))))]
          \o <<Assign(V(0), Boo("And", <<Boo("Or", <<V(1), V(2)>>), Boo("And", <<V(3), V(4)>>)>>)), Assign(V(0), Boo("Or", <<Boo("And", <<V(1), V(2)>>), Boo("Or", <<V(3), V(4)>>)>>))>>
Augs == [j \in 1..Len(ArithOps) |-> Node("AugAssign", [operator |-> ArithOps[j]], "target" :> <<V(1)>> @@ "value" :> <<Bin("Add", V(2), V(3))>>)]
UnOps == <<"Not", "Invert", "USub">>
Unaries == [j \in 1..9 |-> LET o == UnOps[((j - 1) % 3) + 1]
                               q == UnOps[((j - 1) \div 3) + 1]
                           IN ExprS(Un(o, IF j % 2 = 0 THEN Un(q, V(1)) ELSE Bin("Add", V(1), Un(q, V(2)))))]
LitPatterns == SetSq(UNION {[1..n -> BOOLEAN] : n \in 1..4} \cup {<<FALSE, FALSE, FALSE, FALSE, FALSE>>, <<FALSE, TRUE, FALSE, TRUE, FALSE, TRUE>>})
Lit(j) == CASE j % 6 = 0 -> IntLit(j) [] j % 6 = 1 -> DecLit(j) [] j % 6 = 2 -> HexLit(j) [] j % 6 = 3 -> StrLit(j) [] j % 6 = 4 -> BytesLit(j) [] OTHER -> BoolLit(j)
Calls == [j \in 1..Len(LitPatterns) |->
            LET p == LitPatterns[j] IN
            ExprS(Call(IF j % 2 = 0 THEN Name("g") ELSE Attr(Name("self"), "g"), [i \in 1..Len(p) |-> IF p[i] THEN Lit(j + i) ELSE V(10 * j + i)],
                       IF j % 3 = 0 THEN <<Kw("value", V(j)), Kw("gas", IntLit(j))>> ELSE <<>>))]
         \o <<ExprS(Call(Name("h"), <<>>, <<Kw("a", V(1)), Kw("b", V(2))>>))>>
MoreInts == <<"2", "9", "10", "100", "127", "128", "256", "999", "1000", "-10", "-100", "-127", "-128", "-129", "2147483647", "2147483648", "4294967295", "4294967296",
              "170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "-170141183460469231731687303715884105728",
              "-57896044618658097711785492504343953926634992332820282019728792003956564819968">> \o IntForms
Ints == [j \in 1..Len(MoreInts) |-> Node("Assert", NoA, "test" :> <<IntN(MoreInts[j])>>)]
Values == <<V(1), BoolLit(1), Node("NameConstant", [value |-> "True"], NoK), Node("NameConstant", [value |-> "False"], NoK), IntN("5"), IntN("-5"), DecLit(1), StrLit(1), HexLit(1),
            BytesLit(1), Bin("Add", V(1), V(2)), Call(Name("g"), <<V(1)>>, <<>>), Lst(<<V(1), V(2)>>), Lst(<<>>), Tup(<<V(1), V(2)>>), Un("Not", V(1)), Sub(V(1), V(2))>>
Asgs == [j \in 1..Len(Values) |-> Assign(IF j % 2 = 0 THEN SelfAttr(j) ELSE V(j), Values[j])]
        \o [j \in 1..Len(Values) |-> Node("AnnAssign", NoA, "target" :> <<V(j)>> @@ "annotation" :> <<Name("uint256")>> @@ "value" :> <<Values[j]>>)]

Kinds == SetSq(UNION {[1..n -> 1..2] : n \in 1..4} \cup {<<1, 1, 1, 1, 1>>, <<1, 2, 1, 1, 2, 1>>, <<3>>, <<3, 1>>, <<1, 3>>, <<3, 3>>, <<4, 1, 4>>, <<4, 2>>})
Piece(k, j) == CASE k = 1 -> S(j) [] k = 2 -> Ret(V(j)) [] k = 3 -> Pass [] OTHER -> If(V(j), <<S(j), S(j + 1)>>, <<S(j + 2), S(j + 3)>>)
Bod(j) == [i \in 1..Len(Kinds[j]) |-> Piece(Kinds[j][i], 10 * j + i)]
Bodies == [j \in 1..Len(Kinds) |-> For(V(j), Attr(Name("self"), "xs"), Bod(j))] \o [j \in 1..Len(Kinds) |-> If(V(j), Bod(j), <<>>)]
          \o [j \in 1..Len(Kinds) |-> If(Cmp("Lt", V(j), V(1)), <<S(j)>>, Bod(j))]

Plain == Operators \o Chains \o Augs \o Unaries \o Calls \o Ints \o Asgs \o Bodies
N == (Len(Plain) + Per - 1) \div Per
\* functions with all bodies and all types of results
Results == <<"uint8", "uint256", "int8", "int128", "int256", "uint128", "bool", "address", "bytes32", "bytes4", "decimal", "S0", "uint", "int", "interface", "uinteger", "integer8">>
FnOf(nm, body, ret) == Node("FunctionDef", [name |-> nm], "args" :> <<Node("arguments", NoA, "args" :> <<>> @@ "defaults" :> <<>>)>>
                            @@ "decorator_list" :> <<Name("external")>> @@ "body" :> body @@ ret)
Complex == <<Tup(<<Name("uint8"), Name("bool")>>), Tup(<<Name("uint8"), Sub(Name("Bytes"), IntN("4"))>>), Sub(Name("DynArray"), Tup(<<Name("uint8"), IntN("3")>>)), Sub(Name("uint8"), IntN("3")),
             Attr(Name("mod"), "T0"), Sub(Name("String"), IntN("30"))>>
Fns == [j \in 1..Len(Results) |-> FnOf("r" \o ToString(j), <<Ret(V(j))>>, "returns" :> <<Name(Results[j])>>)]
       \o [j \in 1..Len(Results) |-> FnOf("q" \o ToString(j), <<S(j), Ret(V(j))>>, "returns" :> <<Name(Results[j])>>)]
       \o [j \in 1..Len(Complex) |-> FnOf("c" \o ToString(j), <<Ret(V(j))>>, "returns" :> <<Complex[j]>>)]
       \o [j \in 1..Len(Kinds) |-> FnOf("b" \o ToString(j), Bod(j), NoK)]
M2 == (Len(Fns) + 5) \div 6
Nothing == Node("null", NoA, NoK)
Keep(s) == SelectSeq(s, LAMBDA x : x.t # "null")
ASSUME JsonSerialize(Out, [i \in 1..N |-> Wrap(i, Keep([j \in 1..Per |-> IF i + (j - 1) * N <= Len(Plain) THEN Plain[i + (j - 1) * N] ELSE Nothing]))]
                          \o [i \in 1..M2 |-> Module(46330, Keep([j \in 1..6 |-> IF i + (j - 1) * M2 <= Len(Fns) THEN Fns[i + (j - 1) * M2] ELSE Nothing]))])
=============================================================================
