------------------------------ MODULE GenVyPrec ------------------------------
(* Every kind of operand in every operand position of every operator, so that  *)
(* every bracket that a tree requires or does not require is decided; Per       *)
(* statements a program.                                                        *)
EXTENDS VyGen, Json
CONSTANTS Seed, Per, Out
V(j) == Name("v" \o ToString(j))
IfE(a, b, c) == Node("IfExp", NoA, "test" :> <<a>> @@ "body" :> <<b>> @@ "orelse" :> <<c>>)
NA == Len(ArithOps)
NC == Len(CmpOps)
Kids == [j \in 1..NA |-> Bin(ArithOps[j], V(1), V(2))] \o [j \in 1..NC |-> Cmp(CmpOps[j], V(1), V(2))]
        \o <<Boo("And", <<V(1), V(2)>>), Boo("Or", <<V(1), V(2)>>), Boo("Or", <<V(1), V(2), V(3)>>), Un("Not", V(1)), Un("Invert", V(1)), Un("USub", V(1)),
             IfE(V(1), V(2), V(3)), IntN("7"), IntN("-7"), DecLit(0), Node("Decimal", [value |-> "-2.5"], NoK), Call(Name("f"), <<V(1)>>, <<>>), Attr(V(1), "m"), Sub(V(1), V(2)),
             Lst(<<V(1), V(2)>>), Tup(<<V(1), V(2)>>), StrLit(1), BoolLit(1), HexLit(1)>>
NP == 2 * NA + 2 * NC + 6 + 3 + 3 + 6
Place(p, k) ==
  CASE p <= NA -> Bin(ArithOps[p], k, V(8))
    [] p <= 2 * NA -> Bin(ArithOps[p - NA], V(8), k)
    [] p <= 2 * NA + NC -> Cmp(CmpOps[p - 2 * NA], k, V(8))
    [] p <= 2 * NA + 2 * NC -> Cmp(CmpOps[p - 2 * NA - NC], V(8), k)
    [] OTHER ->
         LET q == p - 2 * NA - 2 * NC IN
         CASE q = 1 -> Boo("And", <<k, V(8)>>) [] q = 2 -> Boo("And", <<V(8), k>>) [] q = 3 -> Boo("Or", <<k, V(8)>>)
           [] q = 4 -> Boo("Or", <<V(8), k>>) [] q = 5 -> Boo("And", <<V(8), k, V(9)>>) [] q = 6 -> Boo("Or", <<V(8), k, V(9)>>)
           [] q = 7 -> Un("Not", k) [] q = 8 -> Un("Invert", k) [] q = 9 -> Un("USub", k)
           [] q = 10 -> IfE(k, V(8), V(9)) [] q = 11 -> IfE(V(8), k, V(9)) [] q = 12 -> IfE(V(8), V(9), k)
           [] q = 13 -> Attr(Base(k, 1), "m") [] q = 14 -> Sub(Base(k, 1), V(8)) [] q = 15 -> Sub(V(8), k)
           [] q = 16 -> Call(Base(k, 1), <<V(8)>>, <<>>) [] q = 17 -> Call(Name("f"), <<k, V(8)>>, <<Kw("x", k)>>) [] OTHER -> Lst(<<k, V(8)>>)
NK == Len(Kids)
All == [i \in 1..(NP * NK) |-> Assign(V(0), Place(((i - 1) \div NK) + 1, Kids[((i - 1) % NK) + 1]))]
N == (Len(All) + Per - 1) \div Per
Nothing == Node("null", NoA, NoK)
ASSUME JsonSerialize(Out, [i \in 1..N |-> Wrap(i, SelectSeq([j \in 1..Per |-> IF i + (j - 1) * N <= Len(All) THEN All[i + (j - 1) * N] ELSE Nothing],
                                                            LAMBDA x : x.t # "null"))])
=============================================================================
