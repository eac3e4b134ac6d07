----------------------------- MODULE GenVyFuncs -----------------------------
(* Programs in which few names are shared by functions, variables, events,    *)
(* structs, interfaces, parameters and uses, together with the function names *)
(* a user may ask for.                                                        *)
EXTENDS VyGen, Json
CONSTANTS Seed, Count, ND, D, Out
Pool == <<"pa", "pb", "pc", "", "pab", "xpa", "Pa", "pa">>
Key(t) == CASE t \in {"FunctionDef", "EventDef", "StructDef", "InterfaceDef", "EnumDef", "Module", "ImportFrom"} -> "name"
            [] t = "Name" -> "id" [] t = "Attribute" -> "attr" [] t = "arg" -> "arg" [] OTHER -> ""
Kept == {"view", "pure", "payable", "nonpayable", "self", "msg", "empty", "range", "nonreentrant", "external", "internal", "uint256"}
RECURSIVE Renamed(_, _)
RenSeq(ns, s) == [j \in 1..Len(ns) |-> Renamed(ns[j], Rn(s, 3 * j))]
Renamed(n, s) ==
  LET v == Pick(s, 1, Pool)
      x == Key(n.t)
      ok == x # "" /\ v # "" /\ n.a[x] \notin Kept
  IN Node(n.t, IF ok THEN (x :> v) @@ n.a ELSE n.a, IF n.k = NoK THEN NoK ELSE [r \in DOMAIN n.k |-> RenSeq(n.k[r], Rn(s, 2 + Len(r)))])
Wanted == <<<<"pa">>, <<"pb">>, <<"pa", "pc">>, <<"pa", "pb", "pc">>, <<"zz">>, <<"pc", "zz">>>>
ASSUME JsonSerialize(Out, [i \in 1..Count |-> [tree |-> Renamed(Program(Rn(Seed, i), ND, D), Rn(Seed, 500 + i)),
                                               funcs |-> Wanted[(i % Len(Wanted)) + 1]]])
=============================================================================
