---------------------------- MODULE GenSolFuncs ----------------------------
(* Programs in which few names are shared by functions, modifiers, variables, *)
(* events, structs, contracts, parameters and uses, together with the         *)
(* function names a user may ask for.                                         *)
EXTENDS SolGen, Json
CONSTANTS Seed, Count, ND, D, Out
Pool == <<"pa", "pb", "pc", "", "pab", "xpa", "Pa", "pa">>
Renamable == {"FunctionDefinition", "ModifierDefinition", "VariableDeclaration", "EventDefinition", "StructDefinition",
              "EnumDefinition", "ContractDefinition", "Identifier", "YulFunctionDefinition", "EnumValue", "ErrorDefinition"}
RECURSIVE Renamed(_, _)
RenSeq(ns, s) == [j \in 1..Len(ns) |-> Renamed(ns[j], Rn(s, 3 * j))]
Renamed(n, s) ==
  LET v == Pick(s, 1, Pool)
      ok == n.t \in Renamable /\ "name" \in DOMAIN n.a /\ n.a.name \notin {"", "require"} /\ v # ""
  IN Node(n.t, IF ok THEN ("name" :> v) @@ n.a ELSE n.a, IF n.k = NoK THEN NoK ELSE [r \in DOMAIN n.k |-> RenSeq(n.k[r], Rn(s, 2 + Len(r)))])
Wanted == <<<<"pa">>, <<"pb">>, <<"pa", "pc">>, <<"pa", "pb", "pc">>, <<"zz">>, <<"pc", "zz">>>>
ASSUME JsonSerialize(Out, [i \in 1..Count |-> [tree |-> Renamed(Program(Rn(Seed, i), ND, D), Rn(Seed, 500 + i)),
                                               funcs |-> Wanted[(i % Len(Wanted)) + 1]]])
=============================================================================
