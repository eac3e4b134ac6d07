---------------------------- MODULE GenVySame -----------------------------
(* Programs in which few names and numbers occur and statements repeat, so    *)
(* that different mutations often lead to the same program.                   *)
EXTENDS VyGen, Json
CONSTANTS Seed, Count, ND, D, Out
Kept == {"view", "pure", "payable", "nonpayable", "self", "msg", "empty", "range", "nonreentrant", "external", "internal", "uint256"}
RECURSIVE Same(_, _)
SameSeq(ns, s) == [j \in 1..Len(ns) |-> Same(ns[j], Rn(s, 3 * j))]
Same(n, s) ==
  LET a2 == IF n.t = "Name" /\ n.a.id \notin Kept THEN ("id" :> Pick(s, 1, <<"pa", "pa", "pb">>)) @@ n.a
            ELSE IF n.t = "Int" THEN ("value" :> Pick(s, 1, <<"1", "1", "2", "0">>)) @@ n.a ELSE n.a
  IN Node(n.t, a2, IF n.k = NoK THEN NoK ELSE [r \in DOMAIN n.k |-> SameSeq(n.k[r], Rn(s, 2 + Len(r)))])
Twice(s, d) == LET x == Same(Stmt(Rn(s, 1), d), s)
                   y == Same(Stmt(Rn(s, 2), d), s + 1)
               IN Wrap(s, <<x, y, x, Same(Stmt(Rn(s, 1), d), s), y>>)
ASSUME JsonSerialize(Out, [i \in 1..Count |-> IF i % 2 = 0 THEN Same(Program(Rn(Seed, i), ND, D), Rn(Seed, 500 + i)) ELSE Twice(Rn(Seed, i), D)])
=============================================================================
