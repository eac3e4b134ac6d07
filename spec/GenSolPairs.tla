---------------------------- MODULE GenSolPairs ----------------------------
(* Systematic combinations: every expression production inside every other,   *)
(* every statement production inside every other, and every expression        *)
(* production inside every statement production; Per statements a program.    *)
EXTENDS SolGen, Json
CONSTANTS Seed, Per, Out
EP == [i \in 1..(NExpr * NExpr) |-> ES(PairExpr(((i - 1) \div NExpr) + 1, ((i - 1) % NExpr) + 1, Rn(Seed, i)))]
SP == [i \in 1..(NStmt * NStmt) |-> PairStmt(((i - 1) \div NStmt) + 1, ((i - 1) % NStmt) + 1, Rn(Seed, 1000 + i))]
XP == [i \in 1..(NStmt * NExpr) |-> ExprInStmt(((i - 1) \div NExpr) + 1, ((i - 1) % NExpr) + 1, Rn(Seed, 2000 + i))]
All == EP \o SP \o XP
N == (Len(All) + Per - 1) \div Per
\* neighbours in the list go to different programs
ASSUME JsonSerialize(Out, [i \in 1..N |-> Wrap(i, SelectSeq([j \in 1..Per |-> IF i + (j - 1) * N <= Len(All) THEN All[i + (j - 1) * N] ELSE Null],
                                                            LAMBDA x : x.t # "null"))])
=============================================================================
