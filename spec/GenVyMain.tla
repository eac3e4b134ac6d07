----------------------------- MODULE GenVyMain -----------------------------
EXTENDS VyGen, Json
CONSTANTS Seed, Count, ND, D, Out
ASSUME JsonSerialize(Out, [i \in 1..Count |-> Program(Rn(Seed, i), ND, D)])
=============================================================================
