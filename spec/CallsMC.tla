------------------------------ MODULE CallsMC ------------------------------
(* Settings collected one by one, passed on and read again: nothing is lost.       *)
EXTENDS Calls
CONSTANTS Max
VARIABLES s, v, n
vars == <<s, v, n>>
Values == {"a", "b c", "-x"}
Maps == {"p=q", "c:p=q"}
Init == s = Default.Solidity /\ v = Default.Vyper /\ n = 0
Next == /\ n < Max /\ n' = n + 1
        /\ \/ \E x \in Values : s' = [s EXCEPT !.base = <<x>>] /\ v' = v
           \/ \E x \in Values : s' = [s EXCEPT !.include = Append(@, x)] /\ v' = v
           \/ \E x \in Values : s' = [s EXCEPT !.allow = Append(@, x)] /\ v' = v
           \/ \E x \in Maps : s' = [s EXCEPT !.remap = Append(@, x)] /\ v' = v
           \/ s' = [s EXCEPT !.stop = <<"parsing">>] /\ v' = v
           \/ \E x \in Values : v' = [v EXCEPT !.root = <<x>>] /\ s' = s
Spec == Init /\ [][Next]_vars
Quiet == \A t \in {"ast", "compile"} :
           /\ SolProblems(Arguments("solc", SolArguments(s, t, "o", "f.sol")), s, t) = {}
           /\ VyProblems(Arguments("vyper", VyArguments(v, t, "f.vy")), v, t) = {}
\* arguments made from one setting never pass for those of another
Seen(a) == LET r == Arguments("solc", a) IN <<r.base, r.include, r.allow, r.remap, r.stop>>
Distinct ==
  \A x \in Values :
    /\ SolProblems(Arguments("solc", SolArguments([s EXCEPT !.include = Append(@, x)], "ast", "o", "f.sol")), s, "ast") # {}
    /\ SolProblems(Arguments("solc", SolArguments([s EXCEPT !.allow = Append(@, x)], "ast", "o", "f.sol")), s, "ast") # {}
    /\ SolProblems(Arguments("solc", SolArguments([s EXCEPT !.remap = Append(@, "u=v")], "compile", "o", "f.sol")), s, "compile") # {}
    /\ (s.base # <<>> => SolProblems(Arguments("solc", SolArguments([s EXCEPT !.base = <<>>], "compile", "o", "f.sol")), s, "compile") # {})
=============================================================================
