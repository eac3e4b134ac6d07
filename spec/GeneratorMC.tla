---------------------------- MODULE GeneratorMC ----------------------------
(* The generator as a machine, for all small programs: which program a mutation  *)
(* gives is arbitrary (several mutations may give the same program, or the        *)
(* original one), and so is the compiler.  The to-do list is drawn at random      *)
(* within the number of places; every item is attempted a bounded number of times *)
(* and then dropped.                                                              *)
EXTENDS Generator
CONSTANTS AlgN, SiteN, ReqN, TryN, ProgN, AltN
A == 1..AlgN
VARIABLES g, todo, tries, ps, prog, good, ph
vars == <<g, todo, tries, ps, prog, good, ph>>
Cand == A \X (1..SiteN) \X (1..AltN)
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})

Init ==
  /\ \E sites \in [A -> 0..SiteN], req \in 0..ReqN, val \in BOOLEAN :
       /\ ps = sites
       /\ g = NewRun([x \in {y \in A : sites[y] > 0} |-> sites[x]], req, val, 0, {})
  /\ DOMAIN g.sites # {}
  /\ prog \in [{c \in Cand : c[2] <= ps[c[1]]} -> 0..ProgN]
  /\ good \in (IF g.validate THEN SUBSET (0..ProgN) ELSE {0..ProgN})
  /\ todo = <<>> /\ tries = 0 /\ ph = "plan"

Draw ==
  /\ ph = "plan" /\ Len(todo) < Budget(g)
  /\ \E x \in DOMAIN g.sites : Count(todo, x) < g.sites[x] /\ todo' = Append(todo, x)
  /\ UNCHANGED <<g, tries, ps, prog, good, ph>>
Planned == ph = "plan" /\ Len(todo) = Budget(g) /\ ph' = "make" /\ UNCHANGED <<g, todo, tries, ps, prog, good>>

Attempt ==
  /\ ph = "make" /\ todo # <<>> /\ tries < TryN
  /\ \E s \in 1..g.sites[todo[1]], v \in 1..AltN :
       LET p == prog[<<todo[1], s, v>>]
           seen == p = g.origin \/ \E k \in 1..Len(g.out) : g.out[k].prog = p
           h == IF g.validate /\ ~seen THEN Tried(g, p, p \in good) ELSE g
       IN IF seen \/ (g.validate /\ p \notin good)
          THEN g' = h /\ tries' = tries + 1 /\ todo' = todo
          ELSE /\ WriteProblems(h, todo[1], h.next, p, p) = {}
               /\ g' = Written(h, todo[1], h.next, p, p) /\ tries' = 0 /\ todo' = Tail(todo)
  /\ UNCHANGED <<ps, prog, good, ph>>
Drop == ph = "make" /\ todo # <<>> /\ tries = TryN /\ todo' = Tail(todo) /\ tries' = 0 /\ UNCHANGED <<g, ps, prog, good, ph>>
Finish == ph = "make" /\ todo = <<>> /\ ph' = "done" /\ UNCHANGED <<g, todo, tries, ps, prog, good>>
Next == Draw \/ Planned \/ Attempt \/ Drop \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* P01
BudgetKept == Len(g.out) <= g.requested /\ Len(g.out) <= Total(g) /\ \A x \in A : OfAlg(g, x) <= ps[x]
Numbered == \A k \in 1..Len(g.out) : g.out[k].number = k - 1
\* P02
Distinct == \A k, m \in 1..Len(g.out) : g.out[k].prog # g.origin /\ (k # m => g.out[k].prog # g.out[m].prog)
\* P04
OnlyAccepted == g.validate => \A k \in 1..Len(g.out) : g.out[k].prog \in good /\ Accepted(g)[k].content = g.out[k].content
FairEnd == ph = "done" => EndProblems(g, FALSE) = {}
\* an attempt never fails because the guards of the writing step refuse it: the machine never gets stuck before the end
NotStuck == ph # "done" => ENABLED Next
Ends == <>(ph = "done")
=============================================================================
