-------------------------------- MODULE Runs --------------------------------
(* Runs of the tool recorded at its command line, replayed as behaviours of the  *)
(* Generator: the plan reported, candidates given to the compiler, mutants        *)
(* written.  A case is one input file of one run; the machine steps through its   *)
(* events and collects the reasons why one of them must not have happened.        *)
EXTENDS Places, Generator
CONSTANTS In, Out
Cases == TLCGet(5)
VARIABLES i, e, g
vars == <<i, e, g>>
Problem(what, info) == [case |-> i, event |-> e, what |-> what, info |-> info]

\* the places of an algorithm, and what may come out
PlacesOf(alg) == {s \in 1..Len(TLCGet(4)) : TLCGet(4)[s].in /\ Mutable(alg, TLCGet(4)[s].n)}
Selected(c) == ToSet(c.algs) \cap ToSet(Algs)
SitesOf(c) == LET n == TLCEval([x \in Selected(c) |-> Cardinality(PlacesOf(x))]) IN [x \in {y \in Selected(c) : n[y] > 0} |-> n[x]]
ExpectedOf(alg) == LET S == SetSeq(PlacesOf(alg)) IN TLCEval(Join([j \in 1..Len(S) |-> ExpectedAt(alg, TLCGet(3), S[j], TLCGet(4)[S[j]])], 1))
RECURSIVE AllExpected(_)
AllExpected(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN (x :> ExpectedOf(x)) @@ AllExpected(S \ {x})

\* each place can give a mutant of its own, few enough to find them all
Fixed(E) == UNION {{<<x, k>> : k \in {m \in 1..Len(E[x]) : ~E[x][m].hole}} : x \in DOMAIN E}
Sure(c, sites, E, origin) ==
  /\ c.kind # "unsure"
  /\ \A x \in DOMAIN sites : sites[x] <= 4
  \* the compiler accepts every c.every-th candidate only
  /\ (c.every > 2 => \A x \in DOMAIN sites : sites[x] <= 2)
  \* the compiler rejects the first c.need different programs
  /\ (c.need > 0 => c.num = 1 /\ \A x \in DOMAIN sites : Len(E[x]) >= c.need + 2)
  /\ LET F == Fixed(E)
         P == {E[f[1]][f[2]].pl : f \in F}
     IN Cardinality(P) = Cardinality(F) /\ origin \notin P

\* register 6: per algorithm what may come out; register 7: whether the full number of mutants is sure
Begin(c) ==
  LET pre == Prepare(c)
      sites == SitesOf(c)
      origin == SToks(c.tree)
  IN /\ pre
     /\ TLCSet(6, TLCEval(AllExpected(DOMAIN sites)))
     /\ TLCSet(7, TLCEval(Sure(c, sites, TLCGet(6), origin)))
     /\ g' = NewRun(sites, c.num, c.validate, origin, ToSet(c.taken))
     /\ TLCSet(1, TLCGet(1) \cup
          (IF DOMAIN sites = {}
           THEN {Problem(w, "") : w \in Bad(c.error = "", "P19 no error reported for a file without places")
                                  \cup Bad(c.mutants # <<>>, "P01 mutants for a file without places")}
           ELSE {Problem(w, [sites |-> sites, algs |-> c.plan, total |-> c.total]) :
                   w \in PlanProblems(g', c.plan, c.total) \cup LowerProblems(g', c.lowered, c.by, c.to)}
                \cup {Problem(w, c.error) : w \in Bad(c.error # "", "P22 a run on a valid program ends with an error")}))

DoTry(t) ==
  /\ TLCSet(1, TLCGet(1) \cup {Problem(w, t) : w \in TryProblems(g)})
  /\ g' = Tried(g, t.content, t.ok)
DoWrite(m) ==
  LET F == IF m.alg \in DOMAIN TLCGet(6) THEN TLCGet(6)[m.alg] ELSE <<>>
      fit == TLCEval({x \in 1..Len(F) : Fits(m.alg, F[x], m)})
      fits == fit # {}
      placed == {x \in fit : CommentFits(F[x], m)}
      some == CHOOSE x \in fit : TRUE
  IN
  /\ TLCSet(1, TLCGet(1)
       \cup {Problem(w, [alg |-> m.alg, number |-> m.number]) : w \in WriteProblems(g, m.alg, m.number, m.plain, m.content)}
       \cup (IF m.alg \in DOMAIN TLCGet(6) /\ ~fits
             THEN {Problem("P06 a mutant that its algorithm does not describe", [alg |-> m.alg, number |-> m.number, got |-> m.plain, want |-> Nearest(F, m.plain)])} ELSE {})
       \cup (IF fits /\ placed = {} THEN {Problem("P13 the comment is not where it belongs", [alg |-> m.alg, number |-> m.number, got |-> m.toks, want |-> F[some].e])} ELSE {})
       \cup (IF placed # {} /\ ~\E x \in placed : QuotesFit(F[x], m, m.alg)
             THEN {Problem("P13 the comment does not quote the change", [alg |-> m.alg, number |-> m.number, got |-> m.comments, want |-> F[some].quotes])} ELSE {}))
  /\ g' = Written(g, m.alg, m.number, m.plain, m.content)
End(c) ==
  /\ TLCSet(1, TLCGet(1) \cup {Problem(w, [requested |-> c.num, sites |-> g.sites, written |-> Len(g.out)]) : w \in EndProblems(g, TLCGet(7) /\ DOMAIN g.sites # {})})
  /\ TLCSet(8, TLCGet(8) + (IF TLCGet(7) THEN 1 ELSE 0))
  /\ UNCHANGED g

\* events: 0 the plan, then the candidates given to the compiler, then the mutants written, then the end
NT(c) == Len(c.tries)
NM(c) == Len(c.mutants)
Init == i = 1 /\ e = 0 /\ g = <<>> /\ TLCSet(5, TLCEval(JsonDeserialize(In))) /\ TLCSet(1, {}) /\ TLCSet(2, 0) /\ TLCSet(8, 0)
Next ==
  /\ i <= Len(Cases)
  /\ LET c == Cases[i] IN
     /\ CASE e = 0 -> Begin(c)
          [] e \in 1..NT(c) -> DoTry(c.tries[e])
          [] e \in (NT(c) + 1)..(NT(c) + NM(c)) -> DoWrite(c.mutants[e - NT(c)])
          [] OTHER -> End(c)
     /\ IF e > NT(c) + NM(c) THEN i' = i + 1 /\ e' = 0 ELSE i' = i /\ e' = e + 1
  /\ TLCSet(2, TLCGet(2) + 1)
Spec == Init /\ [][Next]_vars
View == <<i, e>>
Finished == JsonSerialize(Out, [steps |-> TLCGet(2), problems |-> TLCGet(1), sure |-> TLCGet(8)])
=============================================================================
