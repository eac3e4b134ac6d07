----------------------------- MODULE Generator -----------------------------
(* One mutation run on one input file.  The state of a run is a record g:        *)
(*   sites      how many places each selected algorithm has (only those with > 0) *)
(*   requested  how many mutants were asked for                                   *)
(*   validate   whether the compiler has to accept a mutant                       *)
(*   origin     the original program                                             *)
(*   taken      numbers not available to this run (used for another input file)   *)
(*   out        the mutants written: algorithm, number, program, exact content    *)
(*   tried      the contents given to the compiler, with its verdict              *)
(*   next       the lowest number not used yet                                    *)
(* Events change the state; the operators below say why an event must not happen  *)
(* (an empty set: it may) and what the state is afterwards.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Total(g) == SumOver(g.sites, DOMAIN g.sites)
Least(x, y) == IF x < y THEN x ELSE y
Budget(g) == Least(g.requested, Total(g))

NewRun(sites, requested, validate, origin, taken) ==
  [sites |-> sites, requested |-> requested, validate |-> validate, origin |-> origin, taken |-> taken,
   out |-> <<>>, tried |-> <<>>, next |-> 0]

RECURSIVE FreeNumber(_, _)
FreeNumber(g, n) == IF n \in g.taken THEN FreeNumber(g, n + 1) ELSE n
OfAlg(g, alg) == Cardinality({k \in 1..Len(g.out) : g.out[k].alg = alg})

\* the report before the first mutant
Bad(c, w) == IF c THEN {w} ELSE {}
PlanProblems(g, algs, total) ==
  Bad({algs[k] : k \in 1..Len(algs)} # DOMAIN g.sites, "P01 the algorithms reported are not those with places")
  \cup Bad(Len(algs) # Cardinality({algs[k] : k \in 1..Len(algs)}), "P01 an algorithm is reported twice")
  \cup Bad(total # Total(g), "P01 the number of mutations reported is not the number of places")
LowerProblems(g, lowered, by, to) ==
  Bad(lowered # (g.requested > Total(g)), "P01 lowering of the request reported wrongly")
  \cup Bad(lowered /\ (by # g.requested - Total(g) \/ to # Total(g)), "P01 lowering reported with wrong numbers")

\* the compiler is given a candidate
TryProblems(g) == Bad(~g.validate, "P04 a mutant is compiled although validation was not requested")
Tried(g, content, ok) == [g EXCEPT !.tried = Append(@, [content |-> content, ok |-> ok])]

\* a mutant is written and announced
Accepted(g) == SelectSeq(g.tried, LAMBDA t : t.ok)
WriteProblems(g, alg, number, prog, content) ==
  Bad(alg \notin DOMAIN g.sites, "P01 a mutant of an algorithm that was not selected or has no places")
  \cup Bad(alg \in DOMAIN g.sites /\ OfAlg(g, alg) >= g.sites[alg], "P01 an algorithm contributes more mutants than it has places")
  \cup Bad(Len(g.out) >= g.requested, "P01 more mutants than requested")
  \cup Bad(Len(g.out) >= Total(g), "P01 more mutants than places")
  \cup Bad(number # FreeNumber(g, g.next), "P01 mutants are not numbered without gaps")
  \cup Bad(prog = g.origin, "P02 a mutant is the original program")
  \cup Bad(\E k \in 1..Len(g.out) : g.out[k].prog = prog, "P02 two mutants are the same program")
  \cup Bad(g.validate /\ (Len(Accepted(g)) <= Len(g.out) \/ Accepted(g)[Len(g.out) + 1].content # content),
           "P04 a mutant was written that the compiler did not accept in this form")
Written(g, alg, number, prog, content) ==
  [g EXCEPT !.out = Append(@, [alg |-> alg, number |-> number, prog |-> prog, content |-> content]), !.next = number + 1]

\* the run is over; sure: every place can still give a mutant of its own
EndProblems(g, sure) ==
  Bad(g.validate /\ Len(Accepted(g)) # Len(g.out), "P04 an accepted mutant was not written")
  \cup Bad(sure /\ Len(g.out) # Budget(g), "P01 fewer mutants than requested and possible")
  \cup Bad(sure /\ g.validate /\ Len(g.out) # Budget(g), "P04 rejected mutants are not replaced by others")
=============================================================================
