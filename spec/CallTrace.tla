----------------------------- MODULE CallTrace -----------------------------
(* Recorded calls of compilers against Calls.  A case: session, again (whether this *)
(* is the run from saved configurations), calls in order, each with exe, kind        *)
(* (solc, vyper or docker), argv, task (ast, compile or version) and job (number of   *)
(* the job whose file it is about, 0 if none), and mutants: how many, per job.        *)
EXTENDS Calls, Json
CONSTANTS In, Out
Cases == TLCGet(5)
VARIABLES i, k
vars == <<i, k>>
Problem(what, info) == [case |-> i, what |-> what, info |-> info]
Of(c, j) == IF c.again THEN Saved(c.session.cli, c.session.jobs[j]) ELSE Effective(c.session.cli, c.session.jobs[j])
LangOf(e) == IF e.kind = "solc" THEN "Solidity" ELSE "Vyper"
Jobs(c) == 1..Len(c.session.jobs)
CallProblems(c, e) ==
  IF e.task = "version"
  THEN Bad(e.argv # <<"--version">>, "P21 the question for the version has other arguments")
       \cup Bad(\A j \in Jobs(c) : e.exe # Of(c, j).Vyper.exe, "P21 a compiler is called that is not configured")
  ELSE IF e.job \notin Jobs(c) THEN {"P21 a compiler is called with a file that is none of the run"}
  ELSE LET s == Of(c, e.job)[LangOf(e)]
           r == Arguments(e.kind, e.argv)
       IN Bad(e.kind # "docker" /\ e.exe # s.exe, "P21 a compiler is called that is not configured for the file")
          \cup (IF e.kind = "solc" THEN SolProblems(r, s, e.task) ELSE VyProblems(r, s, e.task))
          \cup Bad(e.task = "compile" /\ ~c.session.validate, "P21 a mutant is compiled although this was not asked for")
          \cup Bad(e.task = "compile" /\ LangOf(e) # c.session.jobs[e.job].lang, "P21 a mutant is compiled in another language")
EndProblems(c) ==
  UNION {LET j == c.session.jobs[n]
             mine == {m \in 1..Len(c.calls) : c.calls[m].task # "version" /\ c.calls[m].job = n /\ LangOf(c.calls[m]) = j.lang}
         IN Bad(j.source /\ c.mutants[n] > 0 /\ \A m \in mine : c.calls[m].task # "ast", "P21 a syntax tree without its compiler")
            \cup Bad(c.session.validate /\ c.session.command = "mutate" /\ Cardinality({m \in mine : c.calls[m].task = "compile"}) < c.mutants[n], "P21 a mutant was not given to its compiler") : n \in Jobs(c)}
Init == i = 1 /\ k = 1 /\ TLCSet(5, TLCEval(JsonDeserialize(In))) /\ TLCSet(1, {}) /\ TLCSet(2, 0)
Next ==
  /\ i <= Len(Cases)
  /\ LET c == Cases[i] IN
     IF k <= Len(c.calls)
     THEN TLCSet(1, TLCGet(1) \cup {Problem(w, c.calls[k]) : w \in CallProblems(c, c.calls[k])}) /\ k' = k + 1 /\ i' = i
     ELSE TLCSet(1, TLCGet(1) \cup {Problem(w, "") : w \in EndProblems(c)}) /\ k' = 1 /\ i' = i + 1
  /\ TLCSet(2, TLCGet(2) + 1)
Spec == Init /\ [][Next]_vars
Finished == JsonSerialize(Out, [steps |-> TLCGet(2), problems |-> TLCGet(1)])
=============================================================================
