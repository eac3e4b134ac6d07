------------------------------- MODULE Inputs ------------------------------
(* What the tool did with files of all kinds, against Recognize.  A case: input,    *)
(* and seen: crash, error (a message was given), langs: for each file that got      *)
(* results the language these are in ("?" if the results are not those of that      *)
(* language), names: of these results, extra: files nobody expects.                  *)
EXTENDS Recognize, Json
CONSTANTS In, Out
Cases == TLCGet(5)
VARIABLES i
vars == <<i>>
Problem(what, info) == [case |-> i, what |-> what, info |-> info]
Bad(c, w) == IF c THEN {w} ELSE {}
Expected(c) ==
  IF c.input.command = "mutate" THEN Mutated(c.input.file, c.input.env, c.input.listed)
  ELSE LET l == PrettyPrinted(c.input.file, c.input.env) IN IF l = "" THEN [langs |-> <<>>, error |-> TRUE] ELSE [langs |-> <<Tag(c.input.file, c.input.env)>>, error |-> FALSE]
Judge(c) ==
  LET x == Expected(c)
      s == c.seen
  IN {Problem(w, [expected |-> x, seen |-> s]) :
        w \in Bad(s.crash, "P19 the tool crashed")
              \cup Bad(x.error /\ ~s.error /\ ~s.crash, "P19 a file that cannot be processed is not reported")
              \cup Bad(~x.error /\ s.error, "P19 an error is reported for a file that can be processed")
              \cup Bad(Len(s.langs) > Len(x.langs), "P19 there are results for a file that cannot be processed")
              \cup Bad(Len(s.langs) <= Len(x.langs) /\ s.langs # x.langs, "P19 results are missing or in the wrong language")
              \cup Bad(s.extra # <<>>, "P19 there are files that are no results")}
\* damaged syntax trees: any outcome but a crash
Damage(c) == {Problem(w, c.seen) : w \in Bad(c.seen.crash, "P19 the tool crashed on a damaged syntax tree")}
Init == i = 1 /\ TLCSet(5, TLCEval(JsonDeserialize(In))) /\ TLCSet(1, {}) /\ TLCSet(2, 0)
Next ==
  /\ i <= Len(Cases)
  /\ TLCSet(1, TLCGet(1) \cup (IF Cases[i].damaged THEN Damage(Cases[i]) ELSE Judge(Cases[i])))
  /\ i' = i + 1
  /\ TLCSet(2, TLCGet(2) + 1)
Spec == Init /\ [][Next]_vars
Finished == JsonSerialize(Out, [steps |-> TLCGet(2), problems |-> TLCGet(1)])
=============================================================================
