------------------------------- MODULE Saved -------------------------------
(* Configurations that a run saves.  Read back without any other settings, a     *)
(* saved configuration means exactly the settings of the job it was saved for     *)
(* (Means), it names the file and language of the job, and running it does what    *)
(* the job did.  A case: a session, for each job that got a configuration what the *)
(* configuration says, the results of the session (first) and of running the       *)
(* saved configurations one after the other (again).                               *)
EXTENDS SavedModel, Json
CONSTANTS In, Out
Cases == TLCGet(5)
VARIABLES i, j
vars == <<i, j>>
Problem(what, info) == [case |-> i, job |-> j, what |-> what, info |-> info]
JudgeJob(c) ==
  LET jb == Jobs(c.session)[c.saved[j].job]
      s == c.saved[j]
      cfg == s.cfg
      want == Meaning(jb)
      got == Meaning(Effective([seed |-> "none"], cfg, TRUE))
      D == {m \in DOMAIN want : got[m] # want[m] /\ ~(m = "seed" /\ c.noseed)}
  IN (IF D = {} THEN {} ELSE {Problem("P18 the saved configuration means other settings", [m \in D |-> <<got[m], want[m]>>])})
     \cup (IF c.noseed /\ ("seed" \notin DOMAIN cfg) THEN {Problem("P18 the saved configuration has no seed", "")} ELSE {})
     \cup (IF s.files = <<s.name>> /\ s.language = s.lang THEN {} ELSE {Problem("P18 the saved configuration is about another file or language", s)})
     \cup (IF s.error = "" THEN {} ELSE {Problem("P18 the saved configuration does not run", s.error)})
JudgeSession(c) ==
  LET f == c.first
      a == c.again
      D == {p \in DOMAIN f.files \cup DOMAIN a.files : p \notin DOMAIN f.files \/ p \notin DOMAIN a.files \/ f.files[p] # a.files[p]}
      R == {k \in 1..Len(f.report) : k > Len(a.report) \/ f.report[k] # a.report[k]}
  IN (IF D = {} THEN {} ELSE {Problem("P18 running the saved configurations leaves other files", D)})
     \cup (IF R = {} /\ Len(f.report) = Len(a.report) THEN {} ELSE {Problem("P18 running the saved configurations reports something else", [first |-> {f.report[k] : k \in R}, lines |-> <<Len(f.report), Len(a.report)>>])})
     \cup (IF Len(c.saved) = c.done THEN {} ELSE {Problem("P18 a configuration is missing", [saved |-> Len(c.saved), jobs |-> c.done])})
Init == i = 1 /\ j = 0 /\ TLCSet(5, TLCEval(JsonDeserialize(In))) /\ TLCSet(1, {}) /\ TLCSet(2, 0)
Next ==
  /\ i <= Len(Cases)
  /\ LET c == Cases[i] IN
     /\ TLCSet(1, TLCGet(1) \cup (IF j = 0 THEN JudgeSession(c) ELSE JudgeJob(c)))
     /\ IF j >= Len(c.saved) THEN i' = i + 1 /\ j' = 0 ELSE i' = i /\ j' = j + 1
  /\ TLCSet(2, TLCGet(2) + 1)
Spec == Init /\ [][Next]_vars
Finished == JsonSerialize(Out, [steps |-> TLCGet(2), problems |-> TLCGet(1)])
=============================================================================
