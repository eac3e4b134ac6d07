------------------------------ MODULE Sessions ------------------------------
(* Recorded sessions against the settings that each job must have had.  A case   *)
(* holds the session, what the tool did in it (seen), and what it does for each    *)
(* job on a run of its own with exactly the settings of the job on the command     *)
(* line (alone): the report line by line and the files left behind.  The jobs are  *)
(* executed in order until one fails; a session does what its jobs do alone.       *)
EXTENDS Settings, Json
CONSTANTS In, Out
Cases == TLCGet(5)
VARIABLES i, j
vars == <<i, j>>
Problem(what, info) == [case |-> i, job |-> j, what |-> what, info |-> info]
N(c) == Len(c.alone)
Last(c) == LET F == {k \in 1..N(c) : c.alone[k].error # ""} IN IF F = {} THEN N(c) ELSE CHOOSE k \in F : \A m \in F : k <= m
RECURSIVE Lines(_, _)
Lines(c, k) == IF k > Last(c) THEN <<>> ELSE c.alone[k].report \o Lines(c, k + 1)
RECURSIVE Files(_, _)
Files(c, k) == IF k > Last(c) THEN <<>> ELSE c.alone[k].files @@ Files(c, k + 1)
FirstDiff(x, y) == LET D == {k \in 1..Len(x) : k > Len(y) \/ x[k] # y[k]} IN IF D = {} THEN Len(x) + 1 ELSE CHOOSE k \in D : \A m \in D : k <= m
Part(x, k) == SubSeq(x, IF k > 2 THEN k - 2 ELSE 1, IF k + 2 < Len(x) THEN k + 2 ELSE Len(x))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

\* a job: its own output lies where its settings say
JudgeJob(c) ==
  LET jb == Jobs(c.session)[j]
      r == c.alone[j]
      P == DOMAIN r.files
  IN (IF \A p \in P : ~jb.stdout /\ StartsWith(p, jb.out \o "/") THEN {} ELSE {Problem("output outside the output directory", [job |-> jb, files |-> P])})
     \cup (IF jb.print /\ ~jb.stdout /\ r.error = "" /\ Cardinality(P) # Len(r.mutants) + 1 THEN {Problem("original not printed beside the mutants", [job |-> jb, files |-> P])} ELSE {})
     \cup (IF ~jb.print /\ Cardinality(P) # Len(r.mutants) THEN {Problem("files beside the mutants without request", [job |-> jb, files |-> P])} ELSE {})
     \cup (IF Len(r.mutants) > jb.num THEN {Problem("more mutants than the settings say", jb)} ELSE {})
\* the session: the sum of its jobs
JudgeSession(c) ==
  LET want == Lines(c, 1)
      got == c.seen.report
      k == FirstDiff(want, got)
      wf == Files(c, 1)
      gf == c.seen.files
      D == {p \in DOMAIN wf \cup DOMAIN gf : p \notin DOMAIN wf \/ p \notin DOMAIN gf \/ wf[p] # gf[p]}
  IN (IF Len(Jobs(c.session)) # N(c) THEN {Problem("the session has other jobs", N(c))} ELSE {})
     \cup (IF want = got THEN {} ELSE {Problem("the report differs from that of the jobs alone", [got |-> Part(got, k), want |-> Part(want, k), at |-> k])})
     \cup (IF D = {} THEN {} ELSE {Problem("the files differ from those of the jobs alone", D)})
Init == i = 1 /\ j = 0 /\ TLCSet(5, TLCEval(JsonDeserialize(In))) /\ TLCSet(1, {}) /\ TLCSet(2, 0)
Next ==
  /\ i <= Len(Cases)
  /\ LET c == Cases[i] IN
     /\ TLCSet(1, TLCGet(1) \cup (IF j = 0 THEN JudgeSession(c) ELSE JudgeJob(c)))
     /\ IF j >= N(c) THEN i' = i + 1 /\ j' = 0 ELSE i' = i /\ j' = j + 1
  /\ TLCSet(2, TLCGet(2) + 1)
Spec == Init /\ [][Next]_vars
Finished == JsonSerialize(Out, [steps |-> TLCGet(2), problems |-> TLCGet(1)])
=============================================================================
