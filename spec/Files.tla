------------------------------- MODULE Files -------------------------------
(* Which files a run may change.  A case: the files before and after (path to    *)
(* content, directories as "dir"), the inputs, the jobs, and what was announced.  *)
(* A job: dir, base and ext of its input, out: the output directory, stdout,      *)
(* print, save, num.  Everything that is not the output of a job is as before.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS In, Out
Cases == TLCGet(5)
VARIABLES i
vars == <<i>>
Problem(what, info) == [case |-> i, what |-> what, info |-> info]
EndsWith(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE LastDot(_, _)
LastDot(s, k) == IF k = 0 THEN 0 ELSE IF SubSeq(s, k, k) = "." THEN k ELSE LastDot(s, k - 1)
Stem(s) == LET d == LastDot(s, Len(s)) IN IF d = 0 THEN s ELSE SubSeq(s, 1, d - 1)
Join(d, n) == IF d = "" THEN n ELSE d \o "/" \o n

MutantNames(j, total) == {Join(j.out, j.base \o "_" \o ToString(n) \o j.ext) : n \in 0..total}
OriginalName(j) == Join(j.out, IF EndsWith(j.base, j.ext) THEN j.base ELSE j.base \o j.ext)
ConfigName(j) == Join(j.out, Stem(j.base) \o ".mgnx")
Written(j, total) ==
  IF j.stdout THEN {}
  ELSE (IF j.command = "mutate" THEN MutantNames(j, total) ELSE {})
       \cup (IF j.print THEN {OriginalName(j)} ELSE {}) \cup (IF j.save THEN {ConfigName(j)} ELSE {})
RECURSIVE Parents(_, _)
Parents(p, k) == IF k = 0 THEN {} ELSE (IF SubSeq(p, k, k) = "/" THEN {SubSeq(p, 1, k - 1)} ELSE {}) \cup Parents(p, k - 1)
Dirs(j) == IF j.stdout THEN {} ELSE {j.out} \cup Parents(j.out, Len(j.out))

Differs(c) == {p \in DOMAIN c.before \cup DOMAIN c.after : p \notin DOMAIN c.before \/ p \notin DOMAIN c.after \/ c.before[p] # c.after[p]}
Rng(s) == {s[k] : k \in 1..Len(s)}
Judge(c) ==
  LET total == c.numbers
      J == Rng(c.jobs)
      D == Differs(c)
      P == UNION {Written(j, total) : j \in J}
      Q == UNION {Dirs(j) : j \in J}
      In0 == Rng(c.inputs)
      badIn == D \cap In0
      gone == {p \in D : p \notin DOMAIN c.after} \ badIn
      newDirs == {p \in D : p \in DOMAIN c.after /\ c.after[p] = "dir"}
      others == (D \ (badIn \cup gone \cup newDirs)) \ P
      ann == Rng(c.announced)
      mut == UNION {IF j.stdout \/ j.command # "mutate" THEN {} ELSE MutantNames(j, total) : j \in J}
  IN (IF badIn = {} THEN {} ELSE {Problem("P05 an input file was changed", badIn)})
     \cup (IF gone = {} THEN {} ELSE {Problem("P05 files or directories disappeared", gone)})
     \cup (IF newDirs \subseteq Q THEN {} ELSE {Problem("P05 directories created elsewhere", newDirs \ Q)})
     \cup (IF others = {} THEN {} ELSE {Problem("P05 files written that are not results of the run", others)})
     \cup (IF ann \subseteq DOMAIN c.after /\ ann \subseteq mut /\ (ann \cap In0) = {} THEN {} ELSE {Problem("P05 announced files are missing, elsewhere or inputs", ann)})
     \cup (IF Len(c.announced) = Cardinality(ann) THEN {} ELSE {Problem("P05 a result replaces another one of the same run", c.announced)})
     \cup (IF \A j \in J : (~j.done /\ c.failed) \/ j.stdout \/ ~j.print \/ OriginalName(j) \in DOMAIN c.after THEN {} ELSE {Problem("P05 the original is not there", "")})
Init == i = 1 /\ TLCSet(5, TLCEval(JsonDeserialize(In))) /\ TLCSet(1, {}) /\ TLCSet(2, 0)
Next ==
  /\ i <= Len(Cases)
  /\ TLCSet(1, TLCGet(1) \cup Judge(Cases[i]))
  /\ i' = i + 1
  /\ TLCSet(2, TLCGet(2) + Cardinality(DOMAIN Cases[i].after))
Spec == Init /\ [][Next]_vars
Finished == JsonSerialize(Out, [steps |-> TLCGet(2), problems |-> TLCGet(1)])
=============================================================================
