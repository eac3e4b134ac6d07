------------------------------ MODULE Printing ------------------------------
(* Printing a list of files, one after the other, to a directory or to standard    *)
(* output.  A file is one of Recognize with dir and base, which with ext make its   *)
(* path; a path has one content, but a list may name it repeatedly.                 *)
EXTENDS Recognize
Base(f) == f.base \o (IF f.ext = "" THEN "" ELSE "." \o f.ext)
Under(d, n) == IF d = "." THEN n ELSE d \o "/" \o n
Path(f) == Under(f.dir, Base(f))
\* where the printed program goes: its own name with the extension of its language
OutName(f, env) == LET x == ExtOf(Program(f, env)) IN IF f.ext = x THEN Base(f) ELSE Base(f) \o "." \o x
\* a job: files, env, form ("dir" or "stdout"), out (the directory)
InputPaths(j) == {Path(j.files[k]) : k \in 1..Len(j.files)}
Target(j, f) == Under(j.out, OutName(f, j.env))
\* what there is to see of it: files (pairs of target and printed file) and shown (texts and messages in order)
Start == [disk |-> {}, shown |-> <<>>]
Says(s, kind, f) == [s EXCEPT !.shown = Append(@, [kind |-> kind, of |-> Path(f)])]
Taken(j, s, f) == \/ Target(j, f) \in InputPaths(j)
                  \/ \E d \in s.disk : d.to = Target(j, f) /\ d.of # Path(f)
OneFile(j, s, f) ==
  IF Program(f, j.env) = "" THEN Says(s, "error", f)
  ELSE IF j.form = "stdout" THEN Says(s, "text", f)
  ELSE IF Taken(j, s, f) THEN Says(s, "error", f)
  ELSE [s EXCEPT !.disk = @ \cup {[to |-> Target(j, f), of |-> Path(f)]}]
RECURSIVE AllFiles(_, _, _)
AllFiles(j, s, k) == IF k > Len(j.files) THEN s ELSE AllFiles(j, OneFile(j, s, j.files[k]), k + 1)
Outcome(j) == AllFiles(j, Start, 1)
=============================================================================
