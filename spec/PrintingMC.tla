----------------------------- MODULE PrintingMC -----------------------------
(* All short lists of files in a small world of paths and contents.                *)
EXTENDS Printing
CONSTANT Max
VARIABLES job, k, s
vars == <<job, k, s>>
Bodies1 == {"sol-source", "vy-source", "sol-tree", "text"}
Paths1 == {<<d, e>> : d \in {"a", "b"}, e \in {"sol", "vy", ""}}
File(p, b) == [what |-> "file", dir |-> p[1], base |-> "x", ext |-> p[2], body |-> b, cfg |-> [language |-> "", names |-> "none"]]
Lists == UNION {[1..n -> Paths1] : n \in 1..Max}
Env1 == [solc |-> "good", vyper |-> "good", docker |-> "absent"]
\* a content for each path in the list
Init == /\ \E l \in Lists : \E c \in [{l[x] : x \in DOMAIN l} -> Bodies1] :
             \E form \in {"dir", "stdout"} : \E out \in {"out", "a"} :
               job = [files |-> [x \in DOMAIN l |-> File(l[x], c[l[x]])], env |-> Env1, form |-> form, out |-> out]
        /\ k = 1 /\ s = Start
Next == k <= Len(job.files) /\ s' = OneFile(job, s, job.files[k]) /\ k' = k + 1 /\ UNCHANGED job
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == k > Len(job.files)
Range(q) == {q[x] : x \in DOMAIN q}
Alone(f) == Outcome([job EXCEPT !.files = <<f>>])
Printable(f) == Program(f, job.env) # ""
\* standard output shows all files in their order, and there is no file
InOrder == Done /\ job.form = "stdout" =>
             /\ s.disk = {} /\ Len(s.shown) = Len(job.files)
             /\ \A x \in 1..Len(job.files) : s.shown[x] = Alone(job.files[x]).shown[1]
\* a file is left out only for being no program or for another one in its place, and this is said
NothingLost == Done /\ job.form = "dir" =>
  \A f \in Range(job.files) :
     \/ \E d \in s.disk : d.of = Path(f) /\ d.to = Target(job, f)
     \/ /\ [kind |-> "error", of |-> Path(f)] \in Range(s.shown)
        /\ ~Printable(f) \/ Target(job, f) \in InputPaths(job) \/ \E h \in Range(job.files) : Path(h) # Path(f) /\ Printable(h) /\ Target(job, h) = Target(job, f)
\* inputs are never in the way of their printed forms, and no printed form replaces another
Safe == /\ \A d \in s.disk : d.to \notin InputPaths(job)
        /\ \A d, h \in s.disk : d.to = h.to => d = h
\* without clashes the list is the sum of its files
Sum == Done /\ job.form = "dir" /\ (\A f, h \in Range(job.files) : Path(f) # Path(h) /\ Printable(f) /\ Printable(h) => Target(job, f) # Target(job, h))
       /\ (\A f \in Range(job.files) : Printable(f) => Target(job, f) \notin InputPaths(job))
       => s.disk = UNION {Alone(f).disk : f \in Range(job.files)}
Steps == k <= Len(job.files) => s = AllFiles([job EXCEPT !.files = SubSeq(@, 1, k - 1)], Start, 1) \/ job.form = "dir"
Whole == Done => s = Outcome(job)
Ends == <>Done
=============================================================================
