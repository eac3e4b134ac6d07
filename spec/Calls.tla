------------------------------- MODULE Calls -------------------------------
(* How compilers are called.  Settings of a Solidity compiler: exe, base, include, *)
(* allow, remap, stop (sequences of values, base and stop with at most one); of a   *)
(* Vyper compiler: exe, root.  Read is how a compiler reads its arguments.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
First(x, n) == Len(x) >= n /\ n > 0
HasEq(x) == \E k \in 1..Len(x) : SubSeq(x, k, k) = "="
Dash(x) == Len(x) > 0 /\ SubSeq(x, 1, 1) = "-"
SolOptions == ("--base-path" :> "base") @@ ("--include-path" :> "include") @@ ("--allow-paths" :> "allow") @@ ("--stop-after" :> "stop") @@ ("-o" :> "out")
VyOptions == ("-p" :> "root") @@ ("-f" :> "format") @@ ("-o" :> "out")
Empty == [base |-> <<>>, include |-> <<>>, allow |-> <<>>, stop |-> <<>>, out |-> <<>>, root |-> <<>>, format |-> <<>>, flags |-> <<>>, remap |-> <<>>, files |-> <<>>]
RECURSIVE Read(_, _, _, _)
Read(kind, a, k, acc) ==
  LET opt == IF kind = "solc" THEN SolOptions ELSE VyOptions IN
  IF k > Len(a) THEN acc
  ELSE IF a[k] \in DOMAIN opt /\ k < Len(a) THEN Read(kind, a, k + 2, [acc EXCEPT ![opt[a[k]]] = Append(@, a[k + 1])])
  ELSE LET f == IF Dash(a[k]) THEN "flags" ELSE IF kind = "solc" /\ HasEq(a[k]) THEN "remap" ELSE "files"
       IN Read(kind, a, k + 1, [acc EXCEPT ![f] = Append(@, a[k])])
Arguments(kind, a) == Read(kind, a, 1, Empty)

RECURSIVE Join(_, _)
Join(s, k) == IF k > Len(s) THEN "" ELSE (IF k = 1 THEN "" ELSE ",") \o s[k] \o Join(s, k + 1)
AllowList(s) == IF s = <<>> THEN <<>> ELSE <<Join(s, 1)>>
SolTask == {"--ast-compact-json", "--overwrite"}
ToSet(s) == {s[k] : k \in 1..Len(s)}
Bad(c, w) == IF c THEN {w} ELSE {}

SolProblems(r, s, task) ==
  Bad(r.base # s.base, "P21 the base path is lost, changed or added")
  \cup Bad(r.include # s.include, "P21 the include paths are lost, changed or added")
  \cup Bad(r.allow # AllowList(s.allow), "P21 the allowed paths are not passed as one list")
  \cup Bad(r.remap # s.remap, "P21 the remappings are lost, changed or added")
  \cup Bad(r.stop # s.stop /\ ~(task = "compile" /\ r.stop = Append(s.stop, "parsing")), "P21 the stop stage is lost, changed or added")
  \cup Bad(~(ToSet(r.flags) \subseteq SolTask) \/ ("--ast-compact-json" \in ToSet(r.flags)) # (task = "ast"), "P21 flags that do not select the task")
  \cup Bad(Len(r.files) # 1, "P21 not exactly one file")
VyProblems(r, s, task) ==
  Bad(r.root # s.root, "P21 the root path is lost, changed or added")
  \cup Bad(r.format # (IF task = "ast" THEN <<"ast">> ELSE <<>>), "P21 the format does not select the task")
  \cup Bad(r.flags # <<>>, "P21 flags that do not select the task")
  \cup Bad(Len(r.files) # 1, "P21 not exactly one file")

\* settings of a job: command line, replaced as a whole by the compiler details of a configuration
Default == [Solidity |-> [exe |-> "solc", base |-> <<>>, include |-> <<>>, allow |-> <<>>, remap |-> <<>>, stop |-> <<>>], Vyper |-> [exe |-> "vyper", root |-> <<>>]]
Effective(cli, job) == IF job.config /\ job.details THEN [cli EXCEPT ![job.lang] = job.settings] ELSE cli
\* a saved configuration carries the settings of its own language
Saved(cli, job) == [Default EXCEPT ![job.lang] = Effective(cli, job)[job.lang]]

\* A printer of arguments, to check Read against
RECURSIVE Flag(_, _, _)
Flag(o, s, k) == IF k > Len(s) THEN <<>> ELSE <<o, s[k]>> \o Flag(o, s, k + 1)
SolArguments(s, task, out, file) ==
  Flag("--base-path", s.base, 1) \o Flag("--include-path", s.include, 1) \o Flag("--allow-paths", AllowList(s.allow), 1) \o s.remap \o Flag("--stop-after", s.stop, 1)
  \o (IF task = "ast" THEN <<"--ast-compact-json">> ELSE <<>>) \o <<"--overwrite", "-o", out, file>>
VyArguments(s, task, file) == Flag("-p", s.root, 1) \o (IF task = "ast" THEN <<"-f", "ast">> ELSE <<>>) \o <<file>>
=============================================================================
