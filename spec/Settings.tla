------------------------------ MODULE Settings ------------------------------
(* How the settings of the command line and of configuration files combine.  A   *)
(* command line and a configuration are records with only the members given:     *)
(*   num, seed, algs, all, funcs, validate, print, out, stdout, compiler          *)
(* (compiler: for each language what to call).  A session is a command line and   *)
(* a sequence of inputs: a file, or a configuration that lists files.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Get(r, m, d) == IF m \in DOMAIN r THEN r[m] ELSE d
None == <<>>

\* Lists that are empty count as not given.
List(r, m, d) == IF m \in DOMAIN r /\ r[m] # <<>> THEN r[m] ELSE d

Selection(cli, cfg) ==
  IF Get(cfg, "all", FALSE) THEN [all |-> TRUE, algs |-> <<>>]
  ELSE IF List(cfg, "algs", <<>>) # <<>> THEN [all |-> FALSE, algs |-> cfg.algs]
  ELSE IF Get(cli, "all", FALSE) THEN [all |-> TRUE, algs |-> <<>>]
  ELSE [all |-> FALSE, algs |-> List(cli, "algs", <<>>)]

\* fromConfig: whether a configuration lists the file (cfg is then what it says)
Effective(cli, cfg, fromConfig) ==
  Selection(cli, cfg) @@
  [num |-> Get(cfg, "num", Get(cli, "num", IF fromConfig THEN 5 ELSE 1)),
   seed |-> Get(cfg, "seed", cli.seed),
   funcs |-> List(cfg, "funcs", List(cli, "funcs", <<>>)),
   validate |-> Get(cfg, "validate", Get(cli, "validate", FALSE)),
   print |-> Get(cfg, "print", Get(cli, "print", FALSE)),
   stdout |-> IF "out" \in DOMAIN cfg THEN cfg.out = "stdout" ELSE Get(cli, "stdout", FALSE),
   out |-> IF Get(cfg, "out", "stdout") # "stdout" THEN cfg.out ELSE Get(cli, "out", "out"),
   compiler |-> Get(cfg, "compiler", Get(cli, "compiler", "A"))]

JobsOf(cli, in) ==
  IF in.kind = "file" THEN << [file |-> in.files[1]] @@ Effective(cli, None, FALSE) >>
  ELSE [k \in 1..Len(in.files) |-> [file |-> in.files[k]] @@ Effective(cli, in.cfg, TRUE)]
RECURSIVE JobsFrom(_, _, _)
JobsFrom(cli, ins, k) == IF k > Len(ins) THEN <<>> ELSE JobsOf(cli, ins[k]) \o JobsFrom(cli, ins, k + 1)
Jobs(session) == JobsFrom(session.cli, session.inputs, 1)
=============================================================================
