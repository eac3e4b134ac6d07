----------------------------- MODULE Recognize -----------------------------
(* What a file is taken for.  A file: what ("file", "dir", "missing"), ext (the    *)
(* part of its name after the last dot), body (its content, by kind), and for a    *)
(* configuration cfg: language ("Solidity", "Vyper", anything else) and names       *)
(* ("list", "none" or "other": whether it has a list of file names).               *)
(* An environment: how solc, vyper and docker behave.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Languages == {"Solidity", "Vyper"}
ExtOf(l) == IF l = "Solidity" THEN "sol" ELSE "vy"
\* kinds of content
Bodies == {"sol-source", "vy-source", "both-source", "text", "binary", "empty", "sol-tree", "vy-tree", "sol-tree-cut", "vy-tree-cut",
           "sol-tree-bare", "vy-tree-bare", "sol-tree-source", "object", "array", "number", "null", "string", "sol-part", "sol-case", "sol-number", "vy-noast", "vy-noname", "two-trees", "config"}
\* which compilers take the content for a program
Knows(b) == CASE b = "sol-source" -> {"Solidity"} [] b = "vy-source" -> {"Vyper"} [] b = "both-source" -> Languages [] b = "sol-tree-source" -> {"Solidity"} [] OTHER -> {}
\* whose syntax tree the content is
TreeOf(b) == CASE b \in {"sol-tree", "sol-tree-bare", "sol-tree-source"} -> {"Solidity"} [] b \in {"vy-tree", "vy-tree-bare"} -> {"Vyper"} [] b = "two-trees" -> Languages [] OTHER -> {}
\* trees with nothing to mutate in them
Bare(b) == b \in {"sol-tree-bare", "vy-tree-bare", "two-trees"}
IsJson(b) == b \in {"sol-tree", "vy-tree", "sol-tree-bare", "vy-tree-bare", "sol-tree-source", "object", "array", "number", "null", "string", "sol-part", "sol-case", "sol-number", "vy-noast", "vy-noname", "two-trees", "config"}

\* compilers: absent, good, rejects; silent, garbage, foreign: accept but deliver no tree
Solcs == {"absent", "good", "rejects", "silent", "garbage", "foreign"}
Vypers == {"absent", "good", "rejects", "noversion", "garbage", "foreign"}
Dockers == {"absent", "good", "rejects", "garbage"}
Accepting(x) == x \in {"good", "silent", "garbage", "foreign"}
SolcTakes(f, env) == Accepting(env.solc) /\ "Solidity" \in Knows(f.body)
VyperTakes(f, env) == Accepting(env.vyper) /\ "Vyper" \in Knows(f.body)
DockerTakes(f, env) == Accepting(env.docker) /\ "Vyper" \in Knows(f.body)

IsConfig(f) == f.what = "file" /\ f.ext = "mgnx" /\ f.body = "config" /\ f.cfg.language \in Languages
None == [type |-> "none", lang |-> ""]
\* configurations before sources before syntax trees, Solidity before Vyper
Recognised(f, env) ==
  IF f.what # "file" THEN None
  ELSE IF IsConfig(f) THEN [type |-> "config", lang |-> f.cfg.language]
  ELSE IF SolcTakes(f, env) THEN [type |-> "source", lang |-> "Solidity"]
  ELSE IF VyperTakes(f, env) \/ DockerTakes(f, env) THEN [type |-> "source", lang |-> "Vyper"]
  ELSE IF "Solidity" \in TreeOf(f.body) THEN [type |-> "tree", lang |-> "Solidity"]
  ELSE IF "Vyper" \in TreeOf(f.body) THEN [type |-> "tree", lang |-> "Vyper"]
  ELSE None

\* the language of the program obtained from a file, or "" if it is none
Program(f, env) ==
  LET r == Recognised(f, env) IN
  CASE r.type = "tree" -> r.lang
    [] r.type = "source" /\ r.lang = "Solidity" -> IF env.solc = "good" THEN "Solidity" ELSE ""
    \* docker is asked when vyper does not take the file
    [] r.type = "source" /\ r.lang = "Vyper" -> IF (IF VyperTakes(f, env) THEN env.vyper = "good" ELSE env.docker = "good") THEN "Vyper" ELSE ""
    [] OTHER -> ""
FromTree(f, env) == Recognised(f, env).type = "tree"
Mutatable(f, env) == Program(f, env) # "" /\ ~(FromTree(f, env) /\ Bare(f.body))

Tag(f, env) == Program(f, env) \o "/" \o Recognised(f, env).type
\* Outcome of mutating: for each file that is tried in turn its language and type, then whether there is an error
RECURSIVE Walk(_, _, _)
Walk(fs, env, k) ==
  IF k > Len(fs) THEN [langs |-> <<>>, error |-> FALSE]
  ELSE IF ~Mutatable(fs[k], env) THEN [langs |-> <<>>, error |-> TRUE]
  ELSE LET r == Walk(fs, env, k + 1) IN [langs |-> <<Tag(fs[k], env)>> \o r.langs, error |-> r.error]
Mutated(f, env, listed) ==
  IF Recognised(f, env).type = "config"
  THEN IF f.cfg.names = "list" THEN Walk(listed, env, 1) ELSE [langs |-> <<>>, error |-> TRUE]
  ELSE Walk(<<f>>, env, 1)
\* a configuration is no program to print
PrettyPrinted(f, env) == Program(f, env)
=============================================================================
