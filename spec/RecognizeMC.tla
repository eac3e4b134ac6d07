---------------------------- MODULE RecognizeMC ----------------------------
(* Recognition step by step, asking one compiler after the other, for all kinds   *)
(* of files and environments; what it ends with is what Recognize says.            *)
EXTENDS Recognize
VARIABLES f, env, step, res, calls
vars == <<f, env, step, res, calls>>
Files == {[what |-> w, ext |-> e, body |-> b, cfg |-> c] :
            w \in {"file", "dir", "missing"}, e \in {"mgnx", "sol"}, b \in Bodies,
            c \in {[language |-> l, names |-> n] : l \in Languages \cup {"Cobol"}, n \in {"list", "none"}}}
Init == /\ f \in Files /\ env \in [solc : Solcs, vyper : Vypers, docker : Dockers]
        /\ step = "file" /\ res = None /\ calls = {}
Go(s) == step' = s /\ UNCHANGED <<f, env, res, calls>>
Found(t, l) == res' = [type |-> t, lang |-> l] /\ step' = "done" /\ UNCHANGED <<f, env>>
Ask(who, yes, l, next) ==
  /\ calls' = calls \cup {who} /\ UNCHANGED <<f, env>>
  /\ IF yes THEN res' = [type |-> "source", lang |-> l] /\ step' = "done" ELSE res' = res /\ step' = next
Next ==
  \/ step = "file" /\ (IF f.what = "file" THEN Go("config") ELSE Go("done"))
  \/ step = "config" /\ (IF f.ext = "mgnx" /\ IsJson(f.body) /\ f.body = "config" /\ f.cfg.language \in Languages THEN Found("config", f.cfg.language) /\ calls' = calls ELSE Go("solc"))
  \/ step = "solc" /\ Ask("solc", SolcTakes(f, env), "Solidity", "version")
  \/ step = "version" /\ (IF env.vyper \in {"absent", "noversion"} THEN Go("docker") ELSE Go("vyper"))
  \/ step = "vyper" /\ Ask("vyper", VyperTakes(f, env), "Vyper", "docker")
  \/ step = "docker" /\ Ask("docker", DockerTakes(f, env), "Vyper", "soltree")
  \/ step = "soltree" /\ (IF "Solidity" \in TreeOf(f.body) THEN Found("tree", "Solidity") /\ calls' = calls ELSE Go("vytree"))
  \/ step = "vytree" /\ (IF "Vyper" \in TreeOf(f.body) THEN Found("tree", "Vyper") /\ calls' = calls ELSE Go("done"))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Agrees == step = "done" => res = Recognised(f, env)
\* no compiler is asked about what is no file or a configuration
Quiet == step = "done" /\ (f.what # "file" \/ res.type = "config") => calls = {}
\* every program comes from a file, in a language it was recognised in, and configurations are no programs
Sound == step = "done" => (Program(f, env) # "" => f.what = "file" /\ Program(f, env) = res.lang /\ res.type \in {"source", "tree"})
\* an environment without compilers still takes syntax trees
Trees == step = "done" /\ f.what = "file" /\ env = [solc |-> "absent", vyper |-> "absent", docker |-> "absent"] /\ ~IsConfig(f) => (Program(f, env) # "") = (TreeOf(f.body) # {})
Ends == <>(step = "done")
=============================================================================
