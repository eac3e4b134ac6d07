---------------------------- MODULE SettingsMC -----------------------------
(* The tool reads its inputs one after the other and keeps a list of jobs.  For  *)
(* all small command lines, configurations and orders of inputs: a job has what  *)
(* its own configuration says, else what the command line says, else the default; *)
(* and it is the same job whatever else is in the session (no leaks).             *)
EXTENDS SavedModel
CONSTANTS MaxInputs
VARIABLES cli, done, jobs
vars == <<cli, done, jobs>>
Opt(m, V) == {None} \cup {m :> v : v \in V}
Clis == {[seed |-> "1"] @@ a @@ b @@ c @@ d : a \in Opt("num", {2}), b \in Opt("funcs", {<<"f">>}), c \in Opt("out", {"o1"}), d \in Opt("all", {TRUE})}
Cfgs == {a @@ b @@ c @@ d @@ e : a \in Opt("num", {3}), b \in Opt("funcs", {<<"g">>, <<>>}), c \in Opt("out", {"o2", "stdout"}),
                                 d \in Opt("algs", {<<"Integer">>}), e \in Opt("seed", {"2"})}
Inputs == {[kind |-> "file", files |-> <<"x">>]} \cup {[kind |-> "config", files |-> <<"y", "z">>, cfg |-> c] : c \in Cfgs}
Init == cli \in Clis /\ done = <<>> /\ jobs = <<>>
Read == /\ Len(done) < MaxInputs
        /\ \E in \in Inputs : done' = Append(done, in) /\ jobs' = jobs \o JobsOf(cli, in)
        /\ UNCHANGED cli
Spec == Init /\ [][Read]_vars
Complete == jobs = Jobs([cli |-> cli, inputs |-> done])
\* the jobs of an input are what they are when it is the only input
RECURSIVE Before(_)
Before(k) == IF k = 0 THEN 0 ELSE Before(k - 1) + Len(done[k].files)
NoLeak == \A k \in 1..Len(done) : SubSeq(jobs, Before(k - 1) + 1, Before(k)) = Jobs([cli |-> cli, inputs |-> <<done[k]>>])
Own(in, m) == in.kind = "config" /\ m \in DOMAIN in.cfg
Governs == \A k \in 1..Len(done) : \A j \in (Before(k - 1) + 1)..Before(k) :
  LET in == done[k] IN
  /\ jobs[j].num = (IF Own(in, "num") THEN in.cfg.num ELSE IF "num" \in DOMAIN cli THEN cli.num ELSE IF in.kind = "config" THEN 5 ELSE 1)
  /\ jobs[j].seed = (IF Own(in, "seed") THEN in.cfg.seed ELSE cli.seed)
  /\ (Own(in, "funcs") /\ in.cfg.funcs # <<>> => jobs[j].funcs = in.cfg.funcs)
  /\ (~Own(in, "funcs") => jobs[j].funcs = Get(cli, "funcs", <<>>))
  /\ (Own(in, "algs") => jobs[j].algs = in.cfg.algs /\ ~jobs[j].all)
  /\ (jobs[j].stdout <=> Own(in, "out") /\ in.cfg.out = "stdout")
  /\ (~Own(in, "out") => jobs[j].out = Get(cli, "out", "out"))
\* saving a job and reading it back, also twice, gives the same run
RoundTrip == \A k \in 1..Len(jobs) : Meaning(Again(jobs[k])) = Meaning(jobs[k]) /\ Again(Again(jobs[k])) = Again(jobs[k])
=============================================================================
