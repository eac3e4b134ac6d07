------------------------------- MODULE Repro -------------------------------
(* What a run does is a function of the command, the content of the files and    *)
(* the seed.  A case is a list of observations with the same command, content and *)
(* seed, made in different processes, at different times, in different places;     *)
(* a function exists exactly when they agree.  where: the directory names that     *)
(* legitimately differ have been replaced by <in> and <out>.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS In, Out
Cases == TLCGet(5)
VARIABLES i, table
vars == <<i, table>>
Key(o) == o.key
RECURSIVE Insert(_, _, _)
\* the function observed so far; a second value for a key is a problem
Insert(t, obs, k) ==
  IF k > Len(obs) THEN [t |-> t, bad |-> {}]
  ELSE IF Key(obs[k]) \in DOMAIN t
       THEN LET r == Insert(t, obs, k + 1) IN
            IF t[Key(obs[k])].value = obs[k].value THEN r ELSE [r EXCEPT !.bad = @ \cup {<<t[Key(obs[k])].k, k>>}]
       ELSE Insert((Key(obs[k]) :> [value |-> obs[k].value, k |-> k]) @@ t, obs, k + 1)
Differ(x, y) == {m \in DOMAIN x : m \notin DOMAIN y \/ x[m] # y[m]}
Init == i = 1 /\ table = 0 /\ TLCSet(5, TLCEval(JsonDeserialize(In))) /\ TLCSet(1, {}) /\ TLCSet(2, 0)
Next ==
  /\ i <= Len(Cases)
  /\ LET obs == Cases[i].obs
         r == Insert(<<>>, obs, 1)
     IN /\ table' = Cardinality(DOMAIN r.t)
        /\ TLCSet(2, TLCGet(2) + Len(obs))
        /\ TLCSet(1, TLCGet(1) \cup {[case |-> i, what |-> "the same command gives different results",
                                      info |-> [first |-> obs[b[1]].how, other |-> obs[b[2]].how, members |-> Differ(obs[b[1]].value, obs[b[2]].value)]] : b \in r.bad})
  /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Finished == JsonSerialize(Out, [steps |-> TLCGet(2), problems |-> TLCGet(1)])
=============================================================================
