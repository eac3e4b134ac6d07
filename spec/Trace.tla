------------------------------- MODULE Trace -------------------------------
(* Conformance of recorded behaviour of the tool with the specification.  One   *)
(* case is a program together with everything the tool did with it: the text it *)
(* printed, how many places it offered per algorithm, and the mutants it made   *)
(* for every place and a number of random seeds.  The machine steps through the *)
(* cases and the algorithms and collects the disagreements.                     *)
EXTENDS Places
CONSTANTS In, Out
Cases == TLCGet(5)   \* read once, see Init
VARIABLES i, a
vars == <<i, a>>

Problem(kind, alg, idx, info) == [case |-> i, kind |-> kind, alg |-> alg, idx |-> idx, info |-> info]

JudgePrint(c) ==
  LET e == SToks(c.tree) IN
  IF c.original = e THEN {}
  ELSE {Problem("print", "", 0, [at |-> FirstDiff(e, c.original), want |-> e, got |-> c.original])}

JudgeAlg(c, alg) ==
  LET tree == TLCGet(3)
      walk == TLCGet(4)
      S == TLCEval({s \in 1..Len(walk) : walk[s].in /\ Mutable(alg, walk[s].n)})
      SS == SetSeq(S)
      ob == c.algs[alg]
      idxs == 1..Len(ob.idx)
      E == TLCEval(Join([j \in 1..Len(SS) |-> ExpectedAt(alg, tree, SS[j], walk[SS[j]])], 1))
      match == TLCEval([k \in idxs |-> TLCEval([m \in 1..Len(ob.idx[k]) |-> TLCEval({x \in 1..Len(E) : Fits(alg, E[x], ob.idx[k][m])})])])
      cand == TLCEval([k \in idxs |-> {p \in S : \A m \in 1..Len(ob.idx[k]) : \E x \in match[k][m] : E[x].s = p}])
      only(k) == CHOOSE p \in cand[k] : TRUE
      labels(k) == UNION {{E[x].label : x \in {y \in match[k][m] : E[y].s = only(k)}} : m \in 1..Len(ob.idx[k])}
      wanted(p) == {E[x].label : x \in {y \in 1..Len(E) : E[y].s = p}}
  IN
  (IF ob.count # Cardinality(S) THEN {Problem("count", alg, 0, [want |-> Cardinality(S), got |-> ob.count, sites |-> {walk[s].p : s \in S}])} ELSE {})
  \cup UNION {UNION {
       IF match[k][m] = {} THEN {Problem("nomatch", alg, k, [got |-> ob.idx[k][m].plain, want |-> Nearest(E, ob.idx[k][m].plain)])}
       ELSE IF ~\E x \in match[k][m] : CommentFits(E[x], ob.idx[k][m])
         THEN {Problem("comment-place", alg, k, [got |-> ob.idx[k][m].toks, want |-> E[CHOOSE x \in match[k][m] : TRUE].e])}
       ELSE IF ~\E x \in match[k][m] : CommentFits(E[x], ob.idx[k][m]) /\ QuotesFit(E[x], ob.idx[k][m], alg)
         THEN {Problem("comment-text", alg, k, [got |-> ob.idx[k][m].comments, want |-> E[CHOOSE x \in match[k][m] : TRUE].quotes])}
       ELSE {} : m \in 1..Len(ob.idx[k])} : k \in idxs}
  \cup UNION {IF cand[k] = {} /\ \A m \in 1..Len(ob.idx[k]) : match[k][m] # {}
              THEN {Problem("place", alg, k, "the mutants of one place lie at different places")} ELSE {} : k \in idxs}
  \cup {Problem("uncovered", alg, 0, [site |-> walk[p].p]) : p \in {q \in S : ob.count > 0 /\ ~\E k \in idxs : q \in cand[k]}}
  \cup UNION {{Problem("twice", alg, k, [other |-> m]) : m \in {m2 \in idxs : m2 > k /\ Cardinality(cand[k]) = 1 /\ cand[m2] = cand[k]}} : k \in idxs}
  \cup (IF ~c.full THEN {}
        ELSE UNION {IF Cardinality(cand[k]) = 1 /\ wanted(only(k)) \ labels(k) # {} /\ Cardinality(wanted(only(k))) <= 6
                    THEN {Problem("reach", alg, k, [missing |-> wanted(only(k)) \ labels(k)])} ELSE {} : k \in idxs})

Judge(c, k) == IF k = 0 THEN JudgePrint(c)
               ELSE IF Algs[k] \in DOMAIN c.algs THEN JudgeAlg(c, Algs[k]) ELSE {}

Init == i = 1 /\ a = 0 /\ TLCSet(5, TLCEval(JsonDeserialize(In))) /\ TLCSet(1, {}) /\ TLCSet(2, 0)
Next ==
  /\ i <= Len(Cases)
  /\ (a = 0 => Prepare(Cases[i]))
  /\ TLCSet(1, TLCGet(1) \cup Judge(Cases[i], a))
  /\ TLCSet(2, TLCGet(2) + 1)
  /\ IF a = Len(Algs) THEN i' = i + 1 /\ a' = 0 ELSE i' = i /\ a' = a + 1
Spec == Init /\ [][Next]_vars
Finished == JsonSerialize(Out, [steps |-> TLCGet(2), problems |-> TLCGet(1)])
=============================================================================
