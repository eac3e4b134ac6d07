------------------------------- MODULE Places -------------------------------
(* The places of a program where the algorithms apply, what may come out there,  *)
(* and when a recorded mutant is one of these.  The language is a parameter: its *)
(* algorithms, where they apply (Mutable), what they may produce there           *)
(* (Alternatives, HoleOK), the mutant with its comment (Mutant), the tokens of a  *)
(* tree (SToks), and which nodes a function name selects (Named).                *)
EXTENDS Match, Json
CONSTANTS Algs, SToks(_), Memo(_), Mutable(_, _), Alternatives(_, _), Mutant(_, _, _), HoleOK(_, _, _), Named(_, _)

ToSet(s) == {s[k] : k \in 1..Len(s)}
Funcs(c) == ToSet(c.funcs)

\* The nodes of a program in order, each with its path and whether a named function encloses it.
RECURSIVE Walk(_, _, _, _), WalkSeq(_, _, _, _, _, _), WalkRoles(_, _, _, _, _)
Walk(n, p, in, funcs) ==
  LET here == in \/ Named(n, funcs) IN
  <<[p |-> p, n |-> n, in |-> here]>> \o WalkRoles(n, p, here, funcs, DOMAIN n.k)
WalkRoles(n, p, in, funcs, R) ==
  IF R = {} THEN <<>>
  ELSE LET r == CHOOSE x \in R : TRUE IN WalkSeq(n.k[r], 1, r, p, in, funcs) \o WalkRoles(n, p, in, funcs, R \ {r})
WalkSeq(s, j, r, p, in, funcs) ==
  IF j > Len(s) THEN <<>> ELSE Walk(s[j], Append(p, <<r, j>>), in, funcs) \o WalkSeq(s, j + 1, r, p, in, funcs)

\* worked out once per program and kept in TLC's registers
Prepare(c) == TLCSet(3, TLCEval(Memo(c.tree))) /\ TLCSet(4, TLCEval(Walk(TLCGet(3), <<>>, c.funcs = <<>>, Funcs(c))))

\* what may come out at place s (an index into the walk), as a sequence
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
ExpectedAt(alg, tree, s, w) ==
  LET alts == SetSeq(Alternatives(alg, w.n)) IN
  [j \in 1..Len(alts) |->
     LET e == Collapse(SToks(Mutant(tree, w.p, alts[j]))) IN
     [s |-> s, n |-> w.n, label |-> alts[j].label, quotes |-> alts[j].quotes, e |-> e, pl |-> Plain(e), hole |-> Hole1(e) # 0]]
RECURSIVE Join(_, _)
Join(ss, j) == IF j > Len(ss) THEN <<>> ELSE ss[j] \o Join(ss, j + 1)

Fits(alg, x, o) ==
  IF ~x.hole THEN Len(x.pl) = Len(o.plain) /\ x.pl = o.plain
  ELSE LET v == FillOf(x.pl, o.plain) IN v # "" /\ HoleOK(alg, x.n, v)
CommentFits(x, o) == IF ~x.hole THEN x.e = o.toks ELSE FillOf(x.e, o.toks) # ""
QuotesFit(x, o, alg) ==
  (~\E k \in 1..Len(x.e) : x.e[k] = "@")
  \/ \E k \in 1..Len(o.comments) :
        /\ \E m \in 1..(Len(o.comments[k]) - 1) : o.comments[k][m] = alg /\ o.comments[k][m + 1] = "Mutator"
        /\ \A q \in 1..Len(x.quotes) : Contains(o.comments[k], CommentForm(x.quotes[q]))

\* for reports: the expectation that agrees longest with what was seen
Nearest(E, o) == IF E = <<>> THEN <<>>
                 ELSE E[CHOOSE x \in 1..Len(E) : \A y \in 1..Len(E) : FirstDiff(E[y].pl, o) <= FirstDiff(E[x].pl, o)].pl
=============================================================================
