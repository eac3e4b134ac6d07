------------------------------- MODULE Layout ------------------------------
(* The printer's layout.  Accepts says which texts are a correct layout of a      *)
(* sequence of operations for a page and tab width: it reads the text from left   *)
(* to right, operation by operation.  Printed is one printer that lays out text      *)
(* line by line; LayoutMC checks that it is always accepted.                       *)
(*   o.op: token s | string s | triple s | tokens s n | space | spaces n           *)
(*         | newline | indent | flow s next | inc | dec | incby n | decby n         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
At(s, p, x) == p + Len(x) - 1 <= Len(s) /\ SubSeq(s, p, p + Len(x) - 1) = x
RECURSIVE Blanks(_)
Blanks(n) == IF n = 0 THEN "" ELSE " " \o Blanks(n - 1)
\* n-fold repetition of an operation
RECURSIVE Times(_, _)
Times(o, n) == IF n = 0 THEN <<>> ELSE <<o>> \o Times(o, n - 1)
Simple(o) ==
  CASE o.op = "tokens" -> Times([o EXCEPT !.op = "token"], o.n)
    [] o.op = "spaces" -> Times([o EXCEPT !.op = "space"], o.n)
    [] o.op = "string" -> << [o EXCEPT !.op = "token", !.s = "\"" \o o.s \o "\""] >>
    [] o.op = "triple" -> << [o EXCEPT !.op = "token", !.s = "\"\"\"" \o o.s \o "\"\"\""] >>
    [] OTHER -> <<o>>
RECURSIVE Simplify(_, _)
Simplify(os, k) == IF k > Len(os) THEN <<>> ELSE Simple(os[k]) \o Simplify(os, k + 1)

\* the words of a flowing text and whether it begins with white space
White(ch) == ch = " " \/ ch = "\n"
RECURSIVE Words(_, _, _)
Words(s, p, w) ==
  IF p > Len(s) THEN (IF w = "" THEN <<>> ELSE <<w>>)
  ELSE LET ch == SubSeq(s, p, p) IN
       IF White(ch) THEN (IF w = "" THEN <<>> ELSE <<w>>) \o Words(s, p + 1, "") ELSE Words(s, p + 1, w \o ch)

MaxIndent(page, tab) == LET m == (page \div tab) - 1 IN IF m < 0 THEN 0 ELSE m
NewIndent(o, ind, max) ==
  CASE o.op = "inc" -> IF ind >= max THEN max ELSE ind + 1
    [] o.op = "dec" -> IF ind = 0 THEN 0 ELSE ind - 1
    [] o.op = "incby" -> IF ind + o.n <= max THEN ind + o.n ELSE max
    [] o.op = "decby" -> IF o.n > ind THEN 0 ELSE ind - o.n
    [] OTHER -> ind

---------------------------------------------------------------------------
\* Reading: the set of all positions in the text where the operations so far can end
RECURSIVE Back(_, _)
Back(t, p) == IF p = 1 THEN 0 ELSE IF SubSeq(t, p - 1, p - 1) = "\n" THEN 0 ELSE 1 + Back(t, p - 1)
Col(t, p) == 1 + Back(t, p)
\* one or more new lines, each with the indentation in force
RECURSIVE Break(_, _, _)
Break(t, p, il) ==
  LET x == "\n" \o Blanks(il) IN
  IF ~At(t, p, x) THEN {} ELSE {p + Len(x)} \cup Break(t, p + Len(x), il)
Put(t, p, x) == IF At(t, p, x) THEN {p + Len(x)} ELSE {}
PutAll(t, S, x) == UNION {Put(t, p, x) : p \in S}
\* exact: the widths of the text are known exactly (no characters of several bytes)
\* a token moves to a new line only if it does not fit, and it does so if it then fits
ReadToken(t, p, s, il, page, exact) ==
  IF s = "" THEN {p} \cup (IF exact /\ Col(t, p) <= page THEN {} ELSE Break(t, p, il))
  ELSE LET fits == Col(t, p) + Len(s) <= page
       IN (IF ~exact \/ fits \/ il + 1 + Len(s) > page THEN Put(t, p, s) ELSE {})
          \cup (IF exact /\ fits THEN {} ELSE PutAll(t, Break(t, p, il), s))
ReadSpace(t, p, il, page, exact) ==
  Put(t, p, " ") \cup (IF exact /\ Col(t, p) < page THEN {} ELSE PutAll(t, Break(t, p, il), " "))
\* the k-th word of a flowing text; lead: the text begins with white space, which may go
ReadWord(t, p, w, gap, il, mark, page, exact) ==
  LET fits == Col(t, p) + Len(gap) + Len(w) <= page
      room == Col(t, p) > il + Len(mark) + 1            \* a new line offers more space
  IN (IF exact /\ ~fits /\ room THEN {} ELSE Put(t, p, gap \o w))
     \cup (IF exact /\ fits THEN {} ELSE PutAll(t, PutAll(t, Break(t, p, il), mark), w))
RECURSIVE ReadWords(_, _, _, _, _, _, _, _, _)
ReadWords(t, S, ws, k, lead, il, mark, page, exact) ==
  IF k > Len(ws) THEN S
  ELSE ReadWords(t, UNION {IF k > 1 THEN ReadWord(t, p, ws[k], " ", il, mark, page, exact)
                           ELSE ReadWord(t, p, ws[k], "", il, mark, page, exact) \cup (IF lead THEN ReadWord(t, p, ws[k], " ", il, mark, page, exact) ELSE {}) : p \in S},
                 ws, k + 1, lead, il, mark, page, exact)
\* white space at both ends of a flowing text may stay or go
ReadFlow(t, p, o, il, page, exact) ==
  LET n == Len(o.s)
      lead == n > 0 /\ White(SubSeq(o.s, 1, 1))
      tail == n > 0 /\ White(SubSeq(o.s, n, n))
      S == ReadWords(t, {p}, Words(o.s, 1, ""), 1, lead, il, o.next, page, exact)
  IN S \cup (IF tail THEN PutAll(t, S, " ") ELSE {})
ReadOp(t, p, o, il, page, exact) ==
  CASE o.op = "token" -> ReadToken(t, p, o.s, il, page, exact)
    [] o.op = "space" -> ReadSpace(t, p, il, page, exact)
    [] o.op = "newline" -> Put(t, p, "\n")
    [] o.op = "indent" -> Put(t, p, Blanks(il))
    [] o.op = "flow" -> ReadFlow(t, p, o, il, page, exact)
    [] OTHER -> {p}
RECURSIVE Read(_, _, _, _, _, _, _, _)
Read(t, S, os, k, ind, page, tab, exact) ==
  IF k > Len(os) THEN (IF Len(t) + 1 \in S THEN "" ELSE "there is text that nobody wrote")
  ELSE LET n == UNION {ReadOp(t, p, os[k], ind * tab, page, exact) : p \in S}
       IN IF n = {} THEN "a " \o os[k].op \o " is lost, broken or in the wrong place (operation " \o ToString(k) \o ")"
          ELSE Read(t, n, os, k + 1, NewIndent(os[k], ind, MaxIndent(page, tab)), page, tab, exact)
\* "" or the reason why the text is no correct layout
Reason(t, ops, page, tab, exact) == Read(t, {1}, Simplify(ops, 1), 1, 0, page, tab, exact)
Accepts(t, ops, page, tab, exact) == Reason(t, ops, page, tab, exact) = ""

---------------------------------------------------------------------------
\* Writing: a printer that fills lines
W(st, x) == [st EXCEPT !.t = @ \o x, !.col = @ + Len(x)]
NL(st, il) == [t |-> st.t \o "\n" \o Blanks(il), col |-> il + 1]
RECURSIVE PrintWords(_, _, _, _, _, _)
PrintWords(st, ws, k, il, mark, page) ==
  IF k > Len(ws) THEN st
  ELSE LET x == (IF k > 1 THEN " " ELSE "") \o ws[k] IN
       IF st.col + Len(x) <= page \/ st.col <= il + Len(mark) + 1 THEN PrintWords(W(st, x), ws, k + 1, il, mark, page)
       ELSE PrintWords(W(W(NL(st, il), mark), ws[k]), ws, k + 1, il, mark, page)
PrintOp(st, o, il, page) ==
  CASE o.op = "token" -> IF o.s = "" \/ st.col + Len(o.s) <= page THEN W(st, o.s) ELSE W(NL(st, il), o.s)
    [] o.op = "space" -> IF st.col = page THEN W(NL(st, il), " ") ELSE W(st, " ")
    [] o.op = "newline" -> [t |-> st.t \o "\n", col |-> 1]
    [] o.op = "indent" -> W(st, Blanks(il))
    [] o.op = "flow" -> PrintWords(st, Words(o.s, 1, ""), 1, il, o.next, page)
    [] OTHER -> st
RECURSIVE PrintFrom(_, _, _, _, _, _)
PrintFrom(st, os, k, ind, page, tab) ==
  IF k > Len(os) THEN st
  ELSE PrintFrom(PrintOp(st, os[k], ind * tab, page), os, k + 1, NewIndent(os[k], ind, MaxIndent(page, tab)), page, tab)
Printed(ops, page, tab) == PrintFrom([t |-> "", col |-> 1], Simplify(ops, 1), 1, 0, page, tab).t
=============================================================================
