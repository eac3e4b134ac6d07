-------------------------------- MODULE Match --------------------------------
(* Comparing token sequences.  "@" stands for a comment added by the tool and   *)
(* a hole for a number left open by the specification: "?int" an integer, "?nat" *)
(* and "?neg" one that is not or is negative, "?dec" a decimal number.           *)
EXTENDS Tree

RECURSIVE CollapseFrom(_, _)
CollapseFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = "@" /\ i < Len(s) /\ s[i + 1] = "@" THEN CollapseFrom(s, i + 1)
  ELSE <<s[i]>> \o CollapseFrom(s, i + 1)
HasPair(s) == \E i \in 1..(Len(s) - 1) : s[i] = "@" /\ s[i + 1] = "@"
Collapse(s) == IF HasPair(s) THEN CollapseFrom(s, 1) ELSE s
Plain(s) == SelectSeq(s, LAMBDA x : x # "@")

Holes == {"?int", "?nat", "?neg", "?dec"}
Hole1(e) == IF \E i \in 1..Len(e) : e[i] \in Holes THEN CHOOSE i \in 1..Len(e) : e[i] \in Holes ELSE 0
\* a decimal number with one digit after the point
IsDec(s) == Len(s) > 2 /\ IsNat(SubSeq(s, 1, Len(s) - 2)) /\ Ch(s, Len(s) - 1) = "." /\ IsDigit(Ch(s, Len(s)))
Fills(h, s) == IF h = "?dec" THEN IsDec(s) ELSE IsNat(s)
\* the number that fills the hole, "" when the sequences do not agree around it
FillOf(e, o) ==
  LET i == Hole1(e)
      d == Len(o) - Len(e)
  IN IF d \notin (CASE e[i] = "?nat" -> {0} [] e[i] = "?neg" -> {1} [] OTHER -> {0, 1}) \/ Len(o) < i + d THEN ""
     ELSE IF SubSeq(o, 1, i - 1) # SubSeq(e, 1, i - 1) \/ SubSeq(o, i + d + 1, Len(o)) # SubSeq(e, i + 1, Len(e)) THEN ""
     ELSE IF d = 0 THEN (IF Fills(e[i], o[i]) THEN o[i] ELSE "")
     ELSE IF o[i] = "-" /\ Fills(e[i], o[i + 1]) THEN "-" \o o[i + 1] ELSE ""

\* s contains t as a contiguous part
Contains(s, t) == \E i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t
\* inside comments string literals are compared by kind only, and line structure is lost
BlindKinds == {"str:", "ustr:", "hex:", "doc:", "bytes:"}
Blind(x) == IF \E b \in BlindKinds : StartsWith(x, b) THEN CHOOSE b \in BlindKinds : StartsWith(x, b) ELSE x
Layout == {"<NL>", "<IN>", "<DE>"}
CommentForm(s) == LET t == SelectSeq(s, LAMBDA x : x \notin Layout) IN [i \in 1..Len(t) |-> Blind(t[i])]
FirstDiff(e, o) ==
  LET D == {i \in 1..Len(e) : i > Len(o) \/ e[i] # o[i]} IN
  IF D = {} THEN Len(e) + 1 ELSE CHOOSE i \in D : \A k \in D : i <= k
=============================================================================
