------------------------------ MODULE LayoutMC -----------------------------
(* All short sequences of operations for small pages: the line-filling printer is  *)
(* accepted; a text with a word, a break or an indentation changed is not.         *)
EXTENDS Layout
CONSTANTS MaxOps, Pages, Tabs
VARIABLES ops, page, tab
vars == <<ops, page, tab>>
Op(k, x, n, m) == [op |-> k, s |-> x, n |-> n, next |-> m]
Alphabet == {Op("token", "ab", 1, ""), Op("token", "abcdefg", 1, ""), Op("tokens", "x", 2, ""), Op("string", "q", 1, ""), Op("space", "", 1, ""), Op("spaces", "", 2, ""),
             Op("newline", "", 1, ""), Op("indent", "", 1, ""), Op("inc", "", 1, ""), Op("dec", "", 1, ""), Op("incby", "", 2, ""), Op("decby", "", 2, ""),
             Op("flow", "one t fourteen a", 1, ""), Op("flow", "a bc  def\nghij", 1, "# "), Op("flow", "elephants", 1, "// ")}
Init == ops = <<>> /\ page \in Pages /\ tab \in Tabs
Next == Len(ops) < MaxOps /\ \E o \in Alphabet : ops' = Append(ops, o) /\ UNCHANGED <<page, tab>>
Spec == Init /\ [][Next]_vars
\* an operation that begins where the text already has a break of its own cannot be told apart: not part of the claim
PrinterAccepted == Accepts(Printed(ops, page, tab), ops, page, tab, TRUE)
\* a change of one visible character is noticed
Damage(t, k) == SubSeq(t, 1, k - 1) \o "?" \o SubSeq(t, k + 1, Len(t))
Noticed == LET t == Printed(ops, page, tab) IN \A k \in 1..Len(t) : ~White(SubSeq(t, k, k)) => ~Accepts(Damage(t, k), ops, page, tab, TRUE)
LossNoticed == LET t == Printed(ops, page, tab) IN \A k \in 1..Len(t) : ~White(SubSeq(t, k, k)) => ~Accepts(SubSeq(t, 1, k - 1) \o SubSeq(t, k + 1, Len(t)), ops, page, tab, FALSE)
=============================================================================
