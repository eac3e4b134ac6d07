----------------------------- MODULE NamesTrace -----------------------------
(* The lists of algorithms the tool shows.  A case: kind ("list" or "describe"),    *)
(* width of the page, entries in order: name, words, operators listed; glued: the   *)
(* text without spaces; reference: that of the widest page.                          *)
EXTENDS Names, Json
CONSTANTS In, Out
Cases == TLCGet(5)
VARIABLES i
vars == <<i>>
Problem(what, info) == [case |-> i, what |-> what, info |-> info]
Bad(c, w) == IF c THEN {w} ELSE {}
Judge(c) ==
  LET E == c.entries
      shown == {E[k].name : k \in 1..Len(E)}
  IN IF c.crash THEN {Problem("P20 listing the algorithms crashed", c.width)}
     ELSE (IF c.glued # c.reference THEN {Problem("P20 the list differs with the width of the page", c.width)} ELSE {})
     \cup (IF c.entries = <<>> /\ c.narrow THEN {} ELSE
        {Problem("P20 an algorithm is not listed", a) : a \in Known \ shown}
        \cup {Problem("P20 something is listed that is no algorithm", a) : a \in shown \ Known}
        \cup (IF Len(E) # Cardinality(shown) THEN {Problem("P20 an algorithm is listed twice", c.kind)} ELSE {})
        \cup {Problem("P20 an algorithm has no description", E[k].name) : k \in {x \in 1..Len(E) : Len(E[x].words) < 3}}
        \cup (IF c.kind = "describe"
              THEN {Problem("P20 the operators described are not those of the algorithm", E[k]) :
                      k \in {x \in 1..Len(E) : {E[x].operators[y] : y \in 1..Len(E[x].operators)} # DocumentedOperators(E[x].name)}}
              ELSE {}))
Init == i = 1 /\ TLCSet(5, TLCEval(JsonDeserialize(In))) /\ TLCSet(1, {}) /\ TLCSet(2, 0)
Next ==
  /\ i <= Len(Cases)
  /\ TLCSet(1, TLCGet(1) \cup Judge(Cases[i]))
  /\ i' = i + 1
  /\ TLCSet(2, TLCGet(2) + 1)
Spec == Init /\ [][Next]_vars
Finished == JsonSerialize(Out, [steps |-> TLCGet(2), problems |-> TLCGet(1)])
=============================================================================
