---------------------------- MODULE LayoutTrace ----------------------------
(* Texts the printer produced for sequences of operations, against Layout.        *)
EXTENDS Layout, Json
CONSTANTS In, Out
Cases == TLCGet(5)
VARIABLES i
vars == <<i>>
Init == i = 1 /\ TLCSet(5, TLCEval(JsonDeserialize(In))) /\ TLCSet(1, {}) /\ TLCSet(2, 0)
Next ==
  /\ i <= Len(Cases)
  /\ LET c == Cases[i]
         r == Reason(c.text, c.ops, c.page, c.tab, c.exact)
     IN TLCSet(1, TLCGet(1) \cup (IF r = "" THEN {} ELSE {[case |-> i, what |-> "P16 " \o r, info |-> [text |-> c.text, expected |-> Printed(c.ops, c.page, c.tab)]]}))
        /\ TLCSet(2, TLCGet(2) + Len(c.ops))
  /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Finished == JsonSerialize(Out, [steps |-> TLCGet(2), problems |-> TLCGet(1)])
=============================================================================
