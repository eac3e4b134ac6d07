------------------------------ MODULE NamesMC ------------------------------
(* A request taken up name by name; all short requests over some names.            *)
EXTENDS Names
CONSTANT Max
VARIABLES lang, names, all, k, have
vars == <<lang, names, all, k, have>>
Some == {"Integer", "SwapLines", "Require", "ElimDelegateCall", "integer", "", "IntegerX"}
Init == /\ lang \in {"Solidity", "Vyper"} /\ all \in BOOLEAN /\ names \in UNION {[1..n -> Some] : n \in 0..Max}
        /\ k = 1 /\ have = IF all THEN NamesFor(lang) ELSE {}
Next == /\ k <= Len(names) /\ k' = k + 1 /\ UNCHANGED <<lang, names, all>>
        /\ have' = IF ~all /\ names[k] \in NamesFor(lang) THEN have \cup {names[k]} ELSE have
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == k > Len(names)
Whole == Done => have = Selects(all, names, lang)
\* names that do not exist or do not apply make no difference, neither do order and repetition
Unaffected == Done => have = Selects(all, SelectSeq(names, LAMBDA x : x \in NamesFor(lang)), lang)
Order == Done => \A p \in 1..Len(names) : Selects(all, <<names[p]>> \o names, lang) = have
AllMeansAll == Done /\ all => have = NamesFor(lang)
Only == have \subseteq NamesFor(lang) /\ (~all => have \subseteq {names[x] : x \in 1..Len(names)})
Ends == <>Done
=============================================================================
