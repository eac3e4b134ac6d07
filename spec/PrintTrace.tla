----------------------------- MODULE PrintTrace -----------------------------
(* What the tool did with a list of files, against Printing.  A case: job; alone:   *)
(* for each file its text when printed alone and the name of that file, if it was;  *)
(* beside: its text as the original printed along with mutants, if it was; disk:     *)
(* files and texts there are now; shown: texts and messages on standard output.      *)
EXTENDS Printing, Json
CONSTANTS In, Out
Cases == TLCGet(5)
VARIABLES i
vars == <<i>>
Problem(what, info) == [case |-> i, what |-> what, info |-> info]
Bad(c, w) == IF c THEN {w} ELSE {}
Idx(c, path) == CHOOSE k \in 1..Len(c.job.files) : Path(c.job.files[k]) = path
TextOf(c, path) == c.alone[Idx(c, path)].text
\* texts that follow each other are one text
RECURSIVE Glue(_, _)
Glue(c, q) ==
  IF q = <<>> THEN <<>>
  ELSE LET r == Glue(c, Tail(q)) IN
       IF q[1].kind = "error" THEN <<[kind |-> "error", text |-> Base(c.job.files[Idx(c, q[1].of)])]>> \o r
       ELSE LET t == TextOf(c, q[1].of) IN
            IF t = "" THEN r
            ELSE IF r # <<>> /\ r[1].kind = "text" THEN <<[kind |-> "text", text |-> t \o r[1].text]>> \o Tail(r)
            ELSE <<[kind |-> "text", text |-> t]>> \o r
Judge(c) ==
  LET j == c.job
      o == Outcome(j)
      ks == 1..Len(j.files)
      wantDisk == {[to |-> d.to, text |-> TextOf(c, d.of)] : d \in o.disk}
      gotDisk == {c.disk[x] : x \in 1..Len(c.disk)}
  IN IF c.crash THEN {Problem("P23 printing crashed", "")}
     ELSE UNION {
      {Problem("P23 a file given alone is not treated as it should be", [file |-> Path(j.files[k]), seen |-> c.alone[k].ok]) :
          k \in {x \in ks : c.alone[x].ok # (Program(j.files[x], j.env) # "")}},
      {Problem("P23 a file printed alone has another name", [file |-> Path(j.files[k]), seen |-> c.alone[k].name]) :
          k \in {x \in ks : c.alone[x].ok /\ Program(j.files[x], j.env) # "" /\ c.alone[x].name # OutName(j.files[x], j.env)}},
      {Problem("P23 the original beside mutants is not the printed file", [file |-> Path(j.files[k]), alone |-> c.alone[k].text, seen |-> c.beside[k].text]) :
          k \in {x \in ks : c.alone[x].ok /\ c.beside[x].ok /\ c.beside[x].text # c.alone[x].text}},
      {Problem("P23 there is no original beside the mutants of a file", [file |-> Path(j.files[k])]) :
          k \in {x \in ks : c.alone[x].ok /\ c.beside[x].tried /\ Mutatable(j.files[x], j.env) /\ ~c.beside[x].ok}},
      {Problem("P23 a printed file is missing or has another text than printed alone", d) : d \in wantDisk \ gotDisk},
      {Problem("P23 there is a file that should not have been printed", d) : d \in gotDisk \ wantDisk},
      IF Glue(c, o.shown) # c.shown THEN {Problem("P23 standard output is not what the files give in their order", [want |-> Glue(c, o.shown), got |-> c.shown])} ELSE {}}
Init == i = 1 /\ TLCSet(5, TLCEval(JsonDeserialize(In))) /\ TLCSet(1, {}) /\ TLCSet(2, 0)
Next ==
  /\ i <= Len(Cases)
  /\ TLCSet(1, TLCGet(1) \cup Judge(Cases[i]))
  /\ i' = i + 1
  /\ TLCSet(2, TLCGet(2) + 1)
Spec == Init /\ [][Next]_vars
Finished == JsonSerialize(Out, [steps |-> TLCGet(2), problems |-> TLCGet(1)])
=============================================================================
