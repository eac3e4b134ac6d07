----------------------------- MODULE GenScenes -----------------------------
(* Scenes: where inputs lie, how they are called, where output goes, and what is  *)
(* there already.  Directories are relative to the scene: w is the working         *)
(* directory, t the system's temporary directory.                                  *)
EXTENDS Rnd, Json
CONSTANTS Seed, Count, Out
Dirs == <<"w", "w/in", "w/in", "w/in/deep", "t", "t", "w/out", "w/o2", "t/sub">>
Outs == <<"w/out", "w/out", "w/out", "w", "w/o2", "w/o2/x/y", "w/in", "t", "t/sub", "t/new/dir", "w/in/deep">>
AstBases == <<"x.json", "x.ast", "x", "x.sol", "x.vy", "x.sol_0.sol", "x.json_0.sol", "x.json_1.vy", "x_json.ast", "x.sol_json.ast", "x.y.json", "x.json.sol", "mutant.sol", "mutant.vy", "a b.json", "x.mgnx.json", "stdout", ".x">>
SrcBases(l) == IF l = "Solidity" THEN <<"x.sol", "x.sol_0.sol", "mutant.sol", "x", "y.sol", "x.json", "x_0.sol">> ELSE <<"x.vy", "x.vy_0.vy", "mutant.vy", "x", "y.vy", "x.vy.json", "x.json">>
Input(s) ==
  LET l == Pick(s, 1, <<"Solidity", "Vyper">>)
      src == Rn(s, 2) % 3 = 0
  IN [lang |-> l, source |-> src, dir |-> Pick(s, 3, Dirs), base |-> IF src THEN Pick(s, 4, SrcBases(l)) ELSE Pick(s, 4, AstBases),
      spell |-> Pick(s, 5, <<"plain", "plain", "dot", "abs", "up", "slashes">>)]
\* things that are there before the run: files of the user, results of earlier runs, links to inputs
Old(s) == Pick(s, 1, <<"keep.txt", "x.json_0.sol", "x.sol_0.sol", "x.vy_0.vy", "x.json_7.sol", "x.mgnx", "x.sol", "mutant.sol", "mutant.vy", "x.json", "x_json.ast", "x.sol_json.ast">>)
Scene(s) ==
  LET n == Pick(s, 1, <<1, 1, 2, 2, 3, 4>>) IN
  [inputs |-> [k \in 1..n |-> Input(Rn(s, 20 + k))], out |-> Pick(s, 2, Outs), spell |-> Pick(s, 3, <<"plain", "plain", "dot", "abs", "up", "slash">>),
   command |-> Pick(s, 4, <<"mutate", "mutate", "mutate", "pretty-print">>),
   stdout |-> Rn(s, 5) % 6 = 0, print |-> Rn(s, 6) % 2 = 0, save |-> Rn(s, 7) % 2 = 0, validate |-> Rn(s, 8) % 2 = 0,
   num |-> Pick(s, 9, <<1, 2, 3, 4>>), seed |-> Pick(s, 10, <<"0", "1", "5", "99">>), noout |-> Rn(s, 13) % 8 = 0,
   config |-> Rn(s, 11) % 4 = 0, verdict |-> Pick(s, 14, <<"accept", "accept", "hash", "reject">>),
   link |-> Rn(s, 15) % 4 = 0, twice |-> Rn(s, 16) % 8 = 0, bad |-> IF Rn(s, 17) % 8 = 0 THEN Pick(s, 18, <<"missing", "dir", "text">>) ELSE "",
   old |-> [k \in 1..Pick(s, 12, <<0, 1, 2, 3>>) |-> [name |-> Old(Rn(s, 40 + k)), dir |-> Pick(s, 50 + k, <<"out", "t", "w">>)]]]
ASSUME JsonSerialize(Out, [j \in 1..Count |-> Scene(Rn(Seed, 13 * j))])
=============================================================================
