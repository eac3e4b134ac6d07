------------------------------ MODULE SolRuns ------------------------------
(* The conformance machine for recorded runs, for one language.                 *)
EXTENDS SolMutators
CONSTANTS In, Out
VARIABLES i, e, g
INSTANCE Runs WITH Algs <- SolAlgs
=============================================================================
