------------------------------ MODULE VyRuns ------------------------------
(* The conformance machine for recorded runs, for one language.                 *)
EXTENDS VyMutators
CONSTANTS In, Out
VARIABLES i, e, g
INSTANCE Runs WITH Algs <- VyAlgs
=============================================================================
