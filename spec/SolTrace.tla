------------------------------ MODULE SolTrace ------------------------------
(* The conformance machine for Solidity.                                        *)
EXTENDS SolMutators
CONSTANTS In, Out
VARIABLES i, a
INSTANCE Trace WITH Algs <- SolAlgs
=============================================================================
