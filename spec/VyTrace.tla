------------------------------- MODULE VyTrace -------------------------------
(* The conformance machine for Vyper.                                           *)
EXTENDS VyMutators
CONSTANTS In, Out
VARIABLES i, a
INSTANCE Trace WITH Algs <- VyAlgs
=============================================================================
