-------------------------------- MODULE LinEqTrace --------------------------------
(* Validation of recorded calls against the contract LinEq. *)
EXTENDS LinEq, TraceBase
================================================================================
