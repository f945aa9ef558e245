-------------------------------- MODULE MatTrace --------------------------------
(* Validation of recorded calls against the contract Mat. *)
EXTENDS Mat, TraceBase
================================================================================
