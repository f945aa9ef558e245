-------------------------------- MODULE VecTrace --------------------------------
(* Validation of recorded calls against the contract Vec. *)
EXTENDS Vec, TraceBase
================================================================================
