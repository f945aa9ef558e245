-------------------------------- MODULE ScalTrace --------------------------------
(* Validation of recorded calls against the contract Scal. *)
EXTENDS Scal, TraceBase
================================================================================
