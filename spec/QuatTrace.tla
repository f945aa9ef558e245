-------------------------------- MODULE QuatTrace --------------------------------
(* Validation of recorded calls against the contract Quat. *)
EXTENDS Quat, TraceBase
================================================================================
