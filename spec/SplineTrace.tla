-------------------------------- MODULE SplineTrace --------------------------------
(* Validation of recorded calls against the contract Spline. *)
EXTENDS Spline, TraceBase
================================================================================
