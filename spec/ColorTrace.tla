-------------------------------- MODULE ColorTrace --------------------------------
(* Validation of recorded calls against the contract Color. *)
EXTENDS Color, TraceBase
================================================================================
