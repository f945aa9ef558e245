-------------------------------- MODULE BoxTrace --------------------------------
(* Validation of recorded calls against the contract Box. *)
EXTENDS Box, TraceBase
================================================================================
