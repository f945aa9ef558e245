-------------------------------- MODULE PlainTrace --------------------------------
(* Validation of recorded calls against the contract Plain. *)
EXTENDS Plain, TraceBase
================================================================================
