-------------------------------- MODULE FrustumTrace --------------------------------
(* Validation of recorded calls against the contract Frustum. *)
EXTENDS Frustum, TraceBase
================================================================================
