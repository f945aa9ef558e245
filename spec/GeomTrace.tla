-------------------------------- MODULE GeomTrace --------------------------------
(* Validation of recorded calls against the contract Geom. *)
EXTENDS Geom, TraceBase
================================================================================
