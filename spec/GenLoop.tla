-------------------------------- MODULE GenLoop --------------------------------
(***************************************************************************)
(* Generation of calls: Count steps, each emitting one line for the driver *)
(* with the operation taken round-robin from Ops.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Num
CONSTANTS Ops, Count, Case(_)
VARIABLE g
GenInit == g = 0
GenNext == g < Count /\ Emit(Case(Ops[(g % Len(Ops)) + 1])) /\ g' = g + 1
GenSpec == GenInit /\ [][GenNext]_g
================================================================================
