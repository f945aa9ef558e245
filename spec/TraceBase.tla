------------------------------- MODULE TraceBase -------------------------------
(***************************************************************************)
(* Trace validation.  The file named by the environment variable TRACE     *)
(* holds one JSON record per call of the library that the driver made, in  *)
(* order.  A behaviour of this module consumes the trace; a call whose     *)
(* recorded outcome is not one the specification allows is reported with   *)
(* Reject (and the walk continues, so that one run reports them all).      *)
(* The instantiating module supplies S0, the initial abstract state, and   *)
(* Step(s, e), which yields [s |-> the abstract state after the call e,    *)
(* bad |-> the names of the clauses of the contract that e violates].      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json, IOUtils, Num, TLC
CONSTANTS S0, Step(_, _)
VARIABLES l, s

Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l = 1 /\ s = S0
TNext == /\ l <= Len(Trace)
         /\ LET r == Step(s, Trace[l])
            IN  /\ s' = r.s
                /\ (r.bad = {} \/ Reject(Trace[l].id, r.bad))
         /\ l' = l + 1
\* every line of the trace was consumed
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
TSpec == TInit /\ [][TNext]_<<l, s>>
================================================================================
