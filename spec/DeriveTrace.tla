----------------------------- MODULE DeriveTrace -----------------------------
(* Verdicts of the compiler on the definitions of Derive.                    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT Known

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
D == INSTANCE Derive WITH MaxFields <- 3, FieldTypes <- {}, Bug <- "", d <- <<>>, pc <- "", accepted <- FALSE
Evs == Traces[tid].ev

Act(e) ==
    (/\ e.o = "derive" /\ D!WellFormed(e.d)
     /\ \/ e.acc = (IF D!Accepts(e.d) THEN 1 ELSE 0)
        \/ e.acc = 0 /\ D!Refused(e.d) /\ PrintT("KNOWN generic")) = TRUE

TraceInit == tid \in 1..Len(Traces) /\ l = 1
TraceNext ==
    \/ l <= Len(Evs) /\ Act(Evs[l]) /\ l' = l + 1 /\ UNCHANGED tid
    \/ l > Len(Evs) /\ UNCHANGED <<tid, l>>
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l>>
TraceOK == TRUE
Short == [tid |-> tid, l |-> l]
=============================================================================
