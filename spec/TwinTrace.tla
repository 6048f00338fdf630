----------------------------- MODULE TwinTrace -----------------------------
(* Two real stores given the same calls, in one process but in different     *)
(* places of memory: the first is a behaviour of Store, and the second gives *)
(* the same answers, event by event (handles, values, order of the items).   *)
EXTENDS StoreTrace

Twin == Traces[tid].twin
SameAnswer == IF l <= Len(Evs) THEN l <= Len(Twin) /\ Is(Twin[l] = Ev) ELSE Len(Twin) = Len(Evs)
TwinSpec == TraceInit /\ [][TraceNext /\ SameAnswer]_traceVars
=============================================================================
