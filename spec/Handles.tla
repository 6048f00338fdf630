------------------------------ MODULE Handles ------------------------------
(* Abstract handle issue: what create/destroy promise about ids and versions.*)
(* Nothing is said about which free id is taken next.                        *)
EXTENDS Integers, FiniteSets, Sequences, SequencesExt, FiniteSetsExt, TLC

VARIABLES live,       \* ids in use
          last,       \* last[id + 1]: last version issued for id, Never for ids never used
          peak        \* largest number of simultaneously living entities so far

handleVars == <<live, last, peak>>

HandlesInit == live = {} /\ last = <<>> /\ peak = 0

Max2(a, b) == IF a > b THEN a ELSE b
MaxId == 9999999            \* larger ids are outside the histories considered
(* versions are 32-bit numbers, counted from -2^31: the integers of TLC have a sign *)
Never == -2147483647 - 1
LastIn(la, i) == IF i < Len(la) THEN la[i + 1] ELSE Never
LastOf(i) == LastIn(last, i)
(* la with ver(i) for the ids of the set S, whose maximum is top *)
With(la, S, top, ver(_)) ==
    [k \in 1..Max2(Len(la), top + 1) |-> IF (k - 1) \in S THEN ver(k - 1) ELSE LastIn(la, k - 1)]

Issue(id, ver) ==
    /\ id \in 0..MaxId
    /\ id \notin live
    /\ ver > LastOf(id)
    /\ live' = live \cup {id}
    /\ last' = With(last, {id}, id, LAMBDA i : ver)
    /\ peak' = Max2(peak, Cardinality(live'))

(* only the handle issued last for an id can be destroyed, and only once *)
CanRetire(id, ver) == id \in live /\ LastOf(id) = ver
Retire(id, ver) ==
    /\ CanRetire(id, ver)
    /\ live' = live \ {id}
    /\ UNCHANGED <<last, peak>>

HandlesOK == (\A i \in live : LastOf(i) > Never) /\ Cardinality(live) <= peak
=============================================================================
