----------------------------- MODULE BorrowTrace -----------------------------
(* Verdicts of the compiler on the programs of Borrows, and places of the    *)
(* references that running programs held at the same time.                   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT Known

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
B == INSTANCE Borrows WITH MaxLive <- 2, Bug <- "", live <- <<>>, last <- <<>>
Strict == INSTANCE Borrows WITH MaxLive <- 2, Bug <- "", Known <- {}, live <- <<>>, last <- <<>>
Evs == Traces[tid].ev

Pairs(L, c) == {<<L[j].k, L[i].k>> : i, j \in 1..Len(L)} \cup (IF c.t = "give" THEN {<<L[j].k, c.g.k>> : j \in 1..Len(L)} ELSE {})
Note(x) == PrintT("KNOWN " \o x)
(* a compiled program is sound; it may hold what is known to alias *)
Prog(e) ==
    /\ B!Applies(e.L, e.c)
    /\ \/ e.acc = 0
       \/ Strict!Sound(e.L, e.c)
       \/ /\ B!Sound(e.L, e.c)
          /\ \A p \in {p \in Pairs(e.L, e.c) : (p[1] \o "+" \o p[2]) \in Known} : Note(p[1] \o "+" \o p[2])

(* iv: places <<from, to>> of everything held, in the order of their beginnings; equal places of shared references once *)
Apart(iv) == \A i \in 1..Len(iv) - 1 : iv[i][2] <= iv[i + 1][1]
Hold(e) ==
    \/ Apart(e.iv) /\ \A i \in 1..Len(e.iv) : e.iv[i][1] < e.iv[i][2]
    \/ e.twice = 1 /\ "repeated-type" \in Known /\ Note("repeated-type")
    \/ e.twice = 0 /\ e.rep = 1 /\ "repeated-handle" \in Known /\ Note("repeated-handle")

Act(e) ==
    (CASE e.o = "prog" -> Prog(e)
       [] e.o = "forbidden" -> e.n \in B!Forbidden /\ e.acc = 0
       [] e.o = "hold" -> IF e.r = "ok" THEN Hold(e) ELSE e.twice + e.rep > 0     \* a refusal
       [] e.o = "do" -> TRUE
       [] OTHER -> FALSE) = TRUE      \* a crash

TraceInit == tid \in 1..Len(Traces) /\ l = 1
TraceNext ==
    \/ l <= Len(Evs) /\ Act(Evs[l]) /\ l' = l + 1 /\ UNCHANGED tid
    \/ l > Len(Evs) /\ UNCHANGED <<tid, l>>
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l>>
TraceOK == TRUE
Short == [tid |-> tid, l |-> l]
=============================================================================
