------------------------------ MODULE ArchTrace ------------------------------
(* Archetypes as sets of component types: recorded constructions and answers.*)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils, Rows

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES reg,     \* archetypes built so far, as sets
          b,       \* the builder's set
          hashes,  \* hash seen for a set
          tid, l
traceVars == <<reg, b, hashes, tid, l>>

Evs == Traces[tid].ev
Ev == Evs[l]

TraceInit == reg = <<>> /\ b = {} /\ hashes = {} /\ tid \in 1..Len(Traces) /\ l = 1
B(x) == IF x THEN 1 ELSE 0

NewReg(S) == reg' = Append(reg, S) /\ UNCHANGED <<b, hashes>>
Builder(S) == b' = S /\ UNCHANGED <<reg, hashes>>
Nothing == UNCHANGED <<reg, b, hashes>>

Show(e) ==
    LET S == reg[e.x] IN
    /\ e.r = "ok"
    /\ ToSet(e.ids) = S /\ Len(e.ids) = Cardinality(S) /\ e.cnt = Cardinality(S)
    /\ Len(e.comps) = Cardinality(S)
    /\ {e.comps[i][1] : i \in DOMAIN e.comps} = S
    /\ (\A i \in DOMAIN e.comps : LET k == e.comps[i] IN k[2] = Size[k[1]] /\ k[3] = Align[k[1]] /\ k[4] = k[1]) = TRUE
    /\ ToSet(e.posok) = S
    \* its text names these types
    /\ ToSet(e.shown) = S
    /\ ToSet(e.has) = S \cap ToSet(Traces[tid].singles)
    \* equal sets hash equally
    /\ (\A h \in hashes : h[1] = S => h[2] = e.hash) = TRUE
    /\ hashes' = hashes \cup {<<S, e.hash>>}
    /\ UNCHANGED <<reg, b>>

Cmp(e) ==
    LET X == reg[e.x] Y == reg[e.y] IN
    /\ e.r = "ok"
    /\ e.v = <<B(X = Y), B(Y \subseteq X), B(X \cap Y = {}), B(X = Y)>>
    /\ Nothing
Ids(e) ==
    LET X == reg[e.x] Y == ToSet(e.s) IN
    /\ e.r = "ok"
    /\ e.v = <<B(Y \subseteq X), B(X = Y), B(X \cap Y = {})>>
    /\ Nothing

(* an allocation was refused during this event: the call does not come back, *)
(* or ends in a panic (then it is the last one)                              *)
Refused == l > 1 /\ Evs[l - 1].o = "refused"
NoMemory(e) == e.o = "nomem" \/ ("r" \in DOMAIN e /\ e.r = "panic")

Act(e) ==
    CASE Refused -> (NoMemory(e) = TRUE) /\ Nothing
      [] e.o = "refused" -> Nothing
      [] e.o = "anew" -> Nothing
      [] e.o = "with" -> e.r = "ok" /\ NewReg(ToSet(e.s))
      [] e.o = "clone" -> e.r = "ok" /\ NewReg(reg[e.x])
      [] e.o = "bnew" -> e.r = "ok" /\ Builder({})
      [] e.o = "binc" -> e.r = "ok" /\ Builder(b \cup ToSet(e.s))
      [] e.o = "bexc" -> e.r = "ok" /\ Builder(b \ ToSet(e.s))
      [] e.o = "barc" -> e.r = "ok" /\ Builder(b \cup reg[e.x])
      [] e.o = "build" -> IF b = {} THEN e.r = "panic" /\ Nothing ELSE e.r = "ok" /\ NewReg(b)
      [] e.o = "show" -> Show(e)
      [] e.o = "cmp" -> Cmp(e)
      [] e.o = "ids" -> Ids(e)
      \* a list written with one of the macros, in a crate of its user
      [] e.o = "list" -> e.r = "ok" /\ e.v = e.s /\ Nothing
      [] e.o = "aend" -> e.r = "ok" /\ e.stray = 0 /\ Nothing
      [] OTHER -> FALSE

TraceNext ==
    \/ l <= Len(Evs) /\ Act(Ev) /\ l' = l + 1 /\ UNCHANGED tid
    \/ l > Len(Evs) /\ UNCHANGED traceVars
TraceSpec == TraceInit /\ [][TraceNext]_traceVars
TraceOK == \A i \in DOMAIN reg : reg[i] # {} /\ reg[i] \subseteq DOMAIN Size
Short == [tid |-> tid, l |-> l]
=============================================================================
