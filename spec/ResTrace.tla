------------------------------ MODULE ResTrace ------------------------------
(* Recorded executions of a real ResourceStore against Resources. Values are *)
(* stamps; "dr" lists the stamps of the values dropped during the call.      *)
EXTENDS Resources, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils

CONSTANTS CheckValues,    \* C16: values and drops
          CheckHandles,   \* C17: fresh handles, stale use refused
          CheckMemory     \* C19: memory returned

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l,
          ids,            \* token -> <<id, version>>
          newest          \* id -> last version issued
traceVars == <<m, held, value, open, tid, l, ids, newest>>

Evs == Traces[tid].ev
Ev == Evs[l]
Zst == Traces[tid].kind = "zst"
Pod == Traces[tid].kind = "pod"          \* no destructor: drops are not visible

TraceInit == ResInit /\ tid \in 1..Len(Traces) /\ l = 1 /\ ids = <<>> /\ newest = <<>>
Nothing == UNCHANGED resVars

Sorted(s) == SortSeq(s, LAMBDA x, y : x < y)     \* the drops of a call are recorded in this order
V(v) == IF Zst THEN 0 ELSE v
(* the values dropped during the call are exactly those of the sequence s *)
Dropped(e, s) ==
    CheckValues => IF Pod THEN e.dr = <<>> ELSE e.dr = Sorted([i \in DOMAIN s |-> V(s[i])])
Same(a, b) == CheckValues => a = b

TPut(e) ==
    /\ e.r = "ok"
    /\ CheckHandles =>
         /\ (\A t \in held : ids[t][1] # e.id) = TRUE
         /\ e.id \in DOMAIN newest => newest[e.id] < e.ver
    /\ ids' = Append(ids, <<e.id, e.ver>>)
    /\ newest' = (e.id :> e.ver) @@ newest
    /\ Dropped(e, <<>>)
    /\ Put(V(e.v))

(* many times create and release at once; handles as runs (see HandlesTrace) *)
RunIds(r) == IF r[4] = 0 THEN {r[1]} ELSE {r[1] + r[4] * j : j \in 0..(r[3] - 1)}
VerIn(r, i) == r[2] + r[5] * (IF r[4] = 0 THEN 0 ELSE (i - r[1]) \div r[4])
Top(r, i) == IF r[4] = 0 THEN r[2] + r[5] * (r[3] - 1) ELSE VerIn(r, i)
RunOK(r, la) == LET lo(i) == IF i \in DOMAIN la THEN la[i] ELSE -2147483647 - 1
                IN /\ \A i \in RunIds(r) : i \notin {ids[t][1] : t \in held} /\ VerIn(r, i) > lo(i)
                   /\ r[4] = 0 => r[3] = 1 \/ r[5] > 0
RECURSIVE ChurnOK(_, _, _)
ChurnOK(hs, k, la) ==
    IF k > Len(hs) THEN [ok |-> TRUE, la |-> la]
    ELSE LET r == hs[k] is == RunIds(r)
         IN IF RunOK(r, la)
            THEN ChurnOK(hs, k + 1, [i \in is |-> Top(r, i)] @@ la)
            ELSE [ok |-> FALSE, la |-> la]
TChurn(e) ==
    /\ UNCHANGED ids
    /\ Nothing
    /\ e.r = "ok"
    /\ CheckValues => e.okv = e.k /\ e.drn = IF Pod THEN 0 ELSE e.k
    /\ IF CheckHandles THEN LET c == ChurnOK(e.hs, 1, newest) IN c.ok /\ newest' = c.la
       ELSE UNCHANGED newest

(* many calls in one event: creations, reads and releases of the tokens lo, lo+st, .., hi *)
RunSeq(r) == [j \in 1..r[3] |-> <<r[1] + (j - 1) * r[4], r[2] + (j - 1) * r[5]>>]
TPutMany(e) ==
    LET new == FlattenSeq([i \in DOMAIN e.hs |-> RunSeq(e.hs[i])])
        is == {new[j][1] : j \in DOMAIN new}
    IN  /\ e.r = "ok"
        /\ Len(new) = e.k
        /\ CheckHandles =>
              /\ Cardinality(is) = e.k
              /\ (is \cap {ids[t][1] : t \in held} = {}) = TRUE
              /\ (\A j \in DOMAIN new : new[j][1] \in DOMAIN newest => newest[new[j][1]] < new[j][2]) = TRUE
        /\ ids' = ids \o new
        /\ newest' = IF CheckHandles
                      THEN FoldLeft(LAMBDA f, r : [i \in RunIds(r) |-> Top(r, i)] @@ f, newest, e.hs)
                      ELSE newest
        /\ Dropped(e, <<>>)
        /\ PutMany([j \in 1..e.k |-> V(e.v + j - 1)])
Toks(e) == [j \in 1..((e.hi - e.lo) \div e.st + 1) |-> e.lo + (j - 1) * e.st]
TGetMany(e) ==
    LET ts == Toks(e)
    IN  /\ UNCHANGED <<ids, newest>>
        /\ Nothing
        /\ e.r = "ok"
        /\ (ToSet(ts) \subseteq held) = TRUE
        /\ Dropped(e, <<>>)
        /\ Same(e.v, [j \in DOMAIN ts |-> value[ts[j]]])
TReleaseMany(e) ==
    LET ts == Toks(e)
        vs == [j \in DOMAIN ts |-> value[ts[j]]]
    IN  /\ UNCHANGED <<ids, newest>>
        /\ e.r = "ok"
        /\ CheckValues => e.in = 0
        /\ Same(e.v, vs)
        /\ Dropped(e, vs)                       \* by their new owner
        /\ ReleaseMany(ToSet(ts))

TGet(e) ==
    /\ UNCHANGED <<ids, newest>>
    /\ Nothing
    /\ Dropped(e, <<>>)
    /\ IF e.t \in held THEN e.r = "ok" /\ Same(e.v, value[e.t]) ELSE e.r = "panic"

(* a value made for a refused assignment is never seen: the access fails first *)
TAssign(e, drops) ==
    /\ UNCHANGED <<ids, newest>>
    /\ IF e.t \in held
       THEN e.r = "ok" /\ Dropped(e, IF drops THEN <<value[e.t]>> ELSE <<>>) /\ Assign(e.t, V(e.v))
       ELSE e.r = "panic" /\ Dropped(e, <<>>) /\ Nothing

TRelease(e) ==
    /\ UNCHANGED <<ids, newest>>
    /\ Dropped(e, <<>>)
    /\ IF e.t \in held
       THEN e.r = "ok" /\ Same(e.v, value[e.t]) /\ (CheckValues => e.own = IF Pod THEN <<>> ELSE <<value[e.t]>>)
            /\ Release(e.t)
       ELSE e.r = "panic" /\ (CheckValues => e.own = <<>>) /\ Nothing

(* a handle that was never given out: refused in every use *)
TUnknown(e) ==
    /\ UNCHANGED <<ids, newest>>
    /\ e.known = 0
    /\ (ToSet(e.used) = {2}) = TRUE
    /\ Dropped(e, <<>>)
    /\ Nothing

TEnd(e) ==
    /\ UNCHANGED <<ids, newest>>
    \* the destructor of a resource may panic: the others are dropped all the same
    /\ e.r = IF e.fu # 0 /\ ~Pod /\ (IF Zst THEN held # {} ELSE e.fu \in held) THEN "panic" ELSE "ok"
    /\ LET hs == SetToSeq(held) IN Dropped(e, [i \in DOMAIN hs |-> value[hs[i]]])
    /\ CheckMemory => e.by = 0 /\ e.bl = 0 /\ e.zero = 0 /\ e.badfree = 0 /\ e.badlayout = 0
    /\ e.stray = 0
    /\ Close

(* an allocation was refused during this event: the call does not come back, *)
(* or ends in a panic (then it is the last one)                              *)
Refused == l > 1 /\ Evs[l - 1].o = "refused"
NoMemory(e) == e.o = "nomem" \/ ("r" \in DOMAIN e /\ e.r = "panic")

Act(e) ==
    CASE Refused -> (NoMemory(e) = TRUE) /\ Nothing /\ UNCHANGED <<ids, newest>>
      [] e.o = "refused" -> Nothing /\ UNCHANGED <<ids, newest>>
      [] e.o = "rnew" -> (e.r = "ok" \/ (e.r = "panic" /\ e.cap >= 1073741824)) /\ Nothing /\ UNCHANGED <<ids, newest>>
      [] e.o = "n" -> TPut(e)
      [] e.o = "N" -> TPutMany(e)
      [] e.o = "G" -> TGetMany(e)
      [] e.o = "Y" -> TReleaseMany(e)
      [] e.o = "u" -> TChurn(e)
      [] e.o = "g" -> TGet(e)
      [] e.o = "w" -> TAssign(e, TRUE)
      [] e.o = "p" -> TAssign(e, FALSE)
      [] e.o = "x" -> TRelease(e)
      [] e.o = "X" -> TUnknown(e)
      [] e.o = "rend" -> TEnd(e)
      [] OTHER -> FALSE

TraceNext ==
    \/ l <= Len(Evs) /\ Act(Ev) /\ l' = l + 1 /\ UNCHANGED tid
    \/ l > Len(Evs) /\ UNCHANGED traceVars
TraceSpec == TraceInit /\ [][TraceNext]_traceVars
TraceOK == held \subseteq 1..m
Short == [tid |-> tid, l |-> l]
=============================================================================
