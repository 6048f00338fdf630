---------------------------- MODULE HandlesTrace ----------------------------
(* Recorded executions against Handles: ids, versions, capacity, memory.     *)
(* Bulk events report handles as runs <<id, version, count, id step, version *)
(* step>>.                                                                   *)
EXTENDS Handles, Rows, Json, IOUtils

CONSTANTS CheckFresh,     \* C01: fresh handles, versions increase
          CheckBound,     \* C20: ids below the peak, capacity within twice the peak
          Slack           \* C20: bytes a store may hold beyond what it held after the warm-up cycles

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l, cap0, held
traceVars == <<live, last, peak, tid, l, cap0, held>>

Evs == Traces[tid].ev
Ev == Evs[l]

TraceInit == HandlesInit /\ tid \in 1..Len(Traces) /\ l = 1 /\ cap0 = 0 /\ held = 0
Keep == UNCHANGED <<cap0, held>>
Is(x) == x = TRUE         \* evaluated as a value: TLC would unfold a quantifier in an action conjunct by conjunct

(* without CheckFresh: follow what was issued *)
Follow(ids) ==
    /\ live' = live \cup ids
    /\ last' = <<>>
    /\ peak' = Max2(peak, Cardinality(live'))

Bounds(ids, cap) == CheckBound => Is(/\ \A i \in ids : i >= 0 /\ i < peak'
                                  /\ cap <= Max2(cap0, 2 * peak'))

TCreate(e) ==
    /\ Keep
    /\ \/ /\ e.r = "ok"
          /\ IF CheckFresh THEN Issue(e.id, e.ver) ELSE Follow({e.id})
          /\ Bounds({e.id}, e.cap)
       \* components that do not fit in a page: refused, and no id is used up
       \/ e.r = "panic" /\ ~MustFit(ToSet(e.s)) /\ UNCHANGED handleVars

RunIds(r) == IF r[4] = 0 THEN {r[1]} ELSE {r[1] + r[4] * j : j \in 0..(r[3] - 1)}
TopId(r) == Max2(r[1], r[1] + r[4] * (r[3] - 1))
(* the size makes TLC sort the set: membership by binary search *)
Norm(S) == IF Cardinality(S) >= 0 THEN S ELSE {}
AllIds(e) == UNION {RunIds(e.hs[i]) : i \in DOMAIN e.hs}
Count(e) == FoldSeq(LAMBDA r, a : a + r[3], 0, e.hs)
VerIn(r, i) == r[2] + r[5] * (IF r[4] = 0 THEN 0 ELSE (i - r[1]) \div r[4])
Later(la, r, ids) == TLCEval(With(la, ids, TopId(r), LAMBDA i : VerIn(r, i)))
(* last versions after the runs from the k-th on *)
RECURSIVE Newest(_, _, _)
Newest(hs, k, la) ==
    IF k > Len(hs) THEN la
    ELSE Newest(hs, k + 1, Later(la, hs[k], Norm(RunIds(hs[k]))))

(* parameters are evaluated once, LET definitions at every use *)
TCreateSet(e, ids) ==
        /\ e.r = "ok"
        /\ IF CheckFresh
           THEN /\ Count(e) = e.k
                /\ Cardinality(ids) = e.k
                /\ ids \cap live = {}
                /\ Is(\A k \in DOMAIN e.hs : \A i \in RunIds(e.hs[k]) : i \in 0..MaxId /\ VerIn(e.hs[k], i) > LastOf(i))
                /\ live' = live \cup ids
                /\ last' = Newest(e.hs, 1, last)
                /\ peak' = Max2(peak, Cardinality(live'))
           ELSE Follow(ids)
        /\ Bounds(ids, e.cap)
        /\ Keep
TCreateMany(e) == TCreateSet(e, Norm(AllIds(e)))
TDestroySet(e, ids) ==
        /\ e.r = "ok"
        /\ CheckFresh => /\ Is(\A k \in DOMAIN e.hs : \A i \in RunIds(e.hs[k]) : CanRetire(i, VerIn(e.hs[k], i)))
                         /\ Cardinality(ids) = Count(e)
        /\ live' = live \ ids
        /\ UNCHANGED <<last, peak>>
        /\ Keep

TDestroyMany(e) == TDestroySet(e, Norm(AllIds(e)))

(* one entity at a time, created and destroyed: the handles in order *)
RECURSIVE Churn(_, _, _)
Churn(hs, k, la) ==          \* last versions after the first k runs, or <<>> if one was not fresh
    IF k > Len(hs) THEN [ok |-> TRUE, la |-> la]
    ELSE LET r == hs[k]
             ids == RunIds(r)
             fine == /\ \A i \in ids : i \in 0..MaxId /\ i \notin live /\ VerIn(r, i) > LastIn(la, i)
                     /\ r[4] = 0 => r[3] = 1 \/ r[5] > 0
             top(i) == IF r[4] = 0 THEN r[2] + r[5] * (r[3] - 1) ELSE VerIn(r, i)
         IN IF fine THEN Churn(hs, k + 1, With(la, ids, TopId(r), top))
            ELSE [ok |-> FALSE, la |-> la]
TChurn(e) ==
    /\ e.r = "ok"
    /\ Keep
    /\ UNCHANGED live
    /\ peak' = Max2(peak, Cardinality(live) + 1)
    /\ IF CheckFresh
       THEN /\ Count(e) = e.k
            /\ LET c == Churn(e.hs, 1, last) IN c.ok /\ last' = c.la
       ELSE UNCHANGED last
    /\ Bounds(AllIds(e), e.cap)

TDestroy(e) ==
    /\ Keep
    /\ IF CheckFresh
       THEN IF CanRetire(e.id, e.ver) THEN e.r = "ok" /\ Retire(e.id, e.ver)
            ELSE e.r = "panic" /\ UNCHANGED handleVars
       ELSE IF e.r = "ok" THEN live' = live \ {e.id} /\ UNCHANGED <<last, peak>>
            ELSE UNCHANGED handleVars
TNew(e) == e.r = "ok" /\ cap0' = e.cap /\ UNCHANGED <<live, last, peak, held>>

(* end of a cycle: warm-up cycles set the mark, later ones must stay near it *)
TMem(e) ==
    /\ UNCHANGED <<live, last, peak, cap0>>
    /\ IF e.warm = 1 THEN held' = Max2(held, e.by)
       ELSE UNCHANGED held /\ (CheckBound => e.by <= held + Slack)
    /\ CheckBound => e.cap <= Max2(cap0, 2 * peak)

Other == {"a", "r", "s", "t+", "t-", "oa", "on", "op", "or", "q", "alive", "cap",
          "A", "R", "T+", "T-", "OA", "OR"}

Act(e) ==
    CASE e.o = "new" -> TNew(e)
      [] e.o = "c" -> TCreate(e)
      [] e.o = "C" -> TCreateMany(e)
      [] e.o = "d" -> TDestroy(e)
      [] e.o = "D" -> TDestroyMany(e)
      [] e.o = "U" -> TChurn(e)
      [] e.o = "mem" -> TMem(e)
      [] e.o \in Other -> UNCHANGED handleVars /\ Keep
      [] OTHER -> FALSE

TraceNext ==
    \/ l <= Len(Evs) /\ Act(Ev) /\ l' = l + 1 /\ UNCHANGED tid
    \/ l > Len(Evs) /\ UNCHANGED traceVars
TraceSpec == TraceInit /\ [][TraceNext]_traceVars
TraceOK == CheckFresh => HandlesOK
Short == [tid |-> tid, l |-> l]
=============================================================================
