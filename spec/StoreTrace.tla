----------------------------- MODULE StoreTrace -----------------------------
(* Is a recorded execution of the real store a behaviour of Store?           *)
(* Each line of TRACE is one history; every history is one initial state. The*)
(* next event is the only enabled step, so a rejected event is a deadlock.   *)
EXTENDS Store, Rows, TLC, Json, IOUtils

CONSTANTS CheckIter,       \* also decide len/size_hint/after-the-end (C22)
          CheckCap,        \* also decide the reported capacity (C21)
          Known            \* cases of listed findings (C28)

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l, cap

traceVars == <<n, alive, val, tags, order, tid, l, cap>>

Evs == Traces[tid].ev
Ev == Evs[l]

TraceInit ==
    /\ StoreInit
    /\ tid \in 1..Len(Traces)
    /\ l = 1
    /\ cap = 0

(* evaluated as a value: TLC would unfold a quantifier in an action conjunct by conjunct *)
Is(x) == x = TRUE

----------------------------------------------------------------------------
(* operations *)

(* the value a component of less than four bytes gets for a stamp; single calls report it themselves *)
Fit(c, v) == IF Size[c] = 1 THEN 1 + (v % 250)
             ELSE IF Size[c] = 2 THEN 1 + (v % 65521)
             ELSE IF Size[c] = 3 THEN 1 + (v % 16777213)
             ELSE v

Cap(c) == cap' = c /\ (CheckCap => c >= cap /\ c >= Cardinality(alive'))
KeepCap == UNCHANGED cap

Huge == 1073741824           \* there is no memory for as many entities
TNew(e) == \/ e.r = "ok" /\ Nothing /\ cap' = e.cap /\ (CheckCap => \/ e.req = 0 /\ e.cap >= 0
                                                                   \/ e.cap = e.req)
           \/ e.r = "panic" /\ e.req >= Huge /\ Nothing /\ KeepCap
(* a set that does not fit in a page may be refused: then nothing has happened *)
TCreate(e) ==
    \/ e.r = "ok" /\ Create(Fn(e.s, e.v)) /\ Cap(e.cap)
    \/ e.r = "panic" /\ ~MustFit(ToSet(e.s)) /\ Nothing /\ KeepCap

TDestroy(e) == KeepCap /\ IF e.t \in alive THEN e.r = "ok" /\ Destroy(e.t)
                          ELSE e.r = "panic" /\ Nothing

TAdd(e) ==
    KeepCap /\ IF e.t \in alive
               THEN \/ e.r = "ok" /\ AddComps(e.t, Fn(e.s, e.v))
                    \/ e.r = "panic" /\ ~MustFit(Comps(e.t) \cup ToSet(e.s)) /\ Nothing
               ELSE Nothing
TRemove(e) == KeepCap /\ IF e.t \in alive THEN e.r = "ok" /\ RemoveComps(e.t, ToSet(e.s)) ELSE Nothing

TSet(e) ==
    /\ KeepCap
    /\ e.r = "ok"
    /\ IF Has(e.t, ToSet(e.s))
       THEN /\ e.has = 1
            /\ e.old = ValuesOf(e.t, e.s)
            /\ Write(e.t, Fn(e.s, e.v))
       ELSE e.has = 0 /\ Nothing

TTag(e, on) == KeepCap /\ IF e.t \in alive THEN e.r = "ok" /\ SetTag(e.t, e.g, on) ELSE Nothing

TOrderAppend(e) ==
    KeepCap /\ IF e.t \notin alive THEN Nothing
               ELSE IF CanAppend(e.g, e.t) THEN e.r = "ok" /\ OrderAppend(e.g, e.t)
               ELSE e.r = "panic" /\ Nothing
TOrderPlace(e, next) ==
    KeepCap /\ IF e.t \notin alive \/ e.a \notin alive THEN Nothing
               ELSE IF CanPlace(e.g, e.t, e.a)
               THEN e.r = "ok" /\ IF next THEN OrderNextTo(e.g, e.t, e.a) ELSE OrderPrevTo(e.g, e.t, e.a)
               ELSE e.r = "panic" /\ Nothing
TOrderRemove(e) == KeepCap /\ IF e.t \in alive THEN e.r = "ok" /\ OrderRemove(e.g, e.t) ELSE Nothing

(* bulk operations: one event for many calls, on the tokens lo, lo+st, .., hi *)
Sel(e) == {t \in e.lo..e.hi : (t - e.lo) % e.st = 0}
(* the size makes TLC sort the set: membership by binary search *)
Norm(S) == IF Cardinality(S) >= 0 THEN S ELSE {}
Idx(e, t) == (t - e.lo) \div e.st
ColIn(ids, c) == CHOOSE i \in DOMAIN ids : ids[i] = c

TCreateMany(e) ==
    LET m == Len(e.s)
        f(j) == [c \in ToSet(e.s) |-> Fit(c, e.b + (j - 1) * m + ColIn(e.s, c) - 1)]
    IN  /\ e.r = "ok"
        /\ n' = n + e.k
        /\ alive' = alive \cup (n + 1)..(n + e.k)
        /\ val' = val \o [j \in 1..e.k |-> f(j)]
        /\ tags' = tags \o [j \in 1..e.k |-> {}]
        /\ UNCHANGED order
        /\ Cap(e.cap)

TAddSet(e, sel) ==
    LET m == Len(e.s)
        f(t) == [c \in ToSet(e.s) |-> Fit(c, e.b + Idx(e, t) * m + ColIn(e.s, c) - 1)]
    IN  /\ e.r = "ok"
        /\ val' = [t \in 1..n |-> IF t \in sel /\ t \in alive THEN Over(f(t), val[t]) ELSE val[t]]
        /\ UNCHANGED <<n, alive, tags, order, cap>>
TAddMany(e) == TAddSet(e, Norm(Sel(e)))
TRemoveSet(e, S, sel) ==
    /\ e.r = "ok"
    /\ val' = [t \in 1..n |-> IF t \in sel /\ t \in alive THEN Less(val[t], S) ELSE val[t]]
    /\ UNCHANGED <<n, alive, tags, order, cap>>
TRemoveMany(e) == TRemoveSet(e, ToSet(e.s), Norm(Sel(e)))
TDestroySet(e, sel) ==
    /\ e.r = "ok"
    /\ Is(sel \subseteq alive)
    /\ alive' = alive \ sel
    /\ val' = [t \in 1..n |-> IF t \in sel THEN NoComps ELSE val[t]]
    /\ tags' = [t \in 1..n |-> IF t \in sel THEN {} ELSE tags[t]]
    /\ order' = [g \in Groups |-> SelectSeq(order[g], LAMBDA x : x \notin sel)]
    /\ UNCHANGED <<n, cap>>
TDestroyMany(e) == TDestroySet(e, Norm(Sel(e)))
TTagSet(e, on, sel) ==
    /\ e.r = "ok"
    /\ tags' = [t \in 1..n |-> IF t \in sel /\ t \in alive
                               THEN IF on THEN tags[t] \cup {e.g} ELSE tags[t] \ {e.g}
                               ELSE tags[t]]
    /\ UNCHANGED <<n, alive, val, order, cap>>
TTagMany(e, on) == TTagSet(e, on, Norm(Sel(e)))
TOrderSet(e, add, sel) ==
    LET new == [i \in 1..((e.hi - e.lo) \div e.st + 1) |-> e.lo + (i - 1) * e.st]
        cur == order[e.g]
    IN  /\ e.r = "ok"
        /\ IF add THEN /\ Is(sel \subseteq alive)
                       /\ Is(ToSet(cur) \cap sel = {})
                       /\ SetOrder(e.g, cur \o new)
           ELSE SetOrder(e.g, SelectSeq(cur, LAMBDA x : ~(x \in sel /\ x \in alive)))
        /\ UNCHANGED cap
TOrderMany(e, add) == TOrderSet(e, add, Norm(Sel(e)))

(* a handle the store never gave out, used in every call: nothing is found,  *)
(* nothing happens. Its id may be beyond what the store knows: then a call   *)
(* may panic.                                                                *)
TUnknown(e) ==
    LET no == IF e.id >= cap THEN {0, 2} ELSE {0}
        ts == SelectSeq(e.t, LAMBDA t : Has(t, ToSet(e.s)))
    IN  /\ e.tok = -1
        /\ Is(ToSet(e.rd) \subseteq no)
        /\ Is(ToSet(e.up) \subseteq {0, 2})
        /\ Is(e.ds \in {-1, 2})
        /\ Is(CASE e.lr = "ok" -> e.it = [i \in DOMAIN ts |-> <<ts[i], ValuesOf(ts[i], e.s)>>]
                [] e.lr = "panic" -> 2 \in no
                [] e.lr = "none" -> TRUE)
        /\ Nothing /\ KeepCap

----------------------------------------------------------------------------
(* queries *)

Max2(a, b) == IF a > b THEN a ELSE b

(* tokens visited by a component query, in the order of the recorded items *)
VisitedBy(e, M) ==
    IF e.e = 1 THEN [i \in DOMAIN e.it |-> e.it[i][1]]
    ELSE LET at == [v \in {ValuesOf(t, e.s) : t \in M} |-> CHOOSE t \in M : ValuesOf(t, e.s) = v]
         IN [i \in DOMAIN e.it |-> IF e.it[i][2] \in DOMAIN at THEN at[e.it[i][2]] ELSE 0]

Injective(s) == Cardinality(ToSet(s)) = Len(s)

(* How the items were asked for (e.style), `total` of them being there: 0 next (at most part of them
   when part >= 0), 1 fold, 2 nth(part) and then next, 3 count, 4 last; after `part` calls of next:
   5 fold, 6 count, 7 last, 8 nth(2) and then next. *)
Min2(a, b) == IF a < b THEN a ELSE b
Expected(e, total) ==
    CASE e.style = 0 -> IF e.part >= 0 /\ e.part < total THEN e.part ELSE total
      [] e.style = 1 -> total
      [] e.style = 2 -> Max2(0, total - e.part)
      [] e.style = 3 -> 0
      [] e.style = 4 -> IF total > 0 THEN 1 ELSE 0
      [] e.style = 5 -> total
      [] e.style = 6 -> Min2(e.part, total)
      [] e.style = 7 -> Min2(e.part + 1, total)
      [] e.style = 8 -> Min2(e.part, total) + Max2(0, total - e.part - 2)
Counted(e, total) ==
    /\ e.style = 3 => e.cnt = total
    /\ e.style = 6 => e.cnt = Max2(0, total - e.part)
(* the reported ones, for the queries with a defined order: a run from First, and for styles 7 and 8
   a second run up to the end *)
First(e, total) == CASE e.style = 2 -> e.part + 1 [] e.style = 4 -> total [] OTHER -> 1
Rest(e, total) == IF e.style = 7 THEN Max2(e.part + 1, total) ELSE e.part + 3
Picked(all, e, total) ==
    IF e.style \in {7, 8} THEN SubSeq(all, 1, Min2(e.part, total)) \o SubSeq(all, Rest(e, total), total)
    ELSE SubSeq(all, First(e, total), First(e, total) + Expected(e, total) - 1)

(* the last value written to component c of token t by the first i items *)
WrittenBefore(e, toks, i, t, c) == {j \in 1..(i - 1) : toks[j] = t /\ e.w = 1
                                        /\ c \in ToSet(SubSeq(e.s, Len(e.s) - e.nw + 1, Len(e.s)))}
NewVal(e, j, c) == e.it[j][3][(CHOOSE k \in DOMAIN e.s : e.s[k] = c) - (Len(e.s) - e.nw)]
ReadAt(e, toks, i, c) ==
    \* only a list query can visit a token twice
    IF e.w = 0 \/ e.k # "l" THEN val[toks[i]][c]
    ELSE LET t == toks[i] W == WrittenBefore(e, toks, i, t, c)
         IN IF W = {} THEN val[t][c] ELSE NewVal(e, Max(W), c)

ItemsRight(e, toks) ==
    \A i \in DOMAIN toks :
        /\ e.e = 1 => e.it[i][1] = toks[i]
        /\ e.it[i][2] = [k \in DOMAIN e.s |-> ReadAt(e, toks, i, e.s[k])]

WriteBack(e, toks) ==
    IF e.w = 0 \/ toks = <<>> THEN UNCHANGED val
    ELSE LET WC == ToSet(SubSeq(e.s, Len(e.s) - e.nw + 1, Len(e.s)))
             touched == ToSet(toks)
             posOf == IF e.k = "l" THEN [t \in touched |-> Max({j \in DOMAIN toks : toks[j] = t})]
                      ELSE FoldSeq(LAMBDA j, f : (toks[j] :> j) @@ f, <<>>, [j \in DOMAIN toks |-> j])
             lastAt(t) == posOf[t]
         IN val' = [t \in 1..n |->
                      IF t \notin touched THEN val[t]
                      ELSE [c \in DOMAIN val[t] |-> IF c \in WC THEN NewVal(e, lastAt(t), c) ELSE val[t][c]]]

(* iterator protocol: remaining items before the i-th call of next *)
Remaining(e, total, i) ==
    IF i = 1 THEN total
    ELSE IF e.style = 2 THEN Max2(0, total - e.part - (i - 1))
    ELSE IF e.style = 8 /\ i > e.part + 1 THEN Max2(0, total - 2 - (i - 1))
    ELSE Max2(0, total - (i - 1))
IterOK(e, total) ==
    /\ e.post = 0
    /\ \A i \in DOMAIN e.ln :
         LET rem == Remaining(e, total, i)
         IN /\ e.ln[i] = -1 \/ e.ln[i] = rem
            /\ e.lo[i] <= rem
            /\ e.hi[i] = -1 \/ e.hi[i] >= rem
    \* pairing with entities does not change the sequence
    /\ LET p == Evs[l - 1]
       IN (l > 1 /\ p.o = "q") =>
          ((p.k = e.k /\ p.s = e.s /\ p.m = e.m /\ p.f = e.f /\ p.g = e.g /\ p.l = e.l /\ p.w = 0 /\ e.w = 0
            /\ p.style <= 1 /\ e.style <= 1 /\ p.part = e.part)
           => [i \in DOMAIN p.it |-> p.it[i][2]] = [i \in DOMAIN e.it |-> e.it[i][2]])

TQuery(e) ==
    LET S == ToSet(e.s)
    IN
    /\ e.r = "ok"
    /\ e.over = 0
    /\ UNCHANGED <<n, alive, tags, order, cap>>
    /\ IF e.k = "c"
       THEN LET M == IF e.f = 0 THEN Matching(S) ELSE Matching(S) \cap Tagged(e.f)
                total == Cardinality(M)
                toks == VisitedBy(e, M)
            IN /\ Len(e.it) = Expected(e, total)
               /\ Counted(e, total)
               /\ Is(ToSet(toks) \subseteq M)
               /\ Injective(toks)
               /\ Is(ItemsRight(e, toks))
               /\ WriteBack(e, toks)
               /\ CheckIter => Is(IterOK(e, total))
       ELSE LET all == IF e.k = "l" THEN ListResult(e.l, S) ELSE OrderedResult(e.g, S)
                total == Len(all)
                toks == Picked(all, e, total)
            IN /\ Len(e.it) = Expected(e, total)
               /\ Counted(e, total)
               /\ Is(ItemsRight(e, toks))
               /\ WriteBack(e, toks)
               /\ CheckIter => Is(IterOK(e, total))

----------------------------------------------------------------------------
(* observations *)

OAlive(e) == ToSet(e.v) = alive
OCap(e) == CheckCap => e.v = cap
OArch(e) ==
    /\ e.r = "ok"
    /\ \A i \in DOMAIN e.v :
         LET t == e.v[i][1] C == Comps(t)
         IN /\ e.v[i][2] = IF C = {} THEN 0 ELSE 1
            /\ e.v[i][3] = e.v[i][2]
            /\ ToSet(e.v[i][4]) = C /\ Len(e.v[i][4]) = Cardinality(C)
            /\ ToSet(e.v[i][5]) = C
OVals(e) ==
    /\ e.r = "ok"
    /\ \A i \in DOMAIN e.v :
         LET t == e.v[i][1] C == Comps(t) p == e.v[i][2]
         IN /\ Len(p) = Cardinality(C)
            /\ \A k \in DOMAIN p : p[k][1] \in C /\ p[k][2] = val[t][p[k][1]]
OGet(e) ==
    /\ e.r = "ok"
    /\ IF Has(e.t, ToSet(e.s)) THEN e.has = 1 /\ e.v = ValuesOf(e.t, e.s) ELSE e.has = 0
OTags(e) ==
    /\ e.r = "ok"
    /\ \A i \in DOMAIN e.v :
         ToSet(e.v[i][2]) = IF e.v[i][1] \in alive THEN tags[e.v[i][1]] \cap 1..e.upto ELSE {}
OOrd(e) ==
    LET s == order[e.g]
        at == [t \in ToSet(s) |-> CHOOSE i \in DOMAIN s : s[i] = t]
    IN
    /\ e.r = "ok"
    /\ e.f = FirstOf(e.g)
    /\ e.la = LastOf(e.g)
    /\ e.fw = s
    /\ e.bw = Reverse(s)
    /\ \A i \in DOMAIN e.np :
         LET t == e.np[i][1]
         IN IF t \in DOMAIN at
            THEN /\ e.np[i][2] = IF at[t] = Len(s) THEN 0 ELSE s[at[t] + 1]
                 /\ e.np[i][3] = IF at[t] = 1 THEN 0 ELSE s[at[t] - 1]
            ELSE e.np[i][2] = 0 /\ e.np[i][3] = 0

(* memory of the components: sorted by (block, offset) by the harness *)
OAddr(e) ==
    /\ e.r = "ok"
    /\ \A i \in DOMAIN e.v :
         LET x == e.v[i]                       \* token, component, block, offset, size, misalignment, block size
         IN /\ x[2] \in Comps(x[1])
            /\ x[3] >= 0                       \* inside a live block of the store
            /\ x[4] >= 0 /\ x[4] + x[5] <= x[7]
            /\ x[6] = 0                        \* aligned
    /\ \A i \in 1..(Len(e.v) - 1) :
         LET x == e.v[i] y == e.v[i + 1]
         IN \/ x[3] < y[3]
            \/ x[3] = y[3] /\ x[4] + x[5] <= y[4]
    /\ \A i \in DOMAIN e.toks :
         Cardinality({k \in DOMAIN e.v : e.v[k][1] = e.toks[i]}) = Cardinality(Comps(e.toks[i]))

OEnd(e) ==
    /\ e.r = "ok"
    /\ e.by = 0 /\ e.bl = 0
    /\ e.zero = 0 /\ e.badfree = 0 /\ e.badlayout = 0
    /\ e.stray = 0                           \* nothing written next to a block

Observe(ok) == Is(ok) /\ Nothing /\ KeepCap

----------------------------------------------------------------------------
(* an allocation was refused during this event: the call does not come back, *)
(* or ends in a panic (then it is the last one)                              *)
Refused == l > 1 /\ Evs[l - 1].o = "refused"
NoMemory(e) == e.o = "nomem" \/ ("r" \in DOMAIN e /\ e.r = "panic")

Act(e) ==
    CASE Refused -> (NoMemory(e) = TRUE) /\ Nothing /\ KeepCap
      [] e.o = "refused" -> Nothing /\ KeepCap
      [] e.o = "new" -> TNew(e)
      [] e.o = "c" -> TCreate(e)
      [] e.o = "d" -> TDestroy(e)
      [] e.o = "a" -> TAdd(e)
      [] e.o = "r" -> TRemove(e)
      [] e.o = "s" -> TSet(e)
      [] e.o = "t+" -> TTag(e, TRUE)
      [] e.o = "t-" -> TTag(e, FALSE)
      [] e.o = "oa" -> TOrderAppend(e)
      [] e.o = "on" -> TOrderPlace(e, TRUE)
      [] e.o = "op" -> TOrderPlace(e, FALSE)
      [] e.o = "or" -> TOrderRemove(e)
      [] e.o = "C" -> TCreateMany(e)
      [] e.o = "A" -> TAddMany(e)
      [] e.o = "R" -> TRemoveMany(e)
      [] e.o = "D" -> TDestroyMany(e)
      [] e.o = "T+" -> TTagMany(e, TRUE)
      [] e.o = "T-" -> TTagMany(e, FALSE)
      [] e.o = "OA" -> TOrderMany(e, TRUE)
      [] e.o = "OR" -> TOrderMany(e, FALSE)
      [] e.o = "U" -> e.r = "ok" /\ Nothing /\ Cap(e.cap)
      [] e.o = "mem" -> Nothing /\ KeepCap
      [] e.o = "gone" -> e.r = "ok" /\ Nothing /\ KeepCap   \* dropped while other stores stay
      [] e.o = "F" -> e.r = "ok" /\ Nothing /\ KeepCap      \* kept query objects used on another store
      [] e.o = "X" -> TUnknown(e)
      [] e.o = "q" -> TQuery(e)
      [] e.o = "alive" -> Observe(OAlive(e))
      [] e.o = "cap" -> Observe(OCap(e))
      [] e.o = "arch" -> Observe(OArch(e))
      \* the components of a new entity before they are written
      [] e.o = "raw" -> /\ e.r = "ok"
                        /\ e.zero = 1 \/ ("unwritten" \in Known /\ PrintT("KNOWN unwritten"))
                        /\ Nothing /\ KeepCap
      [] e.o = "vals" -> Observe(OVals(e))
      [] e.o = "get" -> Observe(OGet(e))
      [] e.o = "tags" -> Observe(OTags(e))
      [] e.o = "ord" -> Observe(OOrd(e))
      [] e.o = "addr" -> Observe(OAddr(e))
      [] e.o = "end" -> Observe(OEnd(e))
      [] OTHER -> FALSE                        \* "crash", "hang": never allowed

TraceNext ==
    \/ /\ l <= Len(Evs)
       /\ Act(Ev)
       /\ l' = l + 1
       /\ UNCHANGED tid
    \/ /\ l > Len(Evs)
       /\ UNCHANGED traceVars

TraceSpec == TraceInit /\ [][TraceNext]_traceVars

(* the abstract invariants, also evaluated in every state of every trace *)
TraceOK == StoreTypeOK /\ OrdersOK

Short == [tid |-> tid, l |-> l]
=============================================================================
