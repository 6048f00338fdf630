-------------------------------- MODULE Pages --------------------------------
(* archetypes_container.rs, archetype_data_page.rs and the component part of *)
(* store.rs: a table of archetypes, each with a list of pages of rows; pages *)
(* and archetypes that become empty go to stacks of free ones (those of the  *)
(* first archetype do not); rows are removed by moving the last one into the *)
(* hole; components are copied when an entity changes its archetype.         *)
(* Checked against Store (val) by refinement.                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, TLCExt, Json

CONSTANTS Types,       \* component types 1..k, all of the same size
          Rows,        \* rows of one component that fit in a page
          Pages0,      \* pages at the start (5 in the code)
          MaxLive, MaxN,
          Vals,        \* values written
          Down,        \* pages made later lie at lower addresses
          Bug

VARIABLES archs,       \* archetype index -> component set
          apages,      \* archetype index -> sequence of page numbers
          freeArch, freePages,   \* stacks
          rows,        \* page -> sequence of [t, v]
          pcap,        \* page -> rows it may hold
          p2a,         \* page -> archetype index
          where,       \* token -> <<page, index>>, <<>> without archetype
          alive, n, op
vars == <<archs, apages, freeArch, freePages, rows, pcap, p2a, where, alive, n, op>>

Sets == (SUBSET Types) \ {{}}
Cap(S) == Rows \div Cardinality(S)
Fits(S) == Cap(S) > 0

Init ==
    /\ archs = <<>> /\ apages = <<>>
    /\ freeArch = <<>>
    /\ freePages = [i \in 1..Pages0 |-> i]
    /\ rows = [i \in 1..Pages0 |-> <<>>]
    /\ pcap = [i \in 1..Pages0 |-> 0]
    /\ p2a = [i \in 1..Pages0 |-> 1]
    /\ where = <<>>
    /\ alive = {}
    /\ n = 0
    /\ op = <<"new">>

(* the containers as one record, so that steps of a call can be composed *)
St == [archs |-> archs, apages |-> apages, fa |-> freeArch, fp |-> freePages, rows |-> rows, pcap |-> pcap,
       p2a |-> p2a, where |-> where]

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
FirstPos(s, x) == IF \E i \in DOMAIN s : s[i] = x THEN CHOOSE i \in DOMAIN s : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x
                  ELSE 0
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]

(* <<state, archetype index>> *)
ReserveArch(z, S) ==
    LET a == FirstPos(z.archs, S)
        k == FirstPos(z.fa, a)
    IN  IF a # 0
        THEN <<IF k = 0 \/ (Bug = "sortedfree" /\ ~Ascending(z.fa)) \/ Bug = "keepfree" THEN z
               ELSE [z EXCEPT !.fa = Without(@, k)], a>>
        ELSE IF z.fa # <<>>
        THEN LET x == z.fa[Len(z.fa)]
             IN <<[z EXCEPT !.archs[x] = S, !.fa = SubSeq(@, 1, Len(@) - 1)], x>>
        ELSE <<[z EXCEPT !.archs = Append(@, S), !.apages = Append(@, <<>>)], Len(z.archs) + 1>>

Empty == [c \in {} |-> 0]
(* <<state, page, index>>: a row for t, its components not yet written *)
AddRow(z, p, t) == <<[z EXCEPT !.rows[p] = Append(@, [t |-> t, v |-> Empty])], p, Len(z.rows[p]) + 1>>
ReservePage(z, a, t) ==
    LET ps == z.apages[a]
        room == {i \in DOMAIN ps : Len(z.rows[ps[i]]) < z.pcap[ps[i]]}
        At(i) == IF Bug = "byaddress" THEN (IF Down THEN 0 - ps[i] ELSE ps[i]) ELSE i
        last == CHOOSE i \in room : \A j \in room : At(j) <= At(i)
        fromFree == z.fp # <<>>
        p == IF fromFree THEN z.fp[Len(z.fp)] ELSE Len(z.rows) + 1
        z1 == IF fromFree THEN [z EXCEPT !.fp = SubSeq(@, 1, Len(@) - 1)]
              ELSE [z EXCEPT !.rows = Append(@, <<>>), !.pcap = Append(@, 0), !.p2a = Append(@, a)]
        z2 == [z1 EXCEPT !.pcap[p] = IF Bug = "capstale" /\ @ > 0 THEN @ ELSE Cap(z1.archs[a]),
                         !.apages[a] = Append(@, p), !.p2a[p] = a]
    IN  IF room # {} THEN AddRow(z, ps[last], t) ELSE AddRow(z2, p, t)

FreePage(z, p) ==
    LET a == z.p2a[p]
        i == FirstPos(z.apages[a], p)
        rest == Without(z.apages[a], i)
    IN  IF a = 1 THEN z
        ELSE [z EXCEPT !.apages[a] = rest,
                       !.fa = IF rest = <<>> THEN Append(@, a) ELSE @,
                       !.fp = Append(@, p)]

(* swap_remove of a row: the moved entity's index is corrected *)
RemoveRow(z, p, i) ==
    LET r == z.rows[p] k == Len(r)
        moved == IF i < k THEN [SubSeq(r, 1, k - 1) EXCEPT ![i] = r[k]] ELSE SubSeq(r, 1, k - 1)
        m2 == IF Bug = "rowsnotmoved" /\ i < k THEN [moved EXCEPT ![i].v = r[i].v] ELSE moved
        z1 == [z EXCEPT !.rows[p] = m2]
        z2 == IF i < k /\ Bug # "indexstays" THEN [z1 EXCEPT !.where[r[k].t] = <<p, i>>] ELSE z1
    IN  IF k = 1 THEN FreePage(z2, p) ELSE z2

(* values of the row at w, then those of f *)
Fill(z, w, f) ==
    [z EXCEPT !.rows[w[1]][w[2]].v = TLCEval([c \in z.archs[z.p2a[w[1]]] |->
        IF c \in DOMAIN f THEN f[c] ELSE IF c \in DOMAIN @ THEN @[c] ELSE 0])]

Become(z, new, aliveNow, nNow) ==
    /\ archs' = z.archs /\ apages' = z.apages /\ freeArch' = z.fa /\ freePages' = z.fp
    /\ rows' = z.rows /\ pcap' = z.pcap /\ p2a' = z.p2a /\ where' = z.where
    /\ alive' = aliveNow /\ n' = nNow
    /\ op' = new

Born(z) == [z EXCEPT !.where = Append(@, <<>>)]
F(t, S, v) == TLCEval([c \in S |-> <<t, v>>])

Create == Cardinality(alive) < MaxLive /\ Become(Born(St), <<"c">>, alive \cup {n + 1}, n + 1)

CreateWith(S, v) ==
    /\ Cardinality(alive) < MaxLive
    /\ Fits(S)
    /\ LET ra == ReserveArch(Born(St), S)
           rp == ReservePage(ra[1], ra[2], n + 1)
           w == <<rp[2], rp[3]>>
       IN Become(Fill([rp[1] EXCEPT !.where[n + 1] = w], w, F(n + 1, S, v)), <<"k", S>>, alive \cup {n + 1}, n + 1)
CreateRefused(S) == ~Fits(S) /\ Become(St, <<"k!", S>>, alive, n)

SetOf(t) == IF where[t] = <<>> THEN {} ELSE archs[p2a[where[t][1]]]

(* the row of t moves to the archetype S: new row, copy, old row removed *)
Move(z, t, S) ==
    LET old == z.where[t]
        ra == ReserveArch(z, S)
        rp == ReservePage(ra[1], ra[2], t)
        w == <<rp[2], rp[3]>>
        src == z.rows[old[1]][old[2]].v
        copied == TLCEval([c \in S \cap DOMAIN src |-> src[c]])
        z1 == Fill([rp[1] EXCEPT !.where[t] = w], w, IF Bug = "nocopy" THEN Empty ELSE copied)
    IN  RemoveRow(z1, old[1], old[2])

Add(t, S, v) ==
    LET have == SetOf(t) all == have \cup S
    IN  /\ t \in alive
        /\ IF ~Fits(all) THEN Become(St, <<"a!", t, S>>, alive, n)
           ELSE IF have = {}
           THEN LET ra == ReserveArch(St, S)
                    rp == ReservePage(ra[1], ra[2], t)
                    w == <<rp[2], rp[3]>>
                IN Become(Fill([rp[1] EXCEPT !.where[t] = w], w, F(t, S, v)), <<"a", t, S>>, alive, n)
           ELSE LET z == IF S \subseteq have THEN St ELSE Move(St, t, all)
                IN Become(Fill(z, z.where[t], F(t, S, v)), <<"a", t, S>>, alive, n)

Drop(t, S) ==
    LET have == SetOf(t) rest == have \ S
    IN  /\ t \in alive
        /\ Become(IF have = {} THEN St
                  ELSE IF rest = {} THEN [RemoveRow(St, where[t][1], where[t][2]) EXCEPT !.where[t] = <<>>]
                  ELSE Move(St, t, rest),
                  <<"r", t, S>>, alive, n)

Write(t, S, v) ==
    /\ t \in alive /\ S \subseteq SetOf(t)
    /\ Become(Fill(St, where[t], F(t, S, v)), <<"s", t, S>>, alive, n)

Destroy(t) ==
    /\ t \in alive
    /\ Become(IF where[t] = <<>> THEN St ELSE [RemoveRow(St, where[t][1], where[t][2]) EXCEPT !.where[t] = <<>>],
              <<"d", t>>, alive \ {t}, n)

Next ==
    \/ Create
    \/ \E S \in Sets : CreateRefused(S)
    \/ \E S \in Sets, v \in Vals : CreateWith(S, v)
    \/ \E t \in alive :
        \/ Destroy(t)
        \/ \E S \in Sets : Drop(t, S)
        \/ \E S \in Sets, v \in Vals : Add(t, S, v) \/ Write(t, S, v)

Spec == Init /\ [][Next]_vars
Bounded == n <= MaxN

----------------------------------------------------------------------------
S0 == INSTANCE Store WITH
        Groups <- {},
        n <- n,
        alive <- alive,
        val <- [t \in 1..n |-> IF where[t] = <<>> THEN Empty
                               ELSE LET r == rows[where[t][1]][where[t][2]]
                                    IN [c \in SetOf(t) |-> r.v[c]]],
        tags <- [t \in 1..n |-> {}],
        order <- Empty
AbsNext ==
    LET o == op' IN
    CASE o[1] = "c" -> S0!Create(Empty)
      [] o[1] = "k" -> \E v \in Vals : S0!Create(F(n + 1, o[2], v))
      [] o[1] = "d" -> S0!Destroy(o[2])
      [] o[1] = "a" -> \E v \in Vals : S0!AddComps(o[2], F(o[2], o[3], v))
      [] o[1] = "r" -> S0!RemoveComps(o[2], o[3])
      [] o[1] = "s" -> \E v \in Vals : S0!Write(o[2], F(o[2], o[3], v))
      [] OTHER -> S0!Nothing
Refines == S0!StoreInit /\ [][AbsNext]_vars

InUse == UNION {{apages[a][i] : i \in DOMAIN apages[a]} : a \in DOMAIN apages}
Structure ==
    \* the rows are those of the living entities with components, each where it is said to be
    /\ \A t \in alive : where[t] # <<>> =>
          /\ where[t][1] \in InUse
          /\ where[t][2] <= Len(rows[where[t][1]])
          /\ rows[where[t][1]][where[t][2]].t = t
    /\ \A p \in DOMAIN rows : \A i \in DOMAIN rows[p] : where[rows[p][i].t] = <<p, i>> /\ rows[p][i].t \in alive
    \* a page is in one place: one archetype's list, or free and empty
    /\ \A p \in DOMAIN rows :
          /\ Len(rows[p]) <= (IF p \in InUse THEN Cap(archs[p2a[p]]) ELSE 0)
          /\ (p \in InUse) # (FirstPos(freePages, p) # 0)
    /\ Cardinality(InUse) + Len(freePages) = Len(rows)
    /\ \A a \in DOMAIN apages : \A i \in DOMAIN apages[a] :
          /\ p2a[apages[a][i]] = a
          /\ \A j \in DOMAIN apages[a] : apages[a][j] = apages[a][i] => i = j
          /\ pcap[apages[a][i]] = Cap(archs[a])
    \* a set of components is in the table once; an archetype is free iff it has no page
    /\ \A a, b \in DOMAIN archs : archs[a] = archs[b] => a = b
    /\ \A a \in DOMAIN archs : (FirstPos(freeArch, a) # 0) = (apages[a] = <<>>)
    /\ \A i, j \in DOMAIN freeArch : freeArch[i] = freeArch[j] => i = j
    \* pages do not pile up: beyond those of the start, at most one per living entity and one empty set of the first
    /\ Len(rows) <= MaxLive + 1 + (IF Pages0 > MaxLive THEN Pages0 ELSE MaxLive)

CheckView == <<archs, apages, freeArch, freePages, rows, p2a, where, alive, n>>

----------------------------------------------------------------------------
(* what can happen next does not depend on the names of pages and entities *)
View == <<archs, [a \in DOMAIN apages |-> [i \in DOMAIN apages[a] |-> Len(rows[apages[a][i]])]], freeArch, Len(freePages),
          Cardinality({t \in alive : where[t] = <<>>})>>
(* the living entities in the order of that description *)
RowToks(p) == [i \in DOMAIN rows[p] |-> rows[p][i].t]
PageToks(ps) == FlattenSeq([i \in DOMAIN ps |-> RowToks(ps[i])])
RECURSIVE Listed(_, _)
Listed(S, from) == IF from > n THEN <<>> ELSE (IF from \in S THEN <<from>> ELSE <<>>) \o Listed(S, from + 1)
Canon == FlattenSeq([a \in DOMAIN apages |-> PageToks(apages[a])]) \o Listed({t \in alive : where[t] = <<>>}, 1)
Named(o, c) ==     \* tokens of an operation by position
    IF o[1] \in {"d", "a", "a!", "r", "s"} THEN [o EXCEPT ![2] = FirstPos(c, @)] ELSE o
Perm(old, new) == [i \in DOMAIN new |-> FirstPos(old, new[i])]
Emit == PrintT(ToJson(<<"E", TLCFP(View), Named(op', Canon), TLCFP(View'), Perm(Canon, Canon')>>))
=============================================================================
