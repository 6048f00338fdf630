------------------------------- MODULE Queries -------------------------------
(* query/*.rs: how the three kinds of queries are carried out over pages of  *)
(* rows. A configuration (entities with component sets, some of them         *)
(* destroyed; pages filled in creation order, rows moved into the holes) is  *)
(* chosen at the start, then the query object is filled (its old contents    *)
(* are junk), then the iterator is advanced, with its position and length.   *)
(* Checked against the operators of Store.                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, TLCExt, Json

CONSTANTS N, M,         \* entities created, and created after some of those were destroyed (heirs of their ids)
          Lists,        \* longest list of a list query
          Rows,         \* rows of a page (of a set of two types: half of it)
          Each,         \* one of so many configurations is reported
          Kinds,        \* of "c" component, "l" list, "o" ordered queries
          Bug

VARIABLES cls,          \* token -> class: 0 no components, 1 {1}, 2 {2}, 3 {1,2}
          dead,         \* tokens of the first N destroyed after those were created
          w,            \* the store: ids, pages, occupants
          kind, Q,      \* the query: its kind and component types
          list,         \* list query: handles; ordered query: the group
          filter,       \* component query: tokens with the tag; All: not filtered
          views,        \* query object: sequence of [page, from, to] (list query: positions in the list)
          pc, range, off, len, out, ended
vars == <<cls, dead, w, kind, Q, list, filter, views, pc, range, off, len, out, ended>>

I == INSTANCE Ids
Toks == 1..(N + M)
All == 0..N                     \* no filter
SetOf(c) == CASE c = 0 -> {} [] c = 1 -> {1} [] c = 2 -> {2} [] c = 3 -> {1, 2}
CapOf(c) == IF c = 3 THEN Rows \div 2 ELSE Rows

----------------------------------------------------------------------------
(* the store before the query: [h: ids, id: token -> id, pages: sequence of [c, rows]; c = 0: a free page] *)
Room(z, c) == {p \in DOMAIN z.pages : z.pages[p].c = c /\ Len(z.pages[p].rows) < CapOf(c)}
Put(z, t) ==
    LET c == cls[t]
        i == I!IdToTake(z.h)
        z1 == [z EXCEPT !.h = I!Take(@), !.id = Append(@, i)]
        p == CHOOSE x \in Room(z, c) : \A y \in Room(z, c) : y <= x
    IN  IF c = 0 THEN z1
        ELSE IF Room(z, c) = {} THEN [z1 EXCEPT !.pages = Append(@, [c |-> c, rows |-> <<t>>])]
        ELSE [z1 EXCEPT !.pages[p].rows = Append(@, t)]
Drop(z, t) ==
    LET z1 == [z EXCEPT !.h = I!Give(@, z.id[t])]
        p == CHOOSE x \in DOMAIN z.pages : \E i \in DOMAIN z.pages[x].rows : z.pages[x].rows[i] = t
        r == z.pages[p].rows
        i == CHOOSE j \in DOMAIN r : r[j] = t
        k == Len(r)
        r2 == IF i < k THEN [SubSeq(r, 1, k - 1) EXCEPT ![i] = r[k]] ELSE SubSeq(r, 1, k - 1)
    IN  IF cls[t] = 0 THEN z1
        ELSE [z1 EXCEPT !.pages[p] = [c |-> IF r2 = <<>> /\ z.pages[p].c # z.pages[1].c THEN 0 ELSE @.c, rows |-> r2]]
RECURSIVE PutAll(_, _, _), DropAll(_, _)
PutAll(z, a, b) == IF a > b THEN z ELSE PutAll(Put(z, a), a + 1, b)
DropAll(z, D) == IF D = {} THEN z
                 ELSE LET t == CHOOSE x \in D : \A y \in D : x <= y IN DropAll(Drop(z, t), D \ {t})
Built(D) == TLCEval(PutAll(DropAll(PutAll([h |-> I!IdsNew(1), id |-> <<>>, pages |-> <<>>], 1, N), D), N + 1, N + M))

(* the tables are by id: <<page, row>> of who has it now *)
NoPlace == <<0, 0>>
User(i) == IF \E t \in Toks \ dead : w.id[t] = i THEN CHOOSE t \in Toks \ dead : w.id[t] = i ELSE 0
PlaceOf(t) ==
    IF t = 0 \/ cls[t] = 0 THEN NoPlace
    ELSE CHOOSE x \in {<<p, i>> : p \in DOMAIN w.pages, i \in 1..Rows} :
            x[2] <= Len(w.pages[x[1]].rows) /\ w.pages[x[1]].rows[x[2]] = t
Place(t) == PlaceOf(User(w.id[t]))
ClassAt(t) == LET u == User(w.id[t]) IN IF u = 0 THEN 0 ELSE cls[u]

----------------------------------------------------------------------------
HasArch(t) == ClassAt(t) # 0
Includes(t) == HasArch(t) /\ Q \subseteq SetOf(ClassAt(t))
Valid(t) == t \notin dead /\ HasArch(t)
SamePage(x, y) == Place(x)[1] = Place(y)[1]

(* component query: the pages of matching archetypes that are not empty *)
CompViews ==
    LET ps == SelectSeq([p \in DOMAIN w.pages |-> p],
                        LAMBDA p : /\ Q \subseteq SetOf(w.pages[p].c)
                                   /\ w.pages[p].rows # <<>> \/ Bug = "emptypages")
    IN [i \in DOMAIN ps |-> [page |-> ps[i], from |-> 1, to |-> Len(w.pages[ps[i]].rows)]]

(* list query: runs of handles in one page *)
RECURSIVE RunEnd(_), ListViews(_)
RunEnd(j) ==            \* first position after the run, j: a position in it plus 1
    IF j > Len(list) THEN j
    ELSE IF (IF Bug = "innerdead" THEN ~HasArch(list[j]) ELSE ~Valid(list[j])) THEN j
    ELSE IF (IF Bug = "innerpage" THEN ClassAt(list[j]) # ClassAt(list[j - 1]) ELSE ~SamePage(list[j], list[j - 1])) THEN j
    ELSE RunEnd(j + 1)
ListViews(i) ==
    IF i > Len(list) THEN <<>>
    ELSE IF ~(Valid(list[i]) /\ Includes(list[i]))
    THEN ListViews(IF Bug = "skiprun" THEN RunEnd(i + 1) ELSE i + 1)
    ELSE <<[page |-> Place(list[i])[1], from |-> i, to |-> RunEnd(i + 1) - 1]>> \o ListViews(RunEnd(i + 1))

(* ordered query: runs of neighbouring rows of one page *)
RECURSIVE RowsEnd(_, _), OrdViews(_)
RowsEnd(j, row) ==      \* j: position in the group of the next member; row: the row after the run
    IF j > Len(list) THEN <<j, row>>
    ELSE IF \/ ~HasArch(list[j])
            \/ ~SamePage(list[j], list[j - 1]) /\ Bug # "anypage"
            \/ Place(list[j])[2] # row /\ ~(Bug = "upward" /\ Place(list[j])[2] > row)
         THEN <<j, row>>
         ELSE RowsEnd(j + 1, row + 1)
OrdViews(i) ==
    IF i > Len(list) THEN <<>>
    ELSE IF ~HasArch(list[i]) \/ ~Includes(list[i]) THEN OrdViews(i + 1)
    ELSE LET p == Place(list[i])
             e == RowsEnd(i + 1, p[2] + 1)
             at == IF Bug = "nextpage" /\ e[1] <= Len(list) /\ HasArch(list[e[1]]) THEN Place(list[e[1]]) ELSE p
         IN <<[page |-> at[1], from |-> p[2], to |-> e[2] - 1]>> \o OrdViews(e[1])

Filled == CASE kind = "c" -> CompViews [] kind = "l" -> ListViews(1) [] kind = "o" -> OrdViews(1)
RowCount(vs) == IF vs = <<>> THEN 0 ELSE LET RECURSIVE Sum(_)
                                            Sum(i) == IF i = 0 THEN 0 ELSE vs[i].to - vs[i].from + 1 + Sum(i - 1)
                                        IN Sum(Len(vs))

----------------------------------------------------------------------------
(* what Store says *)
val == [t \in Toks |-> IF t \in dead THEN [c \in {} |-> 0] ELSE [c \in SetOf(cls[t]) |-> 0]]
S == INSTANCE Store WITH
        Groups <- {}, n <- N + M, alive <- Toks \ dead, val <- val,
        tags <- [t \in Toks |-> IF t \in filter THEN {1} ELSE {}], order <- <<list>>

Right == CASE kind = "l" -> S!ListResult(list, Q)
           [] kind = "o" -> S!OrderedResult(1, Q)
           [] kind = "c" -> <<>>                    \* any order
RightSet == IF filter = All THEN S!Matching(Q) ELSE S!Matching(Q) \cap S!Tagged(1)
Total == IF kind = "c" THEN Cardinality(S!Matching(Q)) ELSE Len(Right)

----------------------------------------------------------------------------
Seqs(k) == UNION {[1..m -> Toks] : m \in 0..k}
Distinct(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j

Init ==
    /\ TLCSet(1, 0)
    /\ cls \in [Toks -> 0..3]
    /\ dead = {} /\ w = <<>> /\ kind = "" /\ Q = {} /\ list = <<>> /\ filter = All
    /\ views = <<>>
    /\ pc = "build" /\ range = 1 /\ off = 0 /\ len = 0 /\ out = <<>> /\ ended = 0

Build ==
    /\ pc = "build"
    /\ dead' \in SUBSET (1..N)
    /\ w' = Built(dead')
    /\ pc' = "choose"
    /\ UNCHANGED <<cls, kind, Q, list, filter, views, range, off, len, out, ended>>

Choose ==
    /\ pc = "choose"
    /\ pc' = "fill"
    /\ kind' \in Kinds
    /\ Q' \in {{1}, {1, 2}}                         \* by symmetry of the types
    /\ list' \in IF kind' = "c" THEN {<<>>} ELSE Seqs(Lists)
    /\ kind' = "o" => (Distinct(list') /\ \A i \in DOMAIN list' : list'[i] \notin dead) = TRUE
    /\ filter' \in IF kind' = "c" THEN {All} \cup SUBSET (Toks \ dead) ELSE {All}
    /\ views' = <<[page |-> 0, from |-> 1, to |-> 1]>>         \* of an earlier use
    /\ UNCHANGED <<cls, dead, w, range, off, len, out, ended>>

Fill ==
    /\ pc = "fill"
    /\ pc' = "go"
    /\ views' = TLCEval(IF Bug = "noclear" THEN views \o Filled ELSE Filled)
    /\ len' = IF Bug = "lenviews" THEN Len(views') ELSE RowCount(views')
    /\ UNCHANGED <<cls, dead, w, kind, Q, list, filter, range, off, out, ended>>

(* the row of the range at the iterator *)
RowAt(v, k) == IF kind = "l" THEN Place(list[v.from + k])[2] ELSE v.from + k
TokAt(v, k) ==          \* -1: not a row of the page
    LET r == RowAt(v, k) IN IF r \in DOMAIN w.pages[v.page].rows THEN w.pages[v.page].rows[r] ELSE -1

(* one step of the unfiltered iterator: <<token or 0, range, off, len>> *)
Advance(r, o, l) ==
    IF r > Len(views) THEN <<0, r, o, l>>
    ELSE IF views[r].page = 0 THEN <<-1, r + 1, 0, l - 1>>
    ELSE IF views[r].to < views[r].from THEN <<0, r + 1, 0, l>>      \* an empty page ends the iteration
    ELSE IF views[r].from + o >= views[r].to
    THEN <<TokAt(views[r], o), r + 1, IF Bug = "offkept" THEN o ELSE 0, l - 1>>
    ELSE <<TokAt(views[r], o), r, o + 1, l - 1>>

RECURSIVE Find(_)
Find(a) == IF a[1] \in {0, -1} \/ filter = All \/ a[1] \in filter THEN a
           ELSE IF Bug = "filterstops" THEN <<0, a[2], a[3], a[4]>>
           ELSE Find(Advance(a[2], a[3], a[4]))

Take ==
    /\ pc = "go"
    /\ LET a == Find(Advance(range, off, len))
       IN  /\ range' = a[2] /\ off' = a[3] /\ len' = a[4]
           /\ out' = IF a[1] = 0 THEN out ELSE Append(out, a[1])
           /\ ended' = IF a[1] = 0 THEN ended + 1 ELSE 0
           /\ pc' = IF a[1] = 0 /\ ended = 1 THEN "done" ELSE "go"
    /\ UNCHANGED <<cls, dead, w, kind, Q, list, filter, views>>

Next == Build \/ Choose \/ Fill \/ Take
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* the iteration ends with exactly the right items, and says how many are to come *)
Result ==
    pc = "done" =>
        IF kind = "c" THEN {out[i] : i \in DOMAIN out} = RightSet /\ Len(out) = Cardinality(RightSet)
        ELSE out = Right
Length == pc = "go" /\ filter = All => len = (IF kind = "c" THEN Total - Len(out) ELSE Len(Right) - Len(out)) /\ len >= 0
Places ==
    pc = "choose" => \A x \in Toks \ dead : HasArch(x) =>
        Place(x) # NoPlace /\ w.pages[Place(x)[1]].rows[Place(x)[2]] = x /\ w.pages[Place(x)[1]].c = cls[x]
Stays == [][ended > 0 => out' = out]_vars

(* some of the configurations, to be carried out on the real store *)
Emit ==
    pc' # "fill" \/
    (/\ Each > 0
     /\ TLCSet(1, TLCGet(1) + 1)
     /\ TLCGet(1) % Each = 0 =>
            PrintT(ToJson(<<"E", N, cls, dead, kind', Q', list', IF filter' = All THEN <<>> ELSE <<filter'>>>>))
     /\ FALSE)
=============================================================================
