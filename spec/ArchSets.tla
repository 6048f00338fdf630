------------------------------ MODULE ArchSets ------------------------------
(* archetype.rs, archetype_builder.rs: component sets as sequences of type   *)
(* ids, sorted when they are built; questions are answered by binary search  *)
(* and by walking two sequences. Types are numbers in the order of their     *)
(* ids. Checked against sets.                                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Types, MaxList, Bug

VARIABLES bs,           \* the builder's component types
          X, Y,         \* archetypes built, <<>>: none
          op
vars == <<bs, X, Y, op>>

Has(s, c) == \E i \in DOMAIN s : s[i] = c
FirstPos(s, c) == CHOOSE i \in DOMAIN s : s[i] = c /\ \A j \in 1..(i - 1) : s[j] # c
Without(s, c) == IF Has(s, c) THEN LET i == FirstPos(s, c) IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)) ELSE s
RECURSIVE Include(_, _), Exclude(_, _)
Include(s, l) == IF l = <<>> THEN s
                 ELSE Include(IF Has(s, Head(l)) /\ Bug # "dup" THEN s ELSE Append(s, Head(l)), Tail(l))
Exclude(s, l) == IF l = <<>> THEN s
                 ELSE IF Bug = "excludestops" /\ ~Has(s, Head(l)) THEN s
                 ELSE Exclude(Without(s, Head(l)), Tail(l))
Sorted(s) == IF Bug = "unsorted" THEN s ELSE SortSeq(s, LAMBDA a, b : a < b)

Lists == UNION {[1..k -> Types] : k \in 0..MaxList}

Init == bs = <<>> /\ X = <<>> /\ Y = <<>> /\ op = <<"new">>
New == bs' = <<>> /\ op' = <<"bnew">> /\ UNCHANGED <<X, Y>>
Inc(l) == bs' = Include(bs, l) /\ op' = <<"+", l>> /\ UNCHANGED <<X, Y>>
Exc(l) == bs' = Exclude(bs, l) /\ op' = <<"-", l>> /\ UNCHANGED <<X, Y>>
Arc == X # <<>> /\ bs' = Include(bs, X) /\ op' = <<"arc">> /\ UNCHANGED <<X, Y>>
(* the builder keeps its types, sorted *)
Build ==
    /\ bs # <<>>
    /\ bs' = Sorted(bs)
    /\ X' = Sorted(bs) /\ Y' = X
    /\ op' = <<"build">>
Refused == bs = <<>> /\ op' = <<"build!">> /\ UNCHANGED <<bs, X, Y>>
Next == New \/ Arc \/ Build \/ Refused \/ \E l \in Lists : Inc(l) \/ Exc(l)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
RECURSIVE Search(_, _, _, _)
Search(s, c, lo, hi) ==         \* position of c in s[lo..hi], 0: not found
    IF lo > hi THEN 0
    ELSE LET m == (lo + hi) \div 2
         IN IF s[m] = c THEN m ELSE IF s[m] < c THEN Search(s, c, m + 1, hi) ELSE Search(s, c, lo, m - 1)
Find(s, c) == Search(s, c, 1, Len(s))

IsIncludeIds(s, l) == \A i \in DOMAIN l : Find(s, l[i]) # 0
IsIncludeOnlyIds(s, l) ==
    IF Bug = "onlycount" THEN Len(s) = Len(l) /\ IsIncludeIds(s, l)
    ELSE (\A i \in DOMAIN s : Has(l, s[i])) /\ IsIncludeIds(s, l)
RECURSIVE Merge(_, _, _, _)
Merge(s, l, i, j) ==            \* the exclusion by a walk over both
    IF i > Len(s) \/ j > Len(l) THEN TRUE
    ELSE IF s[i] = l[j] THEN FALSE
    ELSE IF s[i] < l[j] THEN Merge(s, l, i + 1, j) ELSE Merge(s, l, i, j + 1)
IsExcludeIds(s, l) == IF Bug = "merge" THEN Merge(s, l, 1, 1) ELSE \A i \in DOMAIN l : Find(s, l[i]) = 0
IsSame(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : s[i] = t[i]

(* positions of the common types in s and t: the longer one outside *)
Union(s, t) ==
    LET long == IF Len(s) > Len(t) THEN s ELSE t
        short == IF Len(s) > Len(t) THEN t ELSE s
        RECURSIVE Inner(_, _)
        Inner(o, i) == IF i > Len(short) \/ (IF Bug = "breakless" THEN short[i] < long[o] ELSE short[i] > long[o]) THEN <<>>
                       ELSE (IF short[i] = long[o] THEN <<<<o, i>>>> ELSE <<>>) \o Inner(o, i + 1)
        RECURSIVE Outer(_)
        Outer(o) == IF o > Len(long) THEN <<>> ELSE Inner(o, 1) \o Outer(o + 1)
        u == Outer(1)
    IN  [i \in DOMAIN u |-> IF Len(s) > Len(t) \/ Bug = "unionswap" THEN u[i] ELSE <<u[i][2], u[i][1]>>]

----------------------------------------------------------------------------
(* the same as sets *)
R(s) == {s[i] : i \in DOMAIN s}
Unique(s) == Len(s) = Cardinality(R(s))
Sets ==
    [][LET o == op' IN
       CASE o[1] = "+" -> R(bs') = R(bs) \cup R(o[2])
         [] o[1] = "-" -> R(bs') = R(bs) \ R(o[2])
         [] o[1] = "arc" -> R(bs') = R(bs) \cup R(X)
         [] o[1] = "build" -> R(X') = R(bs) /\ R(bs') = R(bs) /\ Y' = X
         [] OTHER -> TRUE]_vars
OneEach == Unique(bs) /\ Unique(X) /\ \A i \in 1..(Len(X) - 1) : X[i] < X[i + 1]
Answers ==
    X # <<>> =>
        /\ \A c \in Types : (Find(X, c) # 0) = (c \in R(X)) /\ (c \in R(X) => X[Find(X, c)] = c)
        /\ \A l \in Lists :
            /\ IsIncludeIds(X, l) = (R(l) \subseteq R(X))
            /\ IsIncludeOnlyIds(X, l) = (R(l) = R(X))
            /\ IsExcludeIds(X, l) = (R(l) \cap R(X) = {})
Pairs ==
    X # <<>> /\ Y # <<>> =>
        /\ IsSame(X, Y) = (R(X) = R(Y))
        /\ LET u == Union(X, Y)
           IN  /\ Len(u) = Cardinality(R(X) \cap R(Y))
               /\ \A i \in DOMAIN u : u[i][1] \in DOMAIN X /\ u[i][2] \in DOMAIN Y /\ X[u[i][1]] = Y[u[i][2]]
               /\ R([i \in DOMAIN u |-> X[u[i][1]]]) = R(X) \cap R(Y)

CheckView == <<bs, X, Y>>
View == <<bs, X, Y>>
Emit == PrintT(ToJson(<<"E", ToString(View), op', ToString(<<bs', X', Y'>>), <<>>>>))
=============================================================================
