------------------------------- MODULE Layout -------------------------------
(* archetype_layout.rs: how many rows of a set of components a page holds,   *)
(* and where the components of a page begin; rows are added until the page   *)
(* is full. All sets of up to MaxTypes components with all sizes and         *)
(* alignments, in every order (the order of the type ids is arbitrary).      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Page,         \* bytes of a page, which is also its alignment
          MaxTypes,
          Aligns,       \* powers of two
          Ptr,          \* bytes of a pointer
          MaxSize,
          Bug

VARIABLES comps,        \* sequence of [s |-> size, a |-> alignment], in the order of their type ids
          layout,       \* <<>> not made; [cap |-> 0, at |-> <<>>] refused
          used          \* rows in the page
vars == <<comps, layout, used>>

Kinds == {k \in [s : 1..MaxSize, a : Aligns] : k.s % k.a = 0}
K == Len(comps)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Up(x, a) == ((x + a - 1) \div a) * a

Capacity ==
    LET share == IF Bug = "nocount" THEN Page
                 ELSE (Page \div K) - (MaxOf({comps[i].a : i \in 1..K}) % Ptr)
    IN  IF Bug = "maxcap" THEN MaxOf({share \div comps[i].s : i \in 1..K})
        ELSE IF Bug = "firstcap" THEN share \div comps[1].s
        ELSE MinOf({share \div comps[i].s : i \in 1..K})

(* from the greatest alignment to the least one no gaps are needed *)
Order ==
    IF Bug \in {"byid", "noalign", "unchecked"} THEN [i \in 1..K |-> i]
    ELSE SetToSortSeq(1..K, LAMBDA x, y : comps[x].a > comps[y].a \/ (comps[x].a = comps[y].a /\ x < y))

RECURSIVE Offsets(_, _, _, _)
Offsets(i, o, cap, acc) ==      \* <<offset by component, end>>
    IF i > K THEN <<acc, o>>
    ELSE LET c == Order[i]
             at == IF Bug = "noalign" THEN o ELSE Up(o, comps[c].a)
             rows == IF Bug = "onerow" THEN 1 ELSE IF Bug = "rowless" THEN cap - 1 ELSE cap
         IN Offsets(i + 1, at + comps[c].s * rows, cap, [acc EXCEPT ![c] = at])

Init == comps = <<>> /\ layout = <<>> /\ used = 0

Include == layout = <<>> /\ Len(comps) < MaxTypes /\ \E k \in Kinds : comps' = Append(comps, k) /\ UNCHANGED <<layout, used>>

Make ==
    /\ layout = <<>> /\ K > 0
    /\ LET cap == Capacity
           o == Offsets(1, 0, cap, [i \in 1..K |-> 0])
       IN layout' = IF cap = 0 \/ (o[2] > Page /\ Bug # "unchecked") THEN [cap |-> 0, at |-> <<>>] ELSE [cap |-> cap, at |-> o[1]]
    /\ UNCHANGED <<comps, used>>

AddRow == layout # <<>> /\ used < layout.cap /\ used' = used + 1 /\ UNCHANGED <<comps, layout>>

Next == Include \/ Make \/ AddRow
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* the bytes of component i of row r *)
From(i, r) == layout.at[i] + (r - 1) * comps[i].s
To(i, r) == From(i, r) + comps[i].s - 1

Made == layout # <<>> /\ layout.cap > 0
(* Only the newest row is new, every earlier one was checked against those before it *)
InPage == Made => \A i \in 1..K : used > 0 => From(i, used) >= 0 /\ To(i, used) < Page
Aligned == Made => \A i \in 1..K : used > 0 => From(i, used) % comps[i].a = 0
Disjoint == Made => \A i, j \in 1..K : \A r \in 1..used :
                        <<i, used>> # <<j, r>> => (used > 0 => To(i, used) < From(j, r) \/ To(j, r) < From(i, used))
(* refused only if a component is greater than its equal share of the page, less what a pointer takes *)
MustFit == \A i \in 1..K : comps[i].s <= (Page \div K) - Ptr
Accepted == layout # <<>> /\ MustFit => layout.cap > 0
=============================================================================
