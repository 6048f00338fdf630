--------------------------------- MODULE Ids ---------------------------------
(* How entities_container.rs hands out ids, as operators over a record       *)
(* [next, gaps, cap]: a counter, a stack of freed ids below it, a capacity   *)
(* that doubles. Used by the implementation-shaped modules.                  *)
EXTENDS Integers, Sequences

IdsNew(cap) == [next |-> 0, gaps |-> <<>>, cap |-> cap]

IdToTake(h) == IF h.gaps # <<>> THEN h.gaps[Len(h.gaps)] ELSE h.next
MaxOf(a, b) == IF a > b THEN a ELSE b
GrownCap(c) == MaxOf(c, 1) * 2
Take(h) ==
    IF h.gaps # <<>> THEN [h EXCEPT !.gaps = SubSeq(@, 1, Len(@) - 1)]
    ELSE [h EXCEPT !.next = @ + 1, !.cap = IF h.next >= @ THEN GrownCap(@) ELSE @]
Give(h, id) ==
    IF id = h.next - 1 THEN [h EXCEPT !.next = id]
    ELSE [h EXCEPT !.gaps = Append(@, id)]
=============================================================================
