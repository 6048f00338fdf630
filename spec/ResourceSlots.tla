---------------------------- MODULE ResourceSlots ----------------------------
(* resource_store.rs: an array of slots beside the ids of entities_container;*)
(* a slot holds a value, or bytes that must not be dropped: never written, or*)
(* moved out. Growing copies all slots as bytes. Dropping the store drops the*)
(* slots of the living ids. Ids come from Ids.                               *)
(* Checked against Resources by refinement.                                  *)
EXTENDS Ids, FiniteSets, TLC, TLCExt, Json

CONSTANTS MaxId, MaxN, Cap0, Bug

VARIABLES h, tok, n,
          slot,         \* array of values (token, writes so far); 0: nothing; the bytes of a value moved out stay
          writes,       \* id -> number of assignments of the present user, for fresh values
          dropped,      \* values dropped by the store, as a bag: value -> how often
          open, op
vars == <<h, tok, n, slot, writes, dropped, open, op>>

Ids0 == 0..MaxId
Alive == {i \in Ids0 : tok[i] # 0}
Nothing == <<0, 0>>

Init ==
    /\ h = IdsNew(Cap0)
    /\ tok = [i \in Ids0 |-> 0] /\ n = 0
    /\ slot = [i \in 0..(Cap0 - 1) |-> Nothing]
    /\ writes = [i \in Ids0 |-> 0]
    /\ dropped = {}
    /\ open = TRUE
    /\ op = <<"new">>

Store(c) == [i \in 0..(c - 1) |-> IF i \in DOMAIN slot /\ (Bug = "copyshort" => i < h.cap - 1) THEN slot[i] ELSE Nothing]

(* dropping a value is recorded; a second drop of the same value is an error, and so is dropping nothing *)
Dropping(d, v) == IF Assert(v # Nothing /\ v \notin d, <<"dropped wrongly", v>>) THEN d \cup {v} ELSE d

Create ==
    LET id == IdToTake(h) h2 == Take(h)
        s == IF h2.cap # h.cap THEN Store(h2.cap) ELSE slot
    IN  /\ id <= MaxId
        /\ h' = h2
        /\ tok' = [tok EXCEPT ![id] = n + 1]
        /\ n' = n + 1
        /\ slot' = [s EXCEPT ![id] = <<n + 1, 0>>]
        /\ writes' = [writes EXCEPT ![id] = 0]
        \* an assignment instead of a raw write would drop what was there
        /\ dropped' = IF Bug = "assigns" THEN Dropping(dropped, s[id]) ELSE dropped
        /\ UNCHANGED open
        /\ op' = <<"n", id>>

Assign(id) ==           \* store[e] = v drops the value that was there
    /\ id \in Alive
    /\ writes[id] < 1
    /\ writes' = [writes EXCEPT ![id] = @ + 1]
    /\ slot' = [slot EXCEPT ![id] = <<tok[id], writes[id] + 1>>]
    /\ dropped' = Dropping(dropped, slot[id])
    /\ UNCHANGED <<h, tok, n, open>>
    /\ op' = <<"w", id>>

Release(id) ==          \* the value moves out to the caller, who owns (and here drops) it
    /\ id \in Alive
    /\ h' = Give(h, id)
    /\ tok' = [tok EXCEPT ![id] = 0]
    /\ dropped' = LET d == Dropping(dropped, slot[id]) IN IF Bug = "takekeeps" THEN Dropping(d, slot[id]) ELSE d
    /\ UNCHANGED <<n, slot, writes, open>>
    /\ op' = <<"x", id>>

Refused(id, back) ==    \* a handle released before
    /\ id \notin Alive
    /\ id \in DOMAIN slot /\ slot[id] # Nothing
    /\ UNCHANGED <<h, tok, n, slot, writes, dropped, open>>
    /\ op' = <<"?", id, back>>

RECURSIVE DropAll(_, _)
DropAll(d, ids) ==
    IF ids = {} THEN d
    ELSE LET i == CHOOSE x \in ids : TRUE IN DropAll(Dropping(d, slot[i]), ids \ {i})
(* the destructor of one of the values may panic (fault: its id, or -1): the rest is dropped while unwinding *)
Close(fault) ==
    /\ fault = -1 \/ fault \in Alive
    /\ dropped' = DropAll(dropped, IF Bug = "faultstops" /\ fault # -1 THEN {i \in Alive : i <= fault}
                                   ELSE IF Bug = "dropall" THEN DOMAIN slot
                                   ELSE IF Bug = "dropgaps" THEN 0..(h.next - 1)
                                   ELSE IF Bug = "dropfew" THEN {i \in Alive : i < h.next - Len(h.gaps)}
                                   ELSE Alive)
    /\ open' = FALSE
    /\ tok' = [i \in Ids0 |-> 0]
    /\ UNCHANGED <<h, n, slot, writes>>
    /\ op' = <<"end", fault>>

Next == open /\ (Create \/ (\E f \in {-1} \cup Ids0 : Close(f)) \/ \E id \in Ids0 : Assign(id) \/ Release(id) \/ Refused(id, 0))
Spec == Init /\ [][Next]_vars
Bounded == n <= MaxN

----------------------------------------------------------------------------
(* no value is lost: it is overwritten or left behind only after it was dropped *)
NoneLost == [][\A i \in DOMAIN slot : slot[i] # Nothing /\ (i \notin DOMAIN slot' \/ slot'[i] # slot[i]) => slot[i] \in dropped']_vars
AllDropped == ~open => /\ \A i \in DOMAIN slot : slot[i] # Nothing => slot[i] \in dropped
                       /\ \A t \in 1..n : <<t, 0>> \in dropped
NotEarly == \A i \in Alive : slot[i] \notin dropped /\ slot[i][1] = tok[i]
Slots == DOMAIN slot = 0..(h.cap - 1)

R == INSTANCE Resources WITH
        m <- n,
        held <- {tok[i] : i \in Alive},
        value <- [t \in 1..n |-> <<>>],     \* values: NotEarly, and the recorded executions
        open <- open
Refines == R!ResInit /\ [][LET o == op' IN
                           CASE o[1] = "n" -> R!Put(<<>>)
                             [] o[1] = "w" -> R!Assign(tok[o[2]], <<>>)
                             [] o[1] = "x" -> R!Release(tok[o[2]])
                             [] o[1] = "end" -> R!Close
                             [] OTHER -> UNCHANGED R!resVars]_vars
----------------------------------------------------------------------------
CheckView == <<h, tok, n, slot, writes, dropped, open>>
View == <<h, [i \in Ids0 |-> tok[i] # 0], [i \in DOMAIN slot |-> slot[i] # Nothing], writes, open>>
Emit == PrintT(ToJson(<<"E", TLCFP(View), op', TLCFP(View'), <<>>>>))
=============================================================================
