------------------------------- MODULE TagBits -------------------------------
(* tag_container.rs and bitvec_utils.rs: a bitmap over entity ids per tag,   *)
(* made at the first use of the tag, grown with the store in whole words,    *)
(* kept as it is when the number of words stays the same; the block returned *)
(* at the end is described by the capacity of that moment. Ids come from Ids.*)
(* The filter of a query reads the bits of living entities.                  *)
(* Checked against Store (tags) by refinement.                               *)
EXTENDS Ids, FiniteSets, TLC, TLCExt, Json

CONSTANTS MaxId, MaxN, Tags, Cap0, Word, Bug

VARIABLES h, tok, n,    \* ids, id -> token of its living entity (0: none), entities so far
          tcap,         \* the capacity the tag container knows
          bm,           \* tag -> [words, bits], NoMap before the first use
          open,         \* the store exists
          op
vars == <<h, tok, n, tcap, bm, open, op>>

Ids0 == 0..MaxId
Alive == {i \in Ids0 : tok[i] # 0}
NoMap == [words |-> 0, bits |-> {}]
Words(c) == IF Bug = "ceil" THEN (c + Word - 2) \div Word ELSE c \div Word + 1

Init ==
    /\ h = IdsNew(Cap0)
    /\ tok = [i \in Ids0 |-> 0]
    /\ n = 0
    /\ tcap = Cap0
    /\ bm = [g \in Tags |-> NoMap]
    /\ open = TRUE
    /\ op = <<"new">>

(* realloc: copied to a block of the new size, the rest zero; nothing if the sizes are equal *)
Grown(b, old, new) ==
    IF b = NoMap THEN b
    ELSE IF (IF Bug = "samesize" THEN old \div Word = new \div (2 * Word) ELSE Words(old) = Words(new)) THEN b
    ELSE [words |-> Words(new), bits |-> IF Bug = "nocopy" THEN {} ELSE b.bits]

Create ==
    LET id == IdToTake(h) h2 == Take(h)
        grew == h2.cap # h.cap
    IN  /\ id <= MaxId
        /\ h' = h2
        /\ tok' = [tok EXCEPT ![id] = n + 1]
        /\ n' = n + 1
        /\ bm' = IF grew /\ Bug # "nogrow" THEN [g \in Tags |-> Grown(bm[g], tcap, h2.cap)] ELSE bm
        /\ tcap' = IF grew /\ Bug # "oldcap" THEN h2.cap ELSE tcap
        /\ op' = <<"c", id>>

(* an access outside of the words of the bitmap is an error *)
InMap(b, id) == id \div Word < b.words
Off(b, id) == IF b = NoMap THEN b
              ELSE [b EXCEPT !.bits = IF Assert(InMap(b, id), "outside") THEN @ \ {id} ELSE @]
On(b, id) == [b EXCEPT !.bits = IF Assert(InMap(b, id), "outside") THEN @ \cup {id} ELSE @]

Destroy(id) ==
    /\ id \in Alive
    /\ h' = Give(h, id)
    /\ tok' = [tok EXCEPT ![id] = 0]
    /\ bm' = IF Bug = "keeptags" THEN bm
             ELSE IF Bug = "firsttag" THEN [bm EXCEPT ![CHOOSE g \in Tags : TRUE] = Off(@, id)]
             ELSE [g \in Tags |-> Off(bm[g], id)]
    /\ UNCHANGED <<n, tcap>>
    /\ op' = <<"d", id>>

Add(g, id) ==
    /\ id \in Alive
    /\ bm' = [bm EXCEPT ![g] = On(IF @ = NoMap THEN [words |-> Words(tcap), bits |-> {}] ELSE @, id)]
    /\ UNCHANGED <<h, tok, n, tcap>>
    /\ op' = <<"t+", id, g>>

Remove(g, id) ==
    /\ id \in Alive
    /\ bm' = [bm EXCEPT ![g] = IF Bug = "toggle" /\ @ # NoMap /\ id \notin @.bits THEN On(@, id) ELSE Off(@, id)]
    /\ UNCHANGED <<h, tok, n, tcap>>
    /\ op' = <<"t-", id, g>>

(* the store is dropped: every block goes back with the size its capacity says *)
Drop ==
    /\ Assert(\A g \in Tags : bm[g] = NoMap \/ bm[g].words = Words(tcap), "returned with another size")
    /\ open' = FALSE
    /\ UNCHANGED <<h, tok, n, tcap, bm>>
    /\ op' = <<"end">>

Next ==
    /\ open
    /\ \/ Drop
       \/ /\ UNCHANGED open
          /\ \/ Create
             \/ \E id \in Alive : Destroy(id) \/ \E g \in Tags : Add(g, id) \/ Remove(g, id)

Spec == Init /\ [][Next]_vars
Bounded == n <= MaxN

----------------------------------------------------------------------------
Has(g, id) == bm[g] # NoMap /\ Assert(InMap(bm[g], id), "outside") /\ id \in bm[g].bits
S == INSTANCE Store WITH
        Groups <- {},
        n <- n,
        alive <- {tok[i] : i \in Alive},
        val <- [t \in 1..n |-> [c \in {} |-> 0]],
        tags <- [t \in 1..n |-> UNION {IF tok[i] = t THEN {g \in Tags : Has(g, i)} ELSE {} : i \in Alive}],
        order <- [c \in {} |-> 0]
AbsNext ==
    LET o == op' IN
    CASE o[1] = "c" -> S!Create([c \in {} |-> 0])
      [] o[1] = "d" -> S!Destroy(tok[o[2]])
      [] o[1] = "t+" -> S!SetTag(tok[o[2]], o[3], TRUE)
      [] o[1] = "t-" -> S!SetTag(tok[o[2]], o[3], FALSE)
      [] o[1] = "end" -> S!Nothing
Refines == S!StoreInit /\ [][AbsNext]_vars

(* the answer to every call is the one of Store: the bits of the living entities, read in any order *)
FilterRight == \A g \in Tags : {tok[i] : i \in {j \in Alive : Has(g, j)}} = S!Tagged(g)
Maps ==
    /\ tcap = h.cap
    /\ \A g \in Tags : bm[g] # NoMap => /\ bm[g].words = Words(tcap)
                                       /\ tcap <= bm[g].words * Word
                                       /\ bm[g].bits \subseteq Alive
----------------------------------------------------------------------------
CheckView == <<h, tok, n, tcap, bm, open>>
View == <<h, [i \in Ids0 |-> tok[i] # 0], tcap, bm, open>>
Emit == PrintT(ToJson(<<"E", TLCFP(View), op', TLCFP(View'), <<>>>>))
=============================================================================
