------------------------------- MODULE Store -------------------------------
(* The abstract entity store: what a user of division_ecs may rely on.       *)
(*                                                                           *)
(* Entities are the numbers 1..n in creation order ("tokens"): a token stands*)
(* for one handle, so a recycled id is a new token. Every public operation is*)
(* one action; refused calls are actions too (they change nothing). Query    *)
(* results are operators over the state. There are no pages, ids, lists of   *)
(* gaps or capacities here: the implementation-shaped modules (Handles,      *)
(* Pages, OrderLinks, ...) are checked against this one by refinement, and   *)
(* the recorded executions of the real code by StoreTrace.                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

CONSTANTS Groups            \* order groups

VARIABLES n,                \* number of entities created so far
          alive,            \* tokens of the living entities
          val,              \* token -> (component -> value); the domain is the component set
          tags,             \* token -> set of tags
          order             \* group -> sequence of tokens

storeVars == <<n, alive, val, tags, order>>

NoComps == [c \in {} |-> 0]

StoreInit ==
    /\ n = 0
    /\ alive = {}
    /\ val = <<>>
    /\ tags = <<>>
    /\ order = [g \in Groups |-> <<>>]

(* values vs given for the component list ids (position-wise) *)
Fn(ids, vs) == [c \in ToSet(ids) |-> vs[CHOOSE i \in DOMAIN ids : ids[i] = c]]
Over(f, old) == [c \in DOMAIN f \cup DOMAIN old |-> IF c \in DOMAIN f THEN f[c] ELSE old[c]]
Less(old, S) == [c \in DOMAIN old \ S |-> old[c]]

----------------------------------------------------------------------------
(* Reading *)

Comps(t) == IF t \in alive THEN DOMAIN val[t] ELSE {}
Has(t, S) == t \in alive /\ S # {} /\ S \subseteq DOMAIN val[t]
Matching(S) == {t \in alive : Has(t, S)}
Tagged(g) == {t \in alive : g \in tags[t]}
ValuesOf(t, ids) == [i \in DOMAIN ids |-> val[t][ids[i]]]
OrderedResult(g, S) == SelectSeq(order[g], LAMBDA t : Has(t, S))
ListResult(list, S) == SelectSeq(list, LAMBDA t : Has(t, S))

InGroup(g, t) == \E i \in DOMAIN order[g] : order[g][i] = t
Pos(g, t) == CHOOSE i \in DOMAIN order[g] : order[g][i] = t
FirstOf(g) == IF order[g] = <<>> THEN 0 ELSE order[g][1]
LastOf(g) == IF order[g] = <<>> THEN 0 ELSE order[g][Len(order[g])]
NextOf(g, t) == IF ~InGroup(g, t) \/ Pos(g, t) = Len(order[g]) THEN 0 ELSE order[g][Pos(g, t) + 1]
PrevOf(g, t) == IF ~InGroup(g, t) \/ Pos(g, t) = 1 THEN 0 ELSE order[g][Pos(g, t) - 1]

----------------------------------------------------------------------------
(* Changing *)

Create(f) ==
    /\ n' = n + 1
    /\ alive' = alive \cup {n + 1}
    /\ val' = Append(val, f)
    /\ tags' = Append(tags, {})
    /\ UNCHANGED order

Destroy(t) ==
    /\ t \in alive
    /\ alive' = alive \ {t}
    /\ val' = [val EXCEPT ![t] = NoComps]
    /\ tags' = [tags EXCEPT ![t] = {}]
    /\ order' = [g \in Groups |-> SelectSeq(order[g], LAMBDA x : x # t)]
    /\ UNCHANGED n

AddComps(t, f) ==
    /\ t \in alive
    /\ val' = [val EXCEPT ![t] = Over(f, @)]
    /\ UNCHANGED <<n, alive, tags, order>>

RemoveComps(t, S) ==
    /\ t \in alive
    /\ val' = [val EXCEPT ![t] = Less(@, S)]
    /\ UNCHANGED <<n, alive, tags, order>>

(* a write through references: only present components *)
Write(t, f) ==
    /\ Has(t, DOMAIN f)
    /\ val' = [val EXCEPT ![t] = Over(f, @)]
    /\ UNCHANGED <<n, alive, tags, order>>

SetTag(t, g, on) ==
    /\ t \in alive
    /\ tags' = [tags EXCEPT ![t] = IF on THEN @ \cup {g} ELSE @ \ {g}]
    /\ UNCHANGED <<n, alive, val, order>>

SetOrder(g, s) == order' = [order EXCEPT ![g] = s] /\ UNCHANGED <<n, alive, val, tags>>

CanAppend(g, t) == t \in alive /\ ~InGroup(g, t)
OrderAppend(g, t) == CanAppend(g, t) /\ SetOrder(g, Append(order[g], t))

CanPlace(g, t, a) == t \in alive /\ a \in alive /\ ~InGroup(g, t) /\ InGroup(g, a)
OrderNextTo(g, t, a) == CanPlace(g, t, a) /\ SetOrder(g, InsertAt(order[g], Pos(g, a) + 1, t))
OrderPrevTo(g, t, a) == CanPlace(g, t, a) /\ SetOrder(g, InsertAt(order[g], Pos(g, a), t))
OrderRemove(g, t) == t \in alive /\ SetOrder(g, SelectSeq(order[g], LAMBDA x : x # t))

Nothing == UNCHANGED storeVars      \* refused calls, calls with dead handles, all reads

----------------------------------------------------------------------------
(* What must hold in every reachable state *)

StoreTypeOK ==
    /\ n \in Nat
    /\ alive \subseteq 1..n
    /\ Len(val) = n /\ Len(tags) = n
    /\ \A t \in 1..n : t \notin alive => val[t] = NoComps /\ tags[t] = {}

OrdersOK ==
    \A g \in Groups :
        LET members == ToSet(order[g])
        IN  members \subseteq alive /\ Cardinality(members) = Len(order[g])

=============================================================================
