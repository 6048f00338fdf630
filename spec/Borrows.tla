------------------------------ MODULE Borrows ------------------------------
(* What a safe client may hold at the same time. Calls of the library give   *)
(* out references and iterators (results), each with what it gives access to *)
(* and what it relies on; calls change some of that. The borrow checker      *)
(* admits a call if the loans of the results that are still used allow it:   *)
(* Needs, Loan and NeedsOf are how the signatures of store.rs, query/*.rs    *)
(* and resource_store.rs tie a result to the store, the query object and the *)
(* list of handles. Sound is what has to come out, whatever the signatures.  *)
(* Every attempt of a call is a program; Emit prints it for the compiler.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS MaxLive,      \* results held at the same time
          Known,        \* pairs of kinds that are known to alias, as "a+b"
          Bug

QueryKinds == {"component", "list", "ordered"}
Modes == {"R", "W", "X"}                        \* read, write, read one component and write another
Forms(k) == {"iter", "ents", "item"} \cup (IF k = "component" THEN {"tagged"} ELSE {})

(* calls that give something out: kind, mode, form *)
Queries == UNION {[k : {k}, m : Modes, f : Forms(k)] : k \in QueryKinds}
Gets == [k : {"refs", "resource"}, m : {"R", "W"}, f : {"item"}] \cup [k : {"archetype"}, m : {"R"}, f : {"item"}]
Givers == Queries \cup Gets

(* calls that change the store of components or of resources *)
StoreChanges == {"create", "createwith", "destroy", "add", "remove", "tag", "untag", "order", "unorder", "drop", "move"}
ResourceChanges == {"rcreate", "rrelease", "rdrop"}
(* of the list or the query object of a result; the same query object used again; a copy of the result *)
OwnChanges == {"clearlist", "droplist", "dropquery", "requery", "clone"}

(* a call: something given out, or a change; i is the result whose list, query object or copy it is *)
Gives == [t : {"give"}, g : Givers]
Changes == [t : {"change"}, n : StoreChanges \cup ResourceChanges, i : {0}]
Owns(n) == [t : {"change"}, n : OwnChanges, i : 1..n]
Applies(L, c) ==
    c.t = "give" \/ c.i = 0
    \/ /\ c.n \in {"requery", "dropquery"} => L[c.i].k \in QueryKinds
       /\ c.n \in {"clearlist", "droplist"} => L[c.i].k = "list"
       /\ c.n = "clone" => L[c.i].f # "item"

(* programs that must not compile: references out of raw pointers without unsafe, a store shared by threads, *)
(* references kept in components and resources for longer than what they refer to                           *)
Forbidden == {"ptrs_read", "ptrs_write", "ptrs_both", "tuple_ptrs", "tuple_ptrs_mut", "view_new", "pages_iter", "entity_id",
              "share_store", "share_resources", "component_of_local", "resource_of_local", "resource_into_local",
              "store_local", "item_out_of_scope", "resource_out_of_scope", "list_local"}

----------------------------------------------------------------------------
(* the rule *)
Holder(g) == IF g.k = "resource" THEN "resources" ELSE IF g.k = "archetype" THEN "archetypes" ELSE "components"
GivesMut(g) == g.m # "R"
KnownPair(a, b) == (a.k \o "+" \o b.k) \in Known \/ (b.k \o "+" \o a.k) \in Known
SafeTwo(g, h) == Holder(g) = Holder(h) /\ (GivesMut(g) \/ GivesMut(h)) => KnownPair(g, h)

Relies(g) ==
    CASE g.k = "archetype" -> {"archetypes"}
      [] g.k = "resource" -> {"slots"}
      [] g.f = "item" -> {"rows"}
      [] OTHER -> {"rows", "tables", "store", "views"} \cup (IF g.k = "list" THEN {"handles"} ELSE {})
                  \cup (IF g.f = "tagged" THEN {"tags"} ELSE {})
(* what a call may move, replace or free *)
Effects(n) ==
    CASE n = "create" -> {"tables", "tags"}
      [] n = "createwith" -> {"tables", "tags", "archetypes"}
      [] n = "destroy" -> {"rows", "tables"}
      [] n \in {"add", "remove"} -> {"rows", "archetypes", "tables"}
      [] n = "drop" -> {"rows", "tables", "tags", "archetypes", "store"}
      [] n = "move" -> {"store"}
      [] n \in ResourceChanges -> {"slots"}
      [] n \in {"clearlist", "droplist"} -> {"handles"}
      [] n \in {"dropquery", "requery"} -> {"views"}
      [] OTHER -> {}

(* L: results that are still used after the call c *)
Sound(L, c) ==
    IF c.t = "give" THEN \A j \in 1..Len(L) : SafeTwo(L[j], c.g)
    ELSE IF c.i = 0 THEN \A j \in 1..Len(L) : Relies(L[j]) \cap Effects(c.n) = {}
    ELSE IF c.n = "clone" THEN ~GivesMut(L[c.i])
    ELSE Relies(L[c.i]) \cap Effects(c.n) = {} /\ (c.n = "requery" => \A j \in 1..Len(L) : SafeTwo(L[j], L[c.i]))

----------------------------------------------------------------------------
(* the signatures *)
Place(g) == IF g.k = "resource" THEN "R" ELSE "S"
Needs(g) ==             \* access to the store of components or resources, "sh" or "ex"
    IF g.m = "W" /\ ((g.k = "refs" /\ Bug # "refsshared") \/ (g.k = "resource" /\ Bug # "indexshared")) THEN "ex" ELSE "sh"
Loan(g) ==              \* what stays borrowed: store, query object, list of handles
    [s |-> IF Bug = "unbound" /\ g.f = "item" THEN "" ELSE Needs(g),
     q |-> g.k \in QueryKinds /\ Bug # "querynotheld",
     l |-> g.k = "list" /\ Bug # "listnotheld"]
NeedsOf(n) ==
    CASE n \in ResourceChanges -> [p |-> "R", s |-> IF Bug = "createshared" /\ n = "rcreate" THEN "sh" ELSE "ex"]
      [] n = "destroy" -> [p |-> "S", s |-> IF Bug = "destroyshared" THEN "sh" ELSE "ex"]
      [] OTHER -> [p |-> "S", s |-> "ex"]
Clash(have, want) == (have = "ex" /\ want # "") \/ (have = "sh" /\ want = "ex")
AdmitsTwo(g, h) == ~(Place(g) = Place(h) /\ Clash(Loan(g).s, Needs(h)))
Admits(L, c) ==
    IF c.t = "give" THEN \A j \in 1..Len(L) : AdmitsTwo(L[j], c.g)
    ELSE IF c.i = 0 THEN \A j \in 1..Len(L) : ~(NeedsOf(c.n).p = Place(L[j]) /\ Clash(Loan(L[j]).s, NeedsOf(c.n).s))
    ELSE CASE c.n = "clone" -> Bug = "clone" /\ L[c.i].f = "ents"
           [] c.n = "requery" -> ~Loan(L[c.i]).q /\ \A j \in 1..Len(L) : AdmitsTwo(L[j], L[c.i])
           [] c.n = "dropquery" -> ~Loan(L[c.i]).q
           [] OTHER -> ~Loan(L[c.i]).l

----------------------------------------------------------------------------
VARIABLES live,         \* the results that are still used
          last          \* the last call and whether the compiler takes it
vars == <<live, last>>
View == live

Init == live = <<>> /\ last = <<>>
Attempt(c) ==
    /\ Applies(live, c) = TRUE
    /\ LET ok == Admits(live, c) = TRUE
       IN /\ last' = <<c, ok>>
          /\ live' = IF c.t = "give" /\ ok /\ Len(live) < MaxLive THEN Append(live, c.g) ELSE live
End == live # <<>> /\ live' = Tail(live) /\ last' = <<>>
Next == (\E c \in Gives \cup Changes \cup Owns(Len(live)) : Attempt(c)) \/ End
Spec == Init /\ [][Next]_vars

(* what the client holds stays what it is *)
Held == \A i, j \in 1..Len(live) : i # j => SafeTwo(live[i], live[j])
OnlySound == [][last' # <<>> /\ last'[2] => Sound(live, last'[1])]_vars

Emit == last' = <<>> \/ live = <<>> \/ PrintT(ToJson(<<"E", live, last'[1], last'[2]>>))
=============================================================================
