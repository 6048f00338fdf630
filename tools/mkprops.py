#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts live)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
S="src/store.rs";EC="src/entities_container.rs";AC="src/archetypes_container.rs";PG="src/archetype_data_page.rs"
LY="src/archetype_layout.rs";AR="src/archetype.rs";AB="src/archetype_builder.rs";CT="src/component_tuple.rs"
TG="src/tag_container.rs";OG="src/order_group_container.rs";RS="src/resource_store.rs";BV="src/bitvec_utils.rs";MU="src/mem_utils.rs"
QC="src/query/component.rs";QE="src/query/entity_component.rs";QO="src/query/ordered_component.rs";QA="src/query/access.rs";QP="src/query/component_page_iter.rs";QV="src/query/component_page_iter_view.rs"

p("C01","Entity handles are never reissued",
 "Every entity creation returns a handle that the same store has never returned before, and no two living entities share an id. For each id the versions handed out strictly increase, over any sequence of creations and destructions, however long, and any number of capacity growths.",
 ["histories","configurations"],"all interleavings of create/destroy (in any destroy order), any initial capacity",
 "Tests create at most a few entities and reuse one id once; the id recycling path (gap list versus high-water mark) has a history-dependent state the tests do not walk.",
 [EC,S],[("gap list / high-water mark","EntitiesContainer::create_entity/destroy_entity"),("version bump","EntitiesContainer::create_entity")],["Entity::id, Entity::version of the returned handles"],
 [("gap_ids","recycled ids",EC),("next_free_id","first never-used or trimmed id",EC)])
p("C02","Liveness is exact",
 "A handle is reported alive from the moment its entity is created until that very entity is destroyed, and never again afterwards. No other operation (creation or destruction of other entities, component, tag or order changes, capacity growth) changes the answer.",
 ["histories","configurations"],"all handles ever issued, after every operation of any history, across growth and the 32-entity word boundaries of the liveness bitmap",
 "Tests look at one or two handles right after one operation; they cross one growth and one bitmap word and never ask about old handles after id reuse at scale.",
 [EC,BV,MU,S],[("alive bit + version compare","EntitiesContainer::is_alive"),("bitmap growth","bitvec_utils::realloc")],["Store::is_alive"])
p("C03","A refused destroy changes nothing",
 "Destroying an entity that is not alive (already destroyed, or its id now used by another entity) is refused: in builds with debug assertions the call panics. After the refused call every entity, component value, tag and order group is exactly as before and the store keeps working.",
 ["histories","fault_sequences"],"any history followed by a destroy of any dead handle, followed by any continuation",
 "The two should_panic tests only check that a panic happens; they cannot look at the store afterwards.",
 [S,EC,AC],[("version validation before any mutation","Store::destroy_entity")],["panic/no panic of Store::destroy_entity","all read APIs afterwards"])
p("C04","Component sets are exact",
 "At any time the set of component types an entity has is exactly what its creation, component additions and component removals produced: additions unite, removals subtract, and nothing done to other entities changes it. The archetype report, presence of each component through lookups, and absence (including removing the last component, or removing absent ones) all agree with that set.",
 ["histories","inputs"],"all histories of create/create-with-archetype/add/remove/destroy over all subsets of the component types, with archetypes appearing, emptying and being recycled in any order",
 "Tests use at most two archetypes per store and never recycle archetype slots or remove all components.",
 [S,AC,AB,AR,"src/archetype_data_page_view.rs",CT],[("archetype slot recycling","ArchetypesContainer::reserve_archetype/free_page"),("archetype move","Store::move_entity_to_other_archetype")],["Store::get_entity_archetype","Store::get_components_refs","Store::is_valid_entity_with_archetype"],
 [("free_archetypes","archetype slots without pages",AC)])
p("C05","Component values persist",
 "Reading a component of a living entity returns the value last written to that component of that entity. Nothing else changes it: not changes to other components of the entity, not any operation on other entities (including destructions that compact storage), not growth or storage recycling.",
 ["histories","inputs"],"all histories of writes, archetype changes, destructions and re-creations, with pages filling up, emptying and being reused by other archetypes",
 "Tests check one swap-remove and one archetype move; values depend on page fill levels, page reuse and the combination of moves, which only long histories reach.",
 [S,AC,PG,LY,AR,CT],[("swap remove","ArchetypeDataPage::swap_remove_entity_at_index, Store::swap_remove_internal"),("row copy between archetypes","ArchetypeDataPage::copy_component_data_to_page_with_new_archetype")],["Store::get_components_refs / get_components_refs_mut"],
 [("entity_to_page/entity_to_index_in_page","location of an entity's row",S)])
p("C06","Component storage is disjoint, in bounds, aligned",
 "For all living entities at the same time, the memory of each component is suitably aligned for its type, lies completely inside memory the store owns, and overlaps no other component's memory. This holds for any mix of component sizes and alignments, any page fill level and any reuse of storage by a different component set; a component set whose row cannot be stored at all is refused by a panic instead of being stored, and a set of which every component fits in its equal share of a page is stored, whatever the alignments.",
 ["histories","inputs","configurations"],"all component sets (sizes, alignments) and all histories of storage reuse",
 "Tests use small components, so no page is ever filled, reused by another archetype, or given components aligned beyond 16 bytes.",
 [LY,PG,AC,MU],[("page capacity and offsets","ArchetypeLayout::calculate_entities_capacity/calculate_offsets"),("page capacity bookkeeping","ArchetypeDataPage::set_layout/has_free_space")],["addresses of the references returned by Store::get_components_refs"])
p("C07","Component queries are exact",
 "Iterating a component query over a set of component types visits every living entity whose component set includes all of them exactly once and nothing else, whatever the access mode. Each visited item refers to that entity's own current component values and the entity reported next to it is that entity's current handle.",
 ["histories","inputs"],"all component sets queried in every state of any history (empty pages, recycled archetypes and pages, several pages per archetype)",
 "Tests query two archetypes with one entity each and one archetype after three destructions.",
 [QC,QP,QV,QA,AC],[("page view collection","Store::component_query_iter"),("page iteration","ComponentsQueryIter::next, ComponentPageIter::next")],["items of Store::component_query_iter and with_entities"])
p("C08","Writes land only where they are aimed",
 "A write through any mutable access path (lookup, component addition, write and read-write iteration of component, entity-list and ordered queries) changes exactly the addressed components of the addressed entity. Every read path (lookup and all query kinds) then returns the new value, and no other component of any entity changes.",
 ["histories","inputs"],"all mutable access paths combined with all read paths, in any storage state",
 "The tests read back through one other path in one store state; cross-path agreement depends on offsets and row indices that vary with history.",
 [CT,QA,QC,QE,QO,S],[("offset tuples / pointer arithmetic","component_tuple.rs macro, query/access.rs"),("row index per entity","Store::set_index_in_page_unchecked")],["all read APIs after a write"])
p("C09","Tags are exact and independent",
 "A living entity has a tag exactly if the tag was added to it since its creation and not removed afterwards. Adding or removing one tag affects no other tag and no other entity, and adding twice or removing an absent tag is harmless; capacity growth preserves all tags.",
 ["histories","configurations"],"all histories of tag changes on several tags and entities with growth in between, tags first used before or after growth",
 "Tests use one entity and never grow the store while tags exist.",
 [TG,BV,S],[("tag bitmaps","TagContainer::add_tag/remove_tag/grow")],["Store::has_tag"])
p("C10","Tag-filtered iteration is exact",
 "Iterating a component query filtered by a tag visits exactly the entities the unfiltered query visits that currently have the tag, each once and with its own values. This holds for any number and arrangement of entities without the tag, and for a tag that no entity ever had (the result is then empty).",
 ["histories","inputs"],"all arrangements of tagged and untagged entities, including long untagged runs and never-used tags",
 "There is no test of filtered iteration at all.",
 [QC,TG,BV],[("filter iterator","FilterTagIter::next"),("tag bitmap lookup","TagContainer::has_tag_bitvec")],["items of with_entities().filter_tag()"])
p("C11","Order groups are sequences",
 "Each order group is at all times a finite sequence of distinct living entities: appending puts an entity last, inserting next to or previous to a member puts it directly after or before that member, removing or destroying an entity deletes just it. First, last, next and previous answers all describe that one sequence, groups are independent of each other, and growth does not disturb them.",
 ["histories","configurations"],"all histories of append/insert-after/insert-before/remove/destroy on several groups, with growth in between",
 "Tests cover three entities in one group with a handful of fixed sequences; the pointer updates have many head/tail/middle/both-ends cases and combinations.",
 [OG,MU,S],[("doubly linked lists with head/tail","OrderGroupContainer")],["Store::get_first/last/next/previous_entity_ordered_by"],
 [("head/tail/forward/backward links","list of each group",OG)])
p("C12","Order groups refuse corrupting insertions",
 "Inserting an entity that is already in the group (also when it is the only member), or inserting next or previous to an entity that is not in the group (also itself), is refused: in builds with debug assertions the call panics. After a refused insertion all order groups are exactly as before.",
 ["histories","fault_sequences"],"every invalid insertion in every reachable group state, followed by any continuation",
 "Two should_panic tests cover a middle member only and cannot look at the group afterwards.",
 [OG],[("membership assertions before mutation","OrderGroupContainer::assert_entity_has_no_order")],["panic/no panic","order queries afterwards"])
p("C13","Ordered queries follow the group order",
 "Iterating an ordered query visits exactly the members of the order group that have all queried components, in group order, each once, with its own values and, when asked, its own handle. Members without the components or without any components are skipped.",
 ["histories","inputs"],"all group orders over entities spread over pages and archetypes in any storage order, including members without components",
 "Tests use a single page per archetype and check the handles only for a single contiguous range.",
 [QO,OG,AC],[("range building","Store::ordered_query_iter"),("handle reconstruction","ordered_component::WithEntitiesIter::next")],["items and length of Store::ordered_query_iter, with_entities"])
p("C14","Entity-list queries follow the list",
 "Iterating an entity-list query visits, in list order, exactly the list positions whose handle is alive and has all queried components, with that entity's own values and that handle. Dead or stale handles, entities without the components or without any components, and repeated handles are handled position by position.",
 ["histories","inputs"],"all lists over live, stale, component-less and repeated handles in any storage state",
 "Tests use lists of live entities only.",
 [QE,S,AC],[("range building","Store::entity_component_query_iter")],["items of Store::entity_component_query_iter, with_entities"])
p("C15","Stale handles are inert",
 "After an entity is destroyed, its handle neither changes nor reveals anything about a later entity that reuses the id: component, tag and order reads report absence, and component, tag and order updates have no effect (now or on the next entity created with that id).",
 ["histories","inputs"],"every operation applied to every dead handle in any state, before and after id reuse",
 "Tests only check that a component lookup on a dead entity without id reuse returns nothing.",
 [S,TG,OG,EC],[("liveness guard of each operation","Store::is_alive")],["all read APIs on the stale handle and on the entity that reuses its id"])
p("C16","Resources are kept faithfully and dropped once",
 "A resource store returns for each live handle the value stored or last assigned under it, and release hands back exactly that value. Every value put in is dropped exactly once, by its owner after release or by the store when the store is dropped, over any history of creations, releases and growth, for any value type, and also when the destructor of one of the values panics.",
 ["histories","inputs","fault_sequences"],"all histories of create/index/assign/release/drop, all value types incl. zero-sized and heap-owning ones, any initial capacity, a destructor that panics while the store is dropped",
 "Tests hold one element, or 100 without releases; drop counts under id reuse and growth are not observed.",
 [RS,EC,MU],[("ManuallyDrop slots + liveness bitmap","ResourceStore::create/release/drop")],["Index/IndexMut, release result, drop counts"])
p("C17","Resource handles are fresh, stale use is refused",
 "Each resource creation returns a handle never returned before by that resource store. Using a released handle (index, assign, release) is refused with a panic in builds with debug assertions, even when its slot is used again, and changes nothing.",
 ["histories","fault_sequences"],"all histories of create/release with stale uses at any point",
 "No test uses a stale resource handle or reuses a slot.",
 [RS,EC],[("liveness assertion before access","ResourceStore::index/index_mut/release")],["panic/no panic","handles","values afterwards"])
p("C18","Archetypes behave as sets of types",
 "An archetype is the set of component types it was built from, whatever the order, repetition or route of construction (tuples, builder inclusion and exclusion, other archetypes, clones). Its count, membership, equality, inclusion, exclusion and exact-match answers are those of sets, for argument lists in any order and with repetitions, and equal sets hash equally. What an archetype or a component type tells about itself (sizes, alignments, names) is that of its types, and lists written with the public macros, in any crate, hold exactly the types written.",
 ["inputs","programs"],"all pairs of sets, construction routes, argument orders and repetitions",
 "Tests check four hand-picked pairs; the implementation relies on sorted type ids whose order the test author does not control.",
 [AR,AB,CT,"src/component_type.rs"],[("sorted id arrays + binary search","Archetype::*"),("builder set operations","ArchetypeBuilder")],["public Archetype/ArchetypeBuilder API"])
p("C19","Memory is returned, each block once and as allocated",
 "Dropping a store or resource store returns every byte it allocated, each block exactly once and with the size and alignment it was allocated with. No operation requests a zero-sized block or frees a block it does not own, over any history and any initial capacity.",
 ["histories","configurations"],"any history (growth, archetypes, tags, groups) ended by a drop at any point",
 "Tests never look at the allocator; a leak or a size mismatch is invisible to them.",
 [MU,BV,S,EC,TG,OG,RS,AR,LY,PG],[("alloc/dealloc pairs with tracked capacity","mem_utils, bitvec_utils, Drop impls")],["global allocator calls made by the crate"])
p("C20","Churn does not consume resources",
 "Ids in use always stay below the peak number of simultaneously living entities (not counting ids whose 2^32 versions are used up), and the entity capacity stays within twice that peak or the initial capacity. Repeating a cycle of creations, component changes, tag and order changes and destructions that returns to the same population keeps the memory held by the store bounded independently of the number of cycles.",
 ["histories"],"arbitrarily many repetitions of arbitrary cycles",
 "Tests never run a cycle twice.",
 [EC,AC,TG,OG],[("id recycling","gap_ids"),("page and archetype recycling","free_pages, free_archetypes")],["Entity::id, Store::entities_capacity, bytes held"])
p("C21","Capacity is invisible",
 "The initial capacity given to a store and the growth it goes through change no answer: the same history gives the same results for every initial capacity. The reported capacity starts at the requested value, never shrinks and always covers the living entities.",
 ["configurations","histories"],"every initial capacity from 1 up, every history",
 "Tests use three capacities with one or two operations each; parallel arrays of six containers must all grow consistently.",
 [S,EC,TG,OG,BV,MU],[("synchronised growth","Store::grow_entities_internal, EntitiesContainer::grow, TagContainer::grow, OrderGroupContainer::grow")],["all read APIs, Store::entities_capacity"])
p("C22","Query iterators keep the iterator protocol",
 "At every step of an iteration the reported length equals the number of items still to come, size hints never contradict it, and after the end the iterator keeps returning nothing. Pairing items with entities or not does not change the sequence of items.",
 ["histories","inputs"],"every query kind at every position of the iteration, in any storage state",
 "Tests read the length only before the first item.",
 [QC,QO,QE,QP],[("length bookkeeping","ExactSizeIterator impls")],["Iterator::next/size_hint, ExactSizeIterator::len"])
p("C23","Component tuples work position-wise at any arity",
 "For component tuples of every supported arity (1 to 12) and in any order of types, adding, removing, looking up and querying treat position i of the tuple as component type i: each value is stored under and read back as its own type. The order in which the types are written makes no difference to what is stored.",
 ["programs","inputs"],"all arities 1..12 and type orders, all component operations",
 "Tests use arities 1 and 2 in one order.",
 [CT,QA,AR],[("tuple macro","components_tuple_impl!")],["add/get/get_mut/remove/query with wide tuples"])
p("C24","Query objects carry no state",
 "Iterating with a query object that was used before, on this or another state of the store or on another store, and whether or not that iteration was finished, gives exactly what a new query object gives. Running a query does not change the store.",
 ["histories"],"every reuse pattern of query objects between arbitrary store changes",
 "Every test creates a new query object and uses it once.",
 [QC,QE,QO],[("cleared caches","component_query_iter / entity_component_query_iter / ordered_query_iter")],["items of repeated queries"])
p("C25","Recycled entities start blank",
 "An entity just created has exactly the components of the archetype it was created with (none by default), no tags and no order group membership, whatever the previous user of its id had. Destroying an entity removes it from every query, tag filter and order group at once.",
 ["histories"],"all histories in which ids are recycled after any combination of components, tags and orders",
 "Tests recycle one id once and look at its version only.",
 [S,TG,OG,EC],[("clean-up on destroy","Store::destroy_entity"),("archetype bit reset on create","Store::create_entity")],["all read APIs on the new entity"])
p("C26","References given out never alias and never outlive what they refer to",
 "Safe client code can never hold a mutable reference to a component of an entity, or to a resource, together with another live reference to it, and can never keep a reference, a query iterator or its items across a call that moves, replaces or frees what it refers to (destroying an entity, adding or removing components, creating or releasing resources, changing the list of handles or the query object, dropping the store); whatever one query gives out can be held at the same time, all mutable places being disjoint. Programs that would break this do not compile.",
 ["programs","schedules"],"all safe client programs and all contents of a store",
 "Which programs are refused is a matter of the signatures; a test can only run programs that compile.",
 [QC,QE,QO,S,CT,RS],[("borrow signatures","Store::component_query_iter and siblings, get_components_refs(_mut), Index/IndexMut of ResourceStore"),("raw pointers to references","ComponentQueryAccess::ptrs_to_refs")],["verdicts of the compiler","addresses of references held at the same time"])
p("C27","Derive macros accept exactly the valid shapes",
 "For types that are Clone and Copy, deriving Component compiles exactly for structs with at least one field and deriving Tag exactly for structs without fields, whatever the style (unit, tuple, named) and the types of the fields, attributes, visibility and the place of the derive; enums and unions are refused by both. An accepted type implements the trait.",
 ["programs"],"all struct, enum and union definitions",
 "Only accepted shapes occur in the test-suite; refusals are compile errors.",
 ["division_ecs_attributes/src/lib.rs"],[("field count check","derive_component, derive_tag")],["compiler result"])
p("C28","Calls touch only memory the store owns",
 "Whatever sequence of calls a store, a resource store or an archetype goes through, the library reads and writes only inside blocks it has allocated and not yet freed, and no answer depends on what fresh memory happened to contain: the same calls give the same answers whatever byte the allocator leaves in new blocks, and also when a block of memory handed out again still carries old contents.",
 ["histories","configurations"],"every history (growth, recycling, moves between archetypes, unions of archetypes, drops), every content of fresh memory",
 "A read past the end of a block or of a part nobody wrote usually finds harmless bytes in a test process; whether it does depends on the allocator and on the history.",
 [MU,EC,BV,PG,AR,OG,TG,RS],[("raw allocation and growth","mem_utils::realloc and callers"),("union of archetypes","Archetype::with_components / union"),("page buffers","ArchetypeDataPage")],["accesses outside of owned blocks (guard pages)","canaries around every block","answers under different fill bytes"])
p("C29","Stores are independent of each other and of where they live",
 "A store behaves as if it were alone: calls on other stores of the same program, interleaved in any way, and the creation and dropping of other stores never change what it answers or contains. Moving a store (returning it from a function, putting it in a box or a collection, swapping it with another) between any two calls changes nothing either.",
 ["histories","schedules"],"all interleavings of the histories of several stores, all places where a store is moved",
 "Tests use one store each, which lives in one local variable; anything shared (statics, caches keyed by type or id) or pointing into the store itself is invisible to them.",
 [S,EC,AC,TG,OG,RS],[("state of a store","fields of Store"),("ids of archetypes and pages","ArchetypesContainer")],["answers of several stores used alternately and moved between calls"])
p("C30","The same calls give the same answers, in the same order",
 "Two stores of the same capacity which get the same sequence of calls return the same results, entity ids and versions included, and every query gives its items in the same order, in this process or in another one: nothing depends on addresses, hash seeds or time.",
 ["histories","configurations"],"all histories, replayed in a second store at other addresses and in other builds",
 "Every test runs once in one store; a difference between two runs is invisible to it.",
 [S,EC,AC,QC,QO],[("choice of ids","EntitiesContainer::create_entity"),("choice of pages and rows","ArchetypesContainer"),("order of archetypes in a query","component_query_iter")],["handles and item order of two stores given the same calls"])
p("C31","Handles a store never gave out are refused",
 "A handle that a store never returned (the null handle, a handle of another store, whatever its id, inside or beyond the capacity, and whatever its version) reads nothing and changes nothing: it is not alive, has no archetype, components, tags or neighbours, entity-list queries skip it, and updates through it, also as the anchor of an insertion, have no effect. In builds with debug assertions destroying it and using it on a resource store panic; with them any call may also panic when the id is beyond the capacity.",
 ["histories","inputs","configurations"],"all histories x all handles not given out: null, ids up to and beyond the capacity, versions above those issued",
 "Tests use handles of their own store only; whether an id just behind the capacity or a version still to come is refused depends on the capacity and history, and reads outside of the arrays go unnoticed.",
 [EC,S,TG,OG,QE,RS],[("validity of a handle","EntitiesContainer::is_alive, validate_id"),("list queries","entity_component_query_iter"),("resource access","ResourceStore::index, release")],["answers of every call for handles never given out","state of the store afterwards","accesses outside of owned blocks"])
p("C32","A call that cannot get its memory never goes on without it",
 "When the allocator refuses memory during a call, or the requested capacity of a store or resource store needs more memory than can be addressed, the call does not go on with memory it does not have: the program ends through Rust's handling of allocation errors, or the call panics. Until then every call answers as if memory was plentiful.",
 ["histories","fault_sequences","inputs"],"all histories x every single allocation of them being refused, and all capacities whose bytes overflow",
 "In tests the allocator never refuses anything and capacities are small; an unchecked null pointer or a wrapped number of bytes is undefined behaviour nobody sees.",
 [S,EC,AC,TG,OG,RS,"src/mem_utils.rs"],[("allocation of arrays","mem_utils::alloc, alloc_zeroed, realloc, layout_of"),("pages","ArchetypeDataPage::new"),("growth","EntitiesContainer::grow, OrderGroupContainer, TagContainer, ResourceStore")],["how a call with a refused allocation ends","answers of the calls before it"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,x["id"]
print(len(P))
