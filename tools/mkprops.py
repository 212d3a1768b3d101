#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list lives here so that it is readable and diffable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=hook)))

prop("E01", "Every created entity is unique for the lifetime of its allocator",
 "Across any history of exclusive and shared (atomic) creations, exclusive and deferred deletions and merges on one allocator or world, no two creations ever return the same (index, generation) pair, and no two simultaneously live entities share an index. A generation is never zero, and each reuse of an index has a strictly larger generation than every earlier use of it. Two handles compare equal exactly if they come from the same creation, and order and hash agree with that.",
 ["histories"], "every sequence of create / create-atomically / delete / delete-atomically / merge, over live and stale handles, from empty and pre-populated allocators",
 "tests/entity.rs samples four short histories; uniqueness must hold for every history, including kill-of-atomic, kill-after-deferred-kill and reuse of free indexes through either creation path",
 ["src/entity.rs", "src/world.rs"],
 [("generation arithmetic (dead = -live, raised = dead+1)", "src/entity.rs Generation"), ("free index cache", "src/entity.rs EntityCache"), ("commit of atomic creations on kill/merge", "src/entity.rs Allocator::kill, merge_atomic")],
 [("generations", "per-index generation, sign = alive", "src/entity.rs"), ("cache", "free indexes, truncated by an atomic length", "src/entity.rs")],
 ["Allocator::allocate", "Allocator::allocate_atomic", "World::create_entity", "Entities::create"])
prop("E02", "Every liveness query agrees with the creation/deletion history",
 "After any history, an entity handle is reported alive exactly if it was created and has not since been deleted (immediately, or by a merge after a deferred deletion), and lookup by index, the live set, and iteration over live entities all report exactly those entities, each once, in ascending index order. Deleting or deferred-deleting a handle that is not alive returns an error and changes nothing; looking up an index with no live entity returns nothing, for every index value.",
 ["histories", "inputs"], "every operation sequence up to the bound, every live and stale handle, every index including those never allocated and beyond capacity",
 "the tests check is_alive in four histories only; never lookup by index, the live set or iteration, nor error paths leaving state unchanged",
 ["src/entity.rs", "src/world.rs"],
 [("union of committed and atomic live sets", "src/entity.rs live_bitset, entity"), ("generation comparison", "src/entity.rs is_alive")],
 [("alive/raised_atomic", "committed and uncommitted live indexes", "src/entity.rs")],
 ["Allocator::is_alive", "Allocator::entity", "Allocator::live_bitset", "join over the allocator / Entities", "kill / kill_atomic results"])
prop("E03", "Deferred deletions take effect exactly once, at the next merge",
 "A deferred deletion changes no liveness or component query until the next merge. That merge deletes exactly the entities with a deferred deletion that are still alive and reports each of them exactly once; an entity deleted immediately in between is not reported or deleted again, repeated deferred deletions count once, and atomically created entities without one stay alive with the same identity.",
 ["histories"], "every interleaving of create, atomic create, deferred delete (repeated), immediate delete and merge over a few entities",
 "tests cover two such histories; a request lost, applied to the next occupant of the index, or applied twice only shows in specific orders",
 ["src/entity.rs", "src/world.rs"],
 [("pending-kill set cleared on kill and merge", "src/entity.rs kill, merge_atomic"), ("merge commits creations before kills", "src/entity.rs merge_atomic")],
 [("killed_atomic", "indexes with a deferred deletion", "src/entity.rs")], ["Allocator::merge_atomic(&mut Vec)", "World::merge"])
prop("E04", "Concurrent entity creation, deletion and queries are race free",
 "When any number of threads create, deferred-delete, look up and iterate entities through a shared reference, in every interleaving each creation returns a distinct entity that is immediately alive to its creator and to any thread it is handed to, entities alive throughout are always found, stale handles are never alive, and no free index is lost or handed out twice. After the threads finish, a merge deletes exactly the requested entities and leaves exactly the other created and pre-existing ones alive.",
 ["schedules", "histories"], "every interleaving of the shared-memory steps of 2-3 threads running short programs of shared operations, from several starting histories",
 "no test uses more than one thread",
 ["src/entity.rs", "src/world.rs"],
 [("lock-free index counter and free-list length", "src/entity.rs atomic_increment, atomic_decrement, pop_atomic"), ("atomic bitsets", "src/entity.rs raised_atomic, killed_atomic")],
 [("index_len", "highest index ever allocated + 1", "src/entity.rs"), ("cache.len", "live prefix of the free list", "src/entity.rs")],
 ["Allocator::allocate_atomic", "kill_atomic", "entity", "join", "max_entity_count"])
prop("E05", "Entity indexes stay compact and within capacity",
 "A creation uses an index never used before only when no index freed by a completed deletion is available, the new index is then the smallest never used, and the reported maximum entity count is always one more than the largest index ever handed out. When the index space (2^24 indexes) or the generations of a freed index are exhausted, the creation that cannot be served fails by panicking and every existing entity can still be queried, deleted, merged and its index reused.",
 ["histories", "inputs"], "every bounded history over both creation paths; plus the exhaustion boundary",
 "no test looks at index values after reuse or anywhere near capacity",
 ["src/entity.rs"],
 [("free list popped by both creation paths", "src/entity.rs EntityCache"), ("index counter", "src/entity.rs allocate, atomic_increment")],
 [("cache/index_len", "free indexes; next fresh index", "src/entity.rs")], ["Entity::index", "Allocator::max_entity_count"])

prop("S01", "Component storage behaves as a map from index to value",
 "For every storage kind and every sequence of insert, overwrite, remove, read, write, get-or-insert, guarded access and clearing, the storage answers exactly as a map from index to value: membership, reads, writes, previous values returned by insert, removed values, and the set of occupied indexes. Operations on one index never affect the value at another index, whatever the order and spacing of indexes up to the capacity of 2^24; an index beyond capacity is refused by panicking without changing anything.",
 ["histories", "inputs"], "every operation sequence up to the bound over indexes straddling word, block and growth boundaries, for Vec, DenseVec, HashMap storages and their tracked wrappers",
 "one test inserts three values in two storages and joins them; removal, overwrite, relocation and growth are untested",
 ["src/masked.rs", "src/storage.rs", "src/tracked.rs"],
 [("presence mask guards unsafe raw access", "src/masked.rs MaskedStorage"), ("swap-remove relocation", "src/storage.rs DenseVecStorage::remove"), ("sparse growth", "src/storage.rs insert")],
 [("mask", "occupied indexes", "src/masked.rs")], ["MaskedStorage::insert/remove/get/get_mut/get_or_insert_with/get_guard/contains/mask"])
prop("S02", "Every component value is dropped exactly once, even when user code panics",
 "Every value handed to a storage or world is, at every moment, either stored and reachable, returned to the caller, or dropped exactly once; when the storage or world itself goes away every value still stored is dropped exactly once. This also holds when a component's destructor, an initialiser closure, a clone or a user's own raw storage (when asked to insert) panics at any point: nothing is dropped twice, no never-initialised slot is treated as a value, the remaining values of the same storage are still dropped, and values elsewhere are untouched.",
 ["histories", "fault_sequences"], "every operation sequence up to the bound, and for each one every position at which one user callback (initialiser, clone, default, destructor) panics",
 "tests/drop.rs drops one world of 100 identical components without any failure",
 ["src/masked.rs", "src/storage.rs", "src/world.rs", "src/any_components.rs"],
 [("drop guard continues after a panicking destructor", "src/masked.rs Drop"), ("mask says which slots are initialised", "src/masked.rs")],
 [("mask", "which raw slots hold a value", "src/masked.rs")], ["destructor counts of component values"])
prop("S03", "Dense storage slices hold exactly the stored values",
 "At every point of every history, the contiguous slice of a dense storage contains exactly the currently stored values, each once, and nothing else. Writing through the mutable slice changes exactly the value seen at the corresponding index afterwards.",
 ["histories"], "every insert / overwrite / remove sequence up to the bound over several indexes",
 "slice access is not tested at all; relocation on removal makes slice and index maps diverge only in specific removal orders",
 ["src/storage.rs", "src/masked.rs", "src/world.rs"],
 [("index<->slot tables maintained by insert and swap_remove", "src/storage.rs DenseVecStorage")], [("data/indexes", "index to slot and back", "src/storage.rs")], ["as_slice", "as_mut_slice"])
prop("S04", "Change tracking reports exactly the touched indexes",
 "With tracking on, the set of modified indexes is exactly those inserted, overwritten, mutably accessed, removed or explicitly marked since the last clear; reads, membership tests and guarded access that never asks for a mutable reference mark nothing. With tracking off only explicit marks are recorded and existing marks are kept, tracking starts off, and iterating the modified set (shared or mutable) yields, for each marked index in ascending order, its current value or nothing if it is no longer present.",
 ["histories"], "every sequence of storage operations, guard uses, joins, tracking toggles, marks and clears up to the bound",
 "tests/flagged.rs follows one script over 100 entities; on/off toggles, failed operations, removal without tracking and explicit marks are not covered",
 ["src/tracked.rs", "src/masked.rs", "src/world.rs"],
 [("flag set in mutable access paths", "src/tracked.rs Flagged"), ("guard defers mutable access", "src/masked.rs GuardedElement")], [("modified", "marked indexes", "src/tracked.rs"), ("tracking", "automatic marking on", "src/tracked.rs")],
 ["modified_indexes", "modified()", "modified_mut()", "guard()"])
prop("S05", "Concurrent mutable access loses no change marks",
 "When the elements of a tracked storage are mutated or explicitly marked from several threads at once (parallel iteration, guards, or marking through a shared reference), in every interleaving the modified set afterwards contains exactly the elements that were mutably accessed or marked.",
 ["schedules"], "every interleaving of 2-3 threads marking indexes in the same and different words and blocks, and of parallel joins over tracked storages",
 "no test marks from more than one thread",
 ["src/tracked.rs", "src/masked.rs", "src/par_join.rs"], [("marks through an atomic bitset", "src/tracked.rs get_mut, mark_modified")], [("modified", "marked indexes", "src/tracked.rs")], ["modified_indexes after the threads finish"])

prop("J01", "A join yields exactly the common elements, in order, each once",
 "Joining any combination of storages (shared, mutable, guarded, optional, modified), entities and bit sets (including negated, intersected, united and symmetric-difference sets) yields, in ascending index order and exactly once each, the items for precisely the indexes present in every non-optional member. Each yielded item is the member's own value for that index in the member's position, an optional member yields its value where present and nothing elsewhere, and writes through mutable items land on that index only.",
 ["inputs", "programs"], "every assignment of presence over an alphabet of indexes on layer boundaries to up to 5 members, for every member kind and tuple arity",
 "two tests join two storages on one data set; maybe, bit set operators, entities, mixed mutability and arity are untested",
 ["src/join.rs", "src/masked.rs", "src/entity.rs", "src/world.rs"],
 [("mask intersection over tuples", "src/join.rs define_join, define_bit_and"), ("optional members", "src/join.rs MaybeJoin")], (), ["IntoJoinExt::join", "join_unconstrained", "maybe"])
prop("J02", "A parallel join visits the same elements as the sequential one, once each",
 "For every set of joined members, every way the runtime may split the work and every interleaving of the workers, a parallel join hands out exactly the items the sequential join yields, each to exactly one worker, and an order-preserving collection gives ascending index order. No element is visible to two workers at once, so mutable parallel joins are free of data races.",
 ["inputs", "schedules"], "every work-splitting tree the producer permits and every worker interleaving for small index sets straddling all bit set layers",
 "one test runs one parallel join whose splitting and scheduling are whatever the thread pool happened to do",
 ["src/par_join.rs", "src/join.rs"], [("splittable producer over the mask", "src/par_join.rs JoinProducer")], (), ["ParJoinExt::par_join with for_each / map / collect"])
prop("J03", "Unbounded joins are refused and bounded joins are accepted",
 "A join whose mask is unconstrained by the documented rules (all-set: unconstrained; not: flips; and: constrained if either side is; or/xor: constrained only if both are; references as their target; optional members unconstrained) is refused before any element is produced, by panicking or by an error from the fallible constructor, sequentially and in parallel; every other join is accepted. For masks built without symmetric difference, the rule is exact: a join is accepted if and only if its index set does not depend on the size of the index space.",
 ["programs", "inputs"], "every mask expression up to a nesting depth over all bit set types and references, and every tuple of them",
 "one test evaluates nine fixed expressions, none through an actual join",
 ["src/join.rs", "src/par_join.rs"], [("recursive constraint rules", "src/join.rs BitSetConstrained"), ("check before iterating", "src/join.rs JoinIter::new")], (), ["is_constrained", "join", "JoinIter::new", "par_join", "JoinParIter::new"])

prop("R01", "Resource access obeys many-readers-or-one-writer and map semantics",
 "A resource container maps each type to at most one value: insert returns the previous value, remove returns the value, membership and exclusive access agree, and distinct types (including a resource and a component of the same type in a world) never interfere. Borrowing succeeds exactly when it does not conflict (shared with an outstanding exclusive borrow of the same value, or exclusive with any), otherwise it panics leaving no trace; releasing a borrow, also by unwinding, makes it available again; concurrently, in every interleaving, two conflicting borrows never coexist.",
 ["histories", "schedules"], "every sequence of insert/remove/borrow/release/fetch up to the bound on several types, and every interleaving of 2-3 borrowing threads",
 "one test fetches one non-conflicting tuple; no conflict, release, replacement or concurrency is exercised",
 ["src/resource_set.rs", "src/make_sync.rs", "src/world.rs"], [("atomic borrow cells keyed by type", "src/resource_set.rs")], [("resources", "type to cell map", "src/resource_set.rs")], ["ResourceSet / World insert, remove, contains, borrow*, get_mut, fetch"])
prop("R02", "Resource conflict detection and union are exact",
 "Two read/write resource sets conflict exactly if some resource is written by one and read or written by the other; the relation is symmetric and does not depend on the order or API by which the sets were built. A set's union with another accesses exactly what either accesses and writes exactly what either writes, and declaring a read never hides a write of the same resource.",
 ["inputs", "histories"], "every pair of sets reachable by every construction sequence up to the bound over a few resources",
 "one test builds four sets",
 ["src/resources.rs"], [("reads/writes sets and their normalisation", "src/resources.rs RwResources")], [("reads/writes", "declared accesses", "src/resources.rs")], ["conflicts_with", "union", "reads", "writes", "map"])
prop("R03", "Declared resource access matches what fetching actually borrows",
 "For every combination of fetchable handles (including nested tuples, empty fetches, entities, resources and components), the static check reports a conflict exactly if fetching the combination from a fully populated source panics, and otherwise the combination fetches successfully. Two combinations whose declared accesses do not conflict can always be held at the same time, and two that do conflict cannot; a failed fetch releases everything it had borrowed, and a fetch of something absent panics.",
 ["programs"], "every tuple up to the bound over an alphabet of fetchable handle types, and every pair of them",
 "one test checks one conflicting and one non-conflicting tuple",
 ["src/fetch_resources.rs", "src/resource_set.rs", "src/world.rs", "src/world_common.rs"], [("per-handle declaration and fetch", "src/world.rs, src/resource_set.rs FetchResources impls"), ("tuple union with conflict check", "src/fetch_resources.rs")], (), ["FetchResources::check_resources", "fetch"])

prop("Y01", "Composed systems run in the prescribed order and report every error",
 "Running any nesting of sequential and parallel groups (static or list-based) runs each member system at most once per run and passes it the run's arguments: members of a sequence run one after another in order and stop after the first failing member; all members of a parallel group run regardless of failures of the others, whatever order or overlap the pool chooses. The result is success exactly if no member that ran failed, and otherwise combines the errors of all failed members of parallel groups, each exactly once, in member order. A panic of a member reaches the caller and nothing that comes after it in a sequence runs. What happened in one run has no influence on later runs of the same group.",
 ["programs", "schedules", "fault_sequences"], "every tree of groups up to the bound, every assignment of failing members, every pool execution order and interleaving",
 "tests run two trees where no system fails or observes order",
 ["src/system.rs", "src/rayon_pool.rs"], [("Par/Seq/ParList/SeqList run", "src/system.rs"), ("pool join", "src/system.rs SeqPool, src/rayon_pool.rs")], (), ["System::run order of effects and result"])
prop("Y02", "Conflict checking of composed systems is exact",
 "Checking any nesting of sequential and parallel groups reports a conflict exactly if some member itself reports one or two different members of the same parallel group declare conflicting accesses (at any depth), and never because members of a sequence conflict with each other. When it succeeds it reports exactly the union of all accesses of all members.",
 ["programs"], "every tree up to the bound over a set of leaf access declarations, including leaves that report an internal conflict",
 "tests check three fixed trees",
 ["src/system.rs", "src/resources.rs"], [("recursive check and union", "src/system.rs check_resources impls")], (), ["System::check_resources"])
prop("Y03", "Automatic parallelization preserves order of conflicting systems",
 "For every list of systems, the parallelized schedule runs each system exactly once, never runs two systems with conflicting accesses concurrently or out of their original order, and only groups systems that are adjacent in the list. Groups are formed eagerly: a system joins the current group unless it conflicts with one of its members, systems reporting an internal conflict run alone and make the check of the result fail, and otherwise the check succeeds.",
 ["programs"], "every list up to the bound over a set of access declarations including internally conflicting ones, and every execution order of the pool",
 "one test parallelizes one list of six systems",
 ["src/system.rs"], [("greedy grouping", "src/system.rs parallelize")], (), ["parallelize(..).run / check_resources"])
prop("Y04", "Conflict-free parallel systems never collide and equal a sequential run",
 "Whenever the conflict check accepts a composed system over a world or resource container holding everything it declares, running it on a parallel pool never panics on a borrow conflict and never lets two systems access the same value with one of them writing, in any interleaving. Unless a system observes the entities another one creates at the same time, the final resources, components and live entities are those of some sequential execution that respects the sequences, whichever schedule occurred.",
 ["schedules", "programs"], "every accepted tree up to the bound over reading/writing/entity-creating leaves, every interleaving of the parallel branches",
 "no test runs systems in parallel over shared data",
 ["src/system.rs", "src/world.rs", "src/resource_set.rs", "src/rayon_pool.rs"], [("declared conflicts", "src/resources.rs"), ("borrow cells", "src/resource_set.rs")], (), ["System::run with a parallel pool over &World / &ResourceSet"])

prop("W01", "Components belong to one entity and die with it",
 "In every history, a component is visible through an entity handle exactly if it was inserted for that very entity and neither removed, nor its entity deleted, nor its storage unregistered since; deleting an entity (immediately or at merge) removes its components from every registered storage by the time the deletion returns. A later entity reusing the index starts with no components, and components of all other entities are untouched.",
 ["histories"], "every sequence of create, delete (both kinds), merge, component insert/remove, register/unregister up to the bound over several entities and component types",
 "the tests never delete an entity and look at its components or reuse its index",
 ["src/world.rs", "src/masked.rs", "src/entity.rs"], [("per-storage removal callbacks", "src/world.rs remove_components"), ("killed list from merge", "src/world.rs merge")], [("remove_components", "cleanup callback per registered type", "src/world.rs")], ["World::read_component/write_component get/contains/mask", "joins with entities"])
prop("W02", "A dead handle can neither see nor change any component",
 "For a handle that is not alive, every component access reports absence or a wrong-generation error and has no effect, even when another live entity occupies the same index with components; for a live handle the access behaves as on a map keyed by entity, including entities created atomically and not yet merged or with a pending deferred deletion.",
 ["histories", "inputs"], "every component operation with every live, stale and foreign handle in every reachable small world state",
 "no test uses a dead handle with a component storage",
 ["src/world.rs"], [("liveness check in every accessor", "src/world.rs ComponentAccess")], (), ["get, get_mut, get_guard, get_or_insert_with, get_or_default, insert, remove, contains, mark_modified"])
prop("W03", "Registering and unregistering components and resources is self-consistent",
 "Registering a component gives an empty storage and returns the previous one with exactly its contents if there was one; unregistering returns the storage and makes the component absent; both leave all other components, resources and entities untouched, and later deletions and merges work for whatever is registered at that time. Accessing an unregistered component or absent resource panics and changes nothing.",
 ["histories"], "every sequence of register/unregister/insert/remove/delete/merge up to the bound over several component and resource types",
 "tests register each type once and never unregister",
 ["src/world.rs", "src/resource_set.rs"], [("callback and storage registered together", "src/world.rs insert_component, remove_component")], [("components/resources", "separate namespaces", "src/world.rs")], ["World::insert_component/remove_component/contains_component/insert_resource/remove_resource/contains_resource"])
prop("W04", "Parallel world use followed by merge leaves a consistent world",
 "When several threads share a world and create and delete entities while one of them attaches or reads components, then in every interleaving each thread's own effects hold immediately, and after the following merge exactly the surviving entities are alive with exactly the components attached to them and deleted entities have left no components behind.",
 ["schedules", "histories"], "every interleaving of 2-3 threads with short programs of entity and component operations on one world, followed by merge and index reuse",
 "no test shares a world between threads",
 ["src/world.rs", "src/entity.rs", "src/masked.rs"], [("atomic entity operations with deferred cleanup", "src/world.rs Entities, merge")], (), ["World state after merge"])

prop("A01", "Dynamic component sets behave as type-keyed maps and apply faithfully",
 "A dynamic component set holds at most one value per component type and its insert, get, get_mut, contains, remove, len and merge behave as on a map keyed by type, merge letting the merged-in values win and reporting whether any was replaced. Inserting a set into a world attaches exactly its values to the given live entity and reports whether any existing component was replaced; on a dead entity a non-empty set returns an error and attaches nothing; cloning from a clonable set leaves that set usable and unchanged.",
 ["histories"], "every operation sequence up to the bound on both set kinds over several component types, applied to entities with every combination of existing components",
 "one test inserts two types once; return values, merge, remove and dead entities are unchecked",
 ["src/any_components.rs"], [("type-erased components keyed by type id", "src/any_components.rs")], [("components", "type id to boxed component", "src/any_components.rs")], ["AnyComponentSet", "AnyCloneComponentSet"])
prop("T01", "Safe client programs cannot alias or share values unsoundly",
 "No client program using only the safe interface compiles if it would hold a mutable reference to a component or resource value while holding any other reference to the same value, let a reference outlive what it refers to, move a value that may not be moved between threads to another thread, or access from two threads at once a value that may not be shared. Client programs that hold only shared references, or mutable references to distinct elements, or that use values permitting the cross-thread access, do compile.",
 ["programs"], "every program of a bounded grammar: all ordered pairs of reference-producing operations on one storage/world, all operations x value kinds (sendable/shareable or not)",
 "tests contain only programs that are supposed to compile",
 ["src/masked.rs", "src/storage.rs", "src/join.rs", "src/par_join.rs", "src/make_sync.rs", "src/resource_set.rs", "src/world.rs", "src/any_components.rs"],
 [("lifetimes on returned references", "src/masked.rs"), ("Send/Sync bounds on access methods and unsafe impls", "src/storage.rs, src/make_sync.rs, src/world.rs, src/resource_set.rs")], (), ["accept/reject verdict of the compiler, aliasing of accepted programs"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
