#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
R = "src/cache/internal.rs"; C = "src/cache.rs"; B = "src/blueprint.rs"; K = "src/canning.rs"
U = "src/utils.rs"; D = "src/diagnostics/mod.rs"; T = "src/diagnostics/textual.rs"; V = "src/diagnostics/visgraph.rs"
P = []
def p(id, title, st, over, qt, why, files, mech, state=None, obs=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": qt},
              "why_tests_cant": why, "anchors": a})

ART = ("artifacts", "cached artifacts by builder id", R)
DYN = ("dyn_states", "dynamic states by builder id", R)
DTS = ("dependents", "builder id -> ids of the builders that used its artifact", R)
DCS = ("dependencies", "reverse of dependents", R)
LEAF = ("known_leaf_builder", "known builders without dependents (garbage collection candidates)", R)
KNOWN = ("known_builders", "weak references to every builder that occurs anywhere", R)
HIST = "The tests drive a dozen fixed histories on graphs of at most four builders; the claim is about every history of calls on every dependency graph."

p("C01", "A cached artifact is returned as is; builders run exactly once, on a miss",
  "Whenever an artifact of a builder is stored in the cache, every way of getting or resolving it (by Bin, by reference, by mutable reference, cloned) yields that very artifact without running any builder. When it is not stored, the builder's build method is run exactly once and the artifact it produced is both stored under that builder (and no other) and returned. A stored artifact is never replaced or dropped by merely getting or resolving artifacts (apart from the dependents of an artifact that is accessed mutably).",
  ["histories", "programs"], "for every reachable cache content, every promise and every accessor of Cache and Resolver, on hit and miss paths, with builders that resolve anything",
  HIST, [R, C], [("RawCache::get, get_ref, get_mut, get_cloned, build", R), ("Cache::get*, Resolver::resolve*", C)], [ART], ["Cache::get*", "Resolver::resolve*"])
p("C02", "Invalidation reaches every transitive dependent artifact",
  "After invalidating or purging a builder, or obtaining mutable access to its dynamic state, neither its artifact nor the artifact of any builder that directly or transitively used it is left in the cache. After obtaining mutable access to an artifact, no artifact of a builder that directly or transitively used it is left. No artifact is ever dropped from the cache in any operation while an artifact that was built from it remains cached.",
  ["histories", "inputs"], "for every dependency graph (any shape, depth and sharing, including builders whose last build failed), every target and every operation of the public API",
  HIST + " A lost edge in one branch of the traversal only shows for particular diamond or chain shapes and set iteration orders.", [R, C],
  [("RawCache::invalidate_by_id, invalidate_dependents", R), ("RawCache::invalidate, purge, dyn_state_mut, lookup_mut, get_mut", R)], [ART, DTS, DCS], ["Cache::invalidate, purge, dyn_state_mut, lookup_mut, get_mut"])
p("C03", "Invalidation removes nothing but the target's and its dependents' artifacts",
  "Invalidating a builder, or taking mutable access to its dynamic state or artifact, removes only artifacts of that builder and of builders that directly or transitively used it; artifacts of its own dependencies and of unrelated builders stay cached. It never removes or resets the dynamic state of any builder and never makes a builder unknown; purging a builder does so for that builder only.",
  ["histories", "inputs"], "for every dependency graph, every target and every invalidating operation",
  HIST, [R, C], [("RawCache::invalidate_by_id, invalidate_dependents, purge", R)], [ART, DYN, DTS, DCS])
p("C04", "Every resolution during a build is recorded as a dependency",
  "Whenever a builder resolves another builder during its build, through any of the resolver's accessors and whether the artifact was already cached, is built now, or fails to build, the resolving builder is from then on invalidated together with the resolved one (until it is itself invalidated). The dependency is recorded between exactly these two builders, in that direction, and before the resolved builder is run.",
  ["histories", "programs"], "for every builder program (any sequence of resolver calls), every cache content and each resolver accessor in every feature configuration",
  "Tests use builders that resolve one or two dependencies through the plain accessor; hit, miss and failure paths of each accessor in each configuration are not combined.", [C, R],
  [("Resolver::resolve, resolve_ref, resolve_cloned, track_dependency", C), ("RawCache::track_dependency", R)], [DTS, DCS])
p("C05", "A failed build caches nothing and reports the builder's own error",
  "When a builder's build returns an error, every accessor returns exactly that error value to its caller, no artifact is stored for that builder, and a later request runs the builder again. The failure removes nothing: artifacts and dynamic states that were stored before or built meanwhile stay stored, and an error is returned only if the builder that was asked for returned one.",
  ["fault_sequences", "histories"], "for every failing builder at every position of the graph and every accessor",
  "Tests cover one failing leaf and one accessor; failures in the middle of a graph, repeated failures and the other accessors are not reached.", [R, C, U],
  [("RawCache::build and the get family", R)], [ART, DYN])
p("C06", "Dynamic state is created once, kept, and mutable access drops the artifact",
  "A builder's dynamic state is created by its own initializer exactly once, at latest before its build runs, and the same value is then presented by every state accessor and to the builder itself until the builder is purged, the cache cleared or the builder garbage collected. Mutable access from outside removes the builder's artifact (and its dependents') before the state is handed out, while shared access removes nothing. During a build a builder gets mutable access to its own state only.",
  ["histories", "programs"], "for every cache content, every builder and every history of state accesses, builds, failures and invalidations",
  HIST, [R, C], [("RawCache::ensure_dyn_state, dyn_state, dyn_state_mut, get_dyn_state, dyn_state_cast_mut/ref", R), ("Resolver::my_state", C)], [DYN, ART])
p("C07", "Lookups never build, initialise or add anything",
  "Looking up an artifact in any form, reading an existing dynamic state, asking whether a builder is known and counting the known builders never run any user builder code, never initialise a dynamic state and never add anything to the cache. They yield the stored value of the given builder exactly if one is stored (a builder being known exactly if the cache tracks it), and except for the mutable lookup they change nothing at all.",
  ["histories", "inputs"], "for every cache content and promise (known, unknown, purged)",
  "Absence of effects on all paths is a universal claim; tests only look at return values.", [R, C],
  [("RawCache::lookup, lookup_ref, lookup_mut, lookup_cloned, contains_artifact, is_builder_known, get_dyn_state, number_of_known_builders", R)], [ART, DYN, KNOWN])
p("C08", "Purging removes every trace of the builder",
  "After purging a builder its artifact, its dynamic state and the cache's weak reference to it are gone, it is no longer known nor counted, and it takes part in no recorded dependency, so that all later operations behave as if it had never been used. Purging a builder that is not known has no effect on what is cached.",
  ["histories", "inputs"], "for every cache content and every purged builder, followed by any further operation (including garbage collection)",
  "Left-over traces surface only in later operations (a garbage collection, a re-used allocation address), which tests of purge do not run.", [R, C], [("RawCache::purge", R)], [ART, DYN, KNOWN, LEAF, DTS, DCS])
p("C09", "Clearing clears everything it promises, and new caches are empty",
  "Clearing all artifacts removes every artifact and every recorded dependency but keeps every dynamic state and every known builder, all of which are then candidates for garbage collection. Clearing everything leaves a cache indistinguishable from a new one. Every way to construct a cache yields an empty one (with the given Doctor, where one is given).",
  ["histories", "configurations"], "for every cache content and each constructor in every feature configuration",
  HIST, [R, C], [("RawCache::clear_artifacts, clear_all, new, new_with_doctor", R), ("CacheOwned::new, default; Cache::new_with_doctor, doctor, into_doctor", C)], [ART, DYN, KNOWN, LEAF, DTS, DCS])
p("C10", "Garbage collection only removes what no one can reach any more",
  "Garbage collection never removes the artifact, the dynamic state or the record of a builder that can still be reached from outside or on which another recorded builder depends, and it never runs user builder code.",
  ["histories", "programs"], "for every cache content and every subset of builders that went out of scope",
  "Tests collect twice on a single chain; the claim is for every graph and every subset of dropped blueprints.", [R, C], [("RawCache::garbage_collection", R)], [LEAF, KNOWN, ART, DYN, DTS])
p("C11", "Garbage collection removes every unreachable builder without dependents",
  "One garbage collection removes the artifact, the dynamic state, the weak reference and all recorded dependencies of every known builder that is unreachable when it starts and on which no recorded builder depends. A builder whose last dependent is removed or invalidated becomes eligible for the following collections, so repeated collections leave no unreachable chain behind.",
  ["histories"], "for every cache content reachable by any history of builds, failures, invalidations, purges, clears and collections",
  "A builder missing from the candidate list leaks silently; it takes a specific history to lose it (e.g. invalidating an intermediate builder).", [R, C], [("RawCache::garbage_collection, make_builder_known", R), ("leaf bookkeeping in invalidate_by_id, invalidate_dependents, track_dependency, clear_artifacts", R)], [LEAF, KNOWN])
p("C12", "The cache's bookkeeping is consistent after every operation",
  "At every return from a public operation, and whenever user code is called from within one, the two dependency relations mirror each other, every builder that occurs in any part of the cache is known and kept alive by exactly its own weak reference (so that its address cannot be re-used), and the set of garbage collection candidates consists of exactly the known builders without recorded dependents. The cache itself never keeps a builder alive by a strong reference.",
  ["histories", "programs"], "for every history of operations of Cache and Resolver, every dependency graph and every builder program",
  HIST, [R], [("all methods of RawCache", R)], [ART, DYN, DTS, DCS, LEAF, KNOWN])
p("C13", "A builder has one identity across clones, conversions and canned forms",
  "Every blueprint of a builder (clones, and the blueprints it is converted into by any conversion, sized, dynamic or unsized) reports the same identity, which is also the one derived from the canned builder it hands to the cache, and gives access to that same builder. Equality and hashing of blueprints, cache entries and diagnostic handles are functions of that identity alone. The pointer taken from a Can and from the corresponding Bin is the address of the contained value, for each provided container.",
  ["programs", "inputs"], "for every builder type, every provided container and every chain of clones and conversions, in every feature configuration",
  "The tests compare a few ids of Rc blueprints; conversions and the agreement of the independent Bin and Can pointers are generic over all builders and containers.", [B, K, R, D],
  [("Promise impls of Blueprint, BlueprintUnsized, BlueprintDyn and their conversions, Clone, Eq, Hash", B), ("CanBase::can_as_ptr, Can::bin_as_ptr, CanBuilder::can_unsized", K), ("BuilderEntry", R), ("BuilderHandle", D)])
p("C14", "Blueprints encapsulate their builder",
  "Code outside the crate can obtain neither the builder wrapped in a blueprint, nor the canned builder, nor mutable access to either, nor forge a builder identity or a blueprint for an existing builder. A builder's build method is only ever reachable from outside by getting its artifact from a cache or resolver.",
  ["programs"], "for every program that uses the public API",
  "Tests cannot show that no program exists; they are inside the crate and see private items.", [B, "src/lib.rs", D],
  [("pub(crate) fields of BuilderAccessor and CannedAccessor; private fields of Blueprint, BlueprintUnsized, BlueprintDyn, BuilderId, BuilderHandle", B)])
p("C15", "Stored values are always read back as the type they were stored as",
  "Whatever is stored for a builder as artifact or dynamic state has exactly the artifact or state type of that builder, and is only ever read back as that same type, so that the checked downcasts never fail for values of the provided containers.",
  ["programs", "histories"], "for every builder type and every accessor and state function",
  "A mismatch is type-erased by Any and only surfaces as a panic for the particular accessor and builder combination.", [R, C, K],
  [("RawCache::build, lookup*, get*, ensure_dyn_state, dyn_state_cast_*", R), ("downcast_can, downcast_can_ref, downcast_can_mut, from_bin, into_bin impls", K)], [ART, DYN])
p("C16", "Doctors see every event once, and diagnostics change nothing else",
  "A Doctor is notified once for every resolution of a builder by another (naming both, in that order), once for every successful build (naming the builder and the produced artifact), once for every outside invalidation or purge (naming the target) and once for every clearing of the whole cache, and of nothing else. With diagnostics enabled the cache otherwise behaves as without.",
  ["histories", "configurations", "programs"], "for every history, builder program and Doctor, in every feature configuration",
  "Tests compare one short report; failing builds, hits, cascades and clears are not reached, nor is the agreement of the configurations.", [R, C, D],
  [("doctor calls in track_dependency, build, purge, invalidate, clear_all", R), ("Doctor, BuilderHandle::new, ArtifactHandle::new", D)])
p("C17", "Textual reports consist of complete, correctly numbered records",
  "For every sequence of events the textual Doctor writes exactly one line-terminated record per event that names the event's builders (and the artifact of a build) in order, each beginning on a new line. Builds are numbered by generation and position: the position counts the builds of the generation and the generation is incremented (and the position reset) by every invalidation and clear, and by nothing else.",
  ["histories", "configurations"], "for every sequence of events and every combination of options, with single-line type names and Debug texts",
  "Tests match one recorded output with a regular expression and without any invalidation or clear.", [T], [("Doctor impl of TextualDoc", T)], [("count", "generation and position counters", T)])
p("C18", "Graph reports are well-formed Dot for every event sequence and artifact text",
  "For every sequence of events, the output of the graph Doctor is one Dot graph: the header is written exactly once on construction, the closing brace exactly once when the output is taken back or the Doctor is dropped, and in between only complete statements in which every text is quoted and escaped, whatever the Debug output or type name contains. Artifact nodes are named by generation, position and address with the same numbering rule as in textual reports, and the same name is used by the node statement and the edge from its builder.",
  ["histories", "inputs"], "for every sequence of events, all options and every Debug text",
  "Tests match one output of two builders whose Debug output contains no character special to Dot.", [V], [("Doctor and Drop impl of VisgraphDoc, into_inner, finish", V)], [("count", "generation and position counters", V), ("output", "Some until handed back", V)])
p("C19", "The utility builders implement their documented semantics",
  "A constant builder always yields its value; a configurable one the current dynamic state, initially its configured value; a functional one exactly what its closure returned, called once with the builder's own state; a cloning, forwarding or error-feigning one exactly the artifact of its inner builder, or that one's own error. A redeeming builder yields its inner artifact and remembers it when the inner build succeeds, and otherwise yields the remembered or default value, panicking only if there is neither. Unpacking an infallible result yields its value.",
  ["programs", "fault_sequences", "inputs"], "for every inner builder, closure, value and history of inner successes and failures",
  "Only the redeeming builder has a test, with a single success/failure sequence.", [U, "src/lib.rs"], [("build and init_dyn_state of each builder in utils", U), ("unpack, Unpacking", "src/lib.rs")])
p("C20", "The alias modules adapt faithfully and agree with one another",
  "A builder written against the traits of an alias module behaves in the cache exactly as it is written: its build method is called once per build with the resolver of that build, its result (wrapped into the Bin and Ok for a simple builder) is the result of the build, and its state initializer provides its dynamic state. The Rc, Arc and Box modules offer the same items, and each alias denotes the generic type with that module's containers and passes all parameters on to the place they belong.",
  ["programs", "configurations"], "for every builder implementing an alias trait, in each of the three modules",
  "Tests exercise a part of the items of two modules.", ["src/rc.rs", "src/arc.rs", "src/boxed.rs"], [("blanket impls of Builder and SimpleBuilder, type aliases", "src/rc.rs, src/arc.rs, src/boxed.rs")])
p("C21", "Caches are independent: no global, interior-mutable or unsafe state",
  "No operation on one cache can influence another cache or any state shared between them: the crate has no mutable or interior-mutable global or thread-local state, and its types hide no interior mutability, so that operations through shared references change nothing. The crate contains no unsafe code.",
  ["programs", "histories", "schedules"], "for every number of caches and threads and every interleaving of operations",
  "Absence of shared state is not observable by sampling executions of one cache.", ["src/lib.rs", C, R, B, D], [("forbid(unsafe_code), plain owned collections", "src/lib.rs")])
p("C22", "No history of public operations panics by the cache's own doing",
  "For builders that do not panic themselves and whose containers and formatters behave, no sequence of operations on a cache panics, in debug and release builds alike: every internal expectation (a counterpart entry exists, a downcast succeeds, a state exists, an indexed key is present, a debug assertion) holds whenever it is evaluated. The only exception is the documented one of a redeeming builder without any value.",
  ["histories", "inputs", "configurations"], "for every history of operations, dependency graph and builder program",
  HIST + " Three reachable panics were present in the pinned commit.", [R, C], [("expect, unwrap, index and debug_assert sites", R)], [DTS, DCS, KNOWN, LEAF, DYN])
p("C23", "Arc blueprints and artifacts can be shared across threads",
  "With the Arc containers, blueprints of builders that are Send and Sync, and the artifact Bins handed out for them, are themselves Send and Sync, as are the identities of builders and the handles given to Doctors; an artifact or builder that is not both cannot be used with these containers. With the Rc containers neither blueprints nor Bins nor the handles are Send or Sync.",
  ["programs", "schedules"], "for every builder and artifact type",
  "Auto traits are decided by the compiler for all programs; the tests are single-threaded.", ["src/arc.rs", "src/rc.rs", K, B], [("Arc<dyn Any + Send + Sync> as Can; bounds of the Can impls", K)])
p("C24", "A builder at work can only read and build, and only through its own resolver",
  "Through the resolver a builder can get artifacts and its own dynamic state but cannot remove or replace any artifact, remove or alter another builder's dynamic state, or make a builder unknown. A resolver cannot be constructed, cloned or kept outside the build it was made for, and its state type is that of the very builder being built.",
  ["programs"], "for every builder program, including nested builds",
  "That no builder program can do something is not testable by examples.", [C, R], [("Resolver and its methods", C), ("RawCache::build", R)], [ART, DYN, KNOWN])
p("C25", "A panicking builder leaves a consistent cache",
  "If user code called by the cache (a build, a state initializer) panics and the panic is caught, the cache is consistent and usable: everything stored before is still stored, no artifact is stored for the builders whose builds were unwound, their recorded dependencies remain mirrored and invalidation stays complete, and later operations do not panic.",
  ["crash_points", "fault_sequences", "histories"], "for every point at which user code is called, every nesting depth and every cache content",
  "No test panics within a builder.", [R, C], [("order of effects around the user calls in build, ensure_dyn_state, track_dependency", R)], [ART, DYN, DTS, DCS, LEAF, KNOWN])
p("C26", "Operations other than building need no stack in proportion to the chain",
  "Looking up, invalidating, purging, clearing, querying and garbage collecting work on dependency chains and fan-outs of any depth without overflowing the stack: the cache's own code is never in itself recursive, and the one recursion there is passes through user code (a builder that resolves another builder).",
  ["inputs", "histories"], "for every depth of the dependency graph",
  "Tests use chains of at most three builders; an overflow aborts the process and needs tens of thousands of them.", [R, C, U], [("invalidate_by_id, purge, garbage_collection, clear_all: iterative; Resolver::resolve -> RawCache::get -> build -> Builder::build: recursion through user code", R)])
p("C27", "Garbage collection and invalidation cost are linear",
  "Apart from garbage collection and the clear functions, no operation of the cache traverses all that is cached; and garbage collection does so once, not per builder. No operation searches or shifts a list, or traverses what it has gathered, for each of the builders it processes. So, with constant time per access to a hash table, the time of a garbage collection is linear in the number of known builders and of the relations it removes, that of an invalidation linear in the relations it removes, and getting a cached artifact takes the same time however full the cache is (in builds without debug assertions).",
  ["inputs"], "for every cache content", "Tests do not measure, and only use a handful of builders.", [R, C], [("RawCache::garbage_collection, invalidate_by_id, invalidate_dependents", R), ("public operations of Cache and Resolver", C)])
p("C28", "Cached artifacts were made from what is still cached",
  "Each cached artifact was built from artifacts of which all are still cached and from a dynamic state that has not been handed out mutably since: no artifact stays once anything that it was made from has been dropped, replaced or handed out mutably. Hence, for builders that are functions of what they resolve and of their state, a cached artifact equals what building it now would yield.",
  ["programs", "histories"], "for every history of operations and every builder, including those that fail or panic, resolve nested builders or drop builders meanwhile", HIST, [R, C], [("invalidation as a whole", R)])
p("C29", "A cache keeps nothing alive beyond what it stores",
  "A cache holds the builders it knows only weakly, never a strong reference to a blueprint, and holds at most one artifact and one state per builder. Nothing that was handed to a cache is leaked: dropping the cache drops all it stored.",
  ["histories", "programs"], "for every history, builder and container",
  "Tests observe the release of single builders; a strong reference hidden in any of the records only shows for the history that records it.", [R, C, K], [("fields of RawCache and Cache; WeakDynBlueprint; BinType", R)])
p("C30", "A recorded identity stays bound to its builder",
  "Whenever anything (an artifact, a state, a dependency) is kept under the identity of a builder, a weak reference to that same builder is kept along with it, so that the address the identity consists of cannot be reused by another builder while something is still stored under it.",
  ["histories", "inputs"], "for every history of operations, drops and allocations",
  "Address reuse depends on the allocator, and only shows when a dropped builder's allocation is recycled while a stale record is left.", [R, B], [("RawCache::track_builder and what build, ensure_dyn_state, track_dependency record before it", R), ("RawCache::garbage_collection", R)], [KNOWN])
p("C31", "Doctors are told of builders and artifacts as they are; idle Doctors do nothing",
  "The handle of a builder given to a Doctor carries that builder's own identity, type name and Debug text, the handle of an artifact a Bin of that very artifact with its type name and Debug text, and comparing handles compares what they denote. The provided methods of a Doctor, and those of the Doctor that ignores everything, have no effect.",
  ["inputs", "programs", "configurations"], "for every builder and artifact type and value, with and without the tynm feature",
  "Tests match a few texts with regular expressions and never use the default methods.", [D], [("BuilderHandle::new, ArtifactHandle::new, Doctor, NoopDoctor", D)])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
