#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json"""
import json,os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D="include/boost/poly_collection/detail/"
PC=D+"poly_collection.hpp"; SEG=D+"segment.hpp"; PS=D+"packed_segment.hpp"; SS=D+"split_segment.hpp"
TM=D+"type_info_map.hpp"; VH=D+"value_holder.hpp"; AA=D+"allocator_adaptor.hpp"; IT=D+"iterator_impl.hpp"
AL="include/boost/poly_collection/algorithm.hpp"; TR=D+"type_restitution.hpp"; SP=D+"segment_split.hpp"
def P(id,title,statement,over,qtext,why,files,mech,observe):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=[observe]))
HIST="Every history of operations on base_collection, function_collection and any_collection, every combination of element types, values, insertion forms and positions."
PROPS=[
P("C01","Inserting or emplacing one element adds exactly that element where asked",
 "Every form of single-element insertion and emplacement (by copy, by move, from a polymorphic reference, in place; with no position, with a global hint, or with a local position) adds exactly one element equal to the source to the segment of its dynamic type, at the requested place (a hint into the element's own segment and any local position are honoured, otherwise the element goes last), and leaves every other element, their relative order and every other segment as they were. The returned iterator designates the new element; a source inserted by copy is left unmodified, and one inserted by move or constructed in place is never copied; emplacement hands its arguments to the element's constructor once and in the value category given. Inserting through a polymorphic reference requires its dynamic type to be registered and throws unregistered_type carrying that type without changing the collection otherwise, while insertion of an object whose static type is its dynamic type registers the type on demand.",
 ["inputs","histories"],HIST,
 "The tests insert a few fixed sequences; the behaviour depends on the prior contents and capacity of the segment, the position form, the value category, and the registration history.",
 [PC,SEG,PS,SS,D+"base_model.hpp",D+"function_model.hpp",D+"any_model.hpp"],
 [("poly_collection::insert/emplace overloads",PC),("segment::push_back/insert/emplace_*",SEG),("nv_insert, nv_push_back, nv_emplace",PS),("prereserve, push_index_entry",SS)],
 "contents of every segment, returned iterator, source object and exceptions before/after each insertion"),
P("C02","Range insertion and range construction equal inserting element by element",
 "Inserting a range (from iterators over elements, over another collection of the same type, or over one of its segments; with no position, a hint or a local position) or constructing a collection from a range adds exactly the elements of the range, in order, to the segments of their types, consecutively at the requested position, and leaves the rest of the collection and the source range unmodified (or moved-from, and not copied, if the range yields rvalues). Local insertion returns an iterator to the first inserted element, or the position given if the range is empty. If an element's type must be registered and is not, unregistered_type is thrown and exactly the elements preceding the offending one have been inserted; range construction that fails leaves no object.",
 ["inputs","histories"],HIST+" All iterator categories (input, forward, random access) and sources.",
 "Tests use one or two ranges in fresh collections; correctness depends on range length versus spare capacity, on the insertion point and on the iterator category.",
 [PC,SEG,PS,SS],
 [("poly_collection::insert(first,last)/local_insert",PC),("nv_insert(first,last)",PS),("insert(...,input/forward_iterator_tag)",SS)],
 "segment contents, returned iterators, source range"),
P("C03","Erasing and clearing remove exactly what was designated",
 "Erasing an element or a range of elements, through global, local or typed local iterators, including ranges spanning several segments and empty ranges, removes exactly the designated elements and keeps all the others with their relative order; clear() and clear of one segment remove all the elements of the collection or of that segment only. The returned iterator designates the element that followed the last removed one (or the end). Types stay registered and no copies of elements are made.",
 ["inputs","histories"],HIST+" Every first/last pair.",
 "Ranges spanning segments interact with traversal order, empty segments and segment boundaries; tests sample a handful of pairs.",
 [PC,SEG,PS,SS,IT],
 [("poly_collection::erase(first,last)",PC),("segment::erase_till_end/erase_from_begin",SEG),("nv_erase",PS),("nv_erase, pop_index_entry",SS)],
 "segment contents and returned iterators"),
P("C04","All ways of traversing a collection agree and the order is stable",
 "At any point, global traversal (mutable and const), segment traversal, local and typed local traversal, and size()/empty() in their global, per-type and per-type_info forms describe the same elements: every element exactly once, grouped by segment, each segment's elements in local order, global size the sum of segment sizes. The order in which segments are traversed does not change while no new segment is created.",
 ["histories"],HIST,
 "Global iteration relies on per-segment sentinels cached outside the storage, which have to be refreshed by every one of the mutating operations, including those that fail.",
 [PC,IT,SEG,D+"segment_split.hpp",D+"stride_iterator.hpp",D+"auto_iterator.hpp"],
 [("iterator_impl::next_segment_position",IT),("segment::filter/set_sentinel",SEG),("segment_info, segment_traversal",PC)],
 "sequence of element addresses seen through every access path after every operation"),
P("C05","Type registration is exact, persistent and keyed by type identity",
 "There is exactly one segment per registered type, types are registered only by the operations documented to do so, and registration persists over every operation save those that replace or move away the contents of the collection (which take over the source's registration). Operations naming a type, by template argument or by type_info, refer to the segment of exactly that type whatever the number of types registered and whichever equal type_info object is used, and throw unregistered_type carrying that type when it is not registered (except is_registered, insertion of a statically known type and reserve<T>).",
 ["histories","configurations"],HIST+" Any number of registered types, any order of registration and lookups.",
 "Lookup goes through a hash map plus a pointer-keyed cache holding iterators that must survive rehashing, copying, moving and swapping; tests register few types.",
 [TM,PC],
 [("type_info_map::find/insert/build_cache/rebuild_cache",TM),("poly_collection::get_map_iterator_for",PC)],
 "is_registered, per-type queries and thrown exceptions"),
P("C06","reserve, capacity and shrink_to_fit keep the contents and their promises",
 "reserve (global, per type or per type_info) and shrink_to_fit never change the elements, their order or any other segment, and make no copies of elements that can be moved; after reserve(n) the capacity is at least n, and it never decreases. capacity() is the number of elements a segment can hold without reallocation: it is never less than the size, and insertions within it neither change it nor move elements. reserve<T> registers T; requests beyond max_size throw std::length_error and change nothing.",
 ["inputs","histories"],HIST+" Every requested capacity.",
 "Needs all interleavings of growth, shrinkage and insertion; base collections keep an auxiliary index whose capacity must track that of the store.",
 [PS,SS,SEG,PC],
 [("nv_reserve, nv_shrink_to_fit, nv_capacity",SS),("nv_reserve, nv_shrink_to_fit",PS),("poly_collection::reserve/capacity/shrink_to_fit",PC)],
 "capacity(), contents and element addresses"),
P("C07","Iterators and references stay valid as long as documented",
 "References, pointers and iterators (global, local, typed local, const or not, and segment-info objects) designate the same element after any operation that does not affect their segment, after insertions that do not exceed the capacity for positions before the insertion point, after erasures for positions before the first erased, after swap, move construction and move assignment that transfers storage, and after any read-only operation. Operations on one segment never invalidate handles to another.",
 ["histories"],HIST,
 "Invalidation depends on hidden state (capacity, auxiliary index reallocation, map rehash) that a fixed example does not reach.",
 [PS,SS,SEG,IT,TM,PC],
 [("prereserve, build_index",SS),("iterator_impl",IT),("type_info_map (node stability)",TM)],
 "addresses reached through handles taken before each operation"),
P("C08","Copies are equal in content and independent of the original",
 "Copy construction (with or without allocator) and copy assignment yield a collection with the same registered types and the same elements in the same per-segment order, leave the source untouched, and share no element with it: later operations on either do not affect the other. Self-assignment changes nothing; previous contents of the target are released.",
 ["inputs","histories"],HIST,
 "Independence is a property of all later operations on both collections.",
 [TM,SEG,PS,SS,PC],
 [("type_info_map(const&)/operator=(const&)",TM),("segment copy",SEG),("copy()/empty_copy",PS)],
 "contents and addresses of both collections over the whole history"),
P("C09","Moving and swapping transfer contents completely and without copies",
 "Move construction (with or without allocator), move assignment and swap transfer the registered types and the elements, in per-segment order, to the target, leave the source of a move empty of elements and usable, and exchange both collections in the case of swap; no element is copied, and when the storage can be transferred elements are not even relocated. All affected collections behave normally afterwards.",
 ["inputs","histories","configurations"],HIST+" Equal and unequal allocators.",
 "The transferred structures hold cached iterators and sentinels that only later operations would exercise.",
 [TM,SEG,PS,SS,PC],
 [("type_info_map(&&)/operator=(&&)/swap",TM),("segment(segment&&,al)",SEG),("move(al)",SS)],
 "contents, addresses and copy counts"),
P("C10","Equality means same elements per type in the same order",
 "Two collections compare equal exactly when, for every type, their segments hold the same number of elements, pairwise equal in order, with absent and empty segments being equivalent; the result does not depend on the order in which types were registered or on capacities. The relation is reflexive and symmetric, != is its negation, neither modifies the collections, and not_equality_comparable is thrown (carrying the type) only if non-empty segments of a non-comparable type have to be compared.",
 ["inputs","histories"],HIST,
 "Requires all pairs of contents and registration orders.",
 [PC,SEG,PS,SS,VH],
 [("operator== on poly_collection",PC),("segment ==, equal",SEG),("value_holder operator==",VH)],
 "result of ==/!= for arbitrary pairs of collections"),
P("C11","Allocators are propagated, used for everything and never mixed up",
 "Which allocator a collection uses after construction, copy, move, assignment and swap follows the standard rules for its propagation traits; all memory for elements and internal structures comes from the collection's current allocator and is returned to an equal one with the same size, and elements are constructed and destroyed through it. Once a collection is destroyed, or its contents are replaced, nothing obtained from its former allocator is kept.",
 ["configurations","histories"],HIST+" All combinations of propagation traits, select_on_container_copy_construction, always-equal or not.",
 "The number of combinations of traits, operations and equal/unequal allocators is out of reach of examples.",
 [AA,TM,SEG,PS,SS,VH,PC],
 [("allocator_adaptor::construct",AA),("type_info_map constructors and assignment",TM),("new_/delete_",SS),("segment::operator=",SEG)],
 "every allocate/deallocate/construct/destroy call of a tracking allocator"),
P("C12","Exceptions from element operations leave collections valid",
 "If an element's constructor, assignment, comparison or conversion throws during any operation, the exception reaches the caller and every collection involved remains valid: all the guarantees on traversal, lookup and later operations keep holding, no element is leaked or destroyed twice, segments not targeted by the operation are untouched and no element holds a value that was neither there nor in the source. Appending, reserving and registering are all-or-nothing unless moving elements itself may throw with no copy available; a failed construction leaves no object and a failed copy does not change its source.",
 ["fault_sequences","histories"],"Every history followed by every operation failing at each of its element-level steps in turn, followed by further operations.",
 "Each operation has many failure points, and damage (stale sentinels, index out of step with the store) shows only in later operations.",
 [SEG,SS,PS,TM,VH,PC],
 [("sentinel_guard",SEG),("index_guard, prereserve",SS),("catch(...) handlers",TM)],
 "state and accounting after each injected exception"),
P("C13","Running out of memory never corrupts or loses anything",
 "If any allocation fails during any operation, std::bad_alloc reaches the caller (or, for shrink_to_fit, may be absorbed), no memory and no element is leaked, and all collections involved remain valid and consistent. Operations on an existing collection other than assignments keep all previous elements, an element whose insertion by move fails this way is kept in its source, and failed constructions leave no object.",
 ["fault_sequences","histories"],"Every history followed by every operation with each of its allocations failing in turn, followed by further operations.",
 "Allocation failures at each point of each operation are not injected by any test.",
 [SEG,SS,PS,TM,PC],
 [("new_ catch handler",SS),("new_ catch handler",PS),("type_info_map::insert, operator=",TM)],
 "state, allocator accounting and leaks after each failed allocation"),
P("C14","Move-only, non-assignable and non-comparable elements are fully supported",
 "Elements that cannot be copied, compared or assigned, or whose move may throw, can be stored and undergo every operation that does not inherently need the missing capability, including insertion and erasure at any position, reallocation and moves to another allocator, with the same results as for regular types. Operations that need the missing capability throw not_copy_constructible or not_equality_comparable, carrying the offending type, exactly when an element of such a type is actually involved.",
 ["inputs","histories"],HIST+" Every mix of element capabilities.",
 "Which capability is exercised depends on segment contents, capacity and position at run time.",
 [VH,PS,SS,D+"is_constructible.hpp",D+"is_equality_comparable.hpp"],
 [("value_holder constructors and assignment",VH),("emplacing_ctor, copy_ctor_arg",VH)],
 "outcome and contents"),
P("C15","Each element is constructed once, destroyed once and never used outside its life",
 "Over any history, the number of live element objects attributable to collections equals the number of elements they report, every constructed element is destroyed exactly once, nothing is read, assigned, moved from or destroyed outside of its lifetime, and overaligned types are stored aligned. After all collections are destroyed nothing is left alive.",
 ["histories","fault_sequences"],HIST+" With and without failures.",
 "Double destruction, leaks and use of raw storage depend on capacity, position and failure combinations.",
 [VH,PS,SS,AA],
 [("value_holder destructor, uninitialized storage",VH),("allocator_adaptor::destroy",AA),("emplace_single",SS)],
 "registry of live objects, sanitizer"),
P("C16","Query algorithms equal their standard counterparts",
 "Every non-modifying poly_collection algorithm (all_of, any_of, none_of, for_each, for_each_n, find, find_if, find_if_not, find_end, find_first_of, adjacent_find, count, count_if, mismatch, equal, is_permutation, search, search_n, is_partitioned, partition_point), on any subrange of any collection and any list of restitution types, returns what the std algorithm returns on the corresponding flat sequence. Function objects are applied to elements of the range only, no more often than the standard allows, for_each and for_each_n in order and exactly once per element. Segment boundaries, empty segments, the placement of segments in memory and the choice of restitution types have no influence.",
 ["inputs"],"All sequences up to a bound, all partitions in segments, all subranges, all restitution lists.",
 "Tests use one collection layout and whole-range calls; segment-boundary cases need all partitions and subranges.",
 [AL,SP,D+"functional.hpp",TR],
 [("for_each_segment and per-algorithm segment handling",AL),("segment_split",SP)],
 "return value and calls of the function objects"),
P("C17","Copying and modifying algorithms equal their standard counterparts",
 "copy, copy_n, copy_if, move, transform, replace_copy, replace_copy_if, remove_copy, remove_copy_if, unique_copy, rotate_copy, partition_copy and sample write exactly the elements, in the order and with the return value of the std algorithm on the corresponding flat sequence (for sample: an order-preserving selection of min(n,distance) distinct elements, all of them equally probable), applying predicates, operations and comparisons as many times as the standard requires; inputs are unmodified save for move. Segment boundaries, empty segments and restitution types have no influence.",
 ["inputs"],"All sequences up to a bound, all partitions in segments, all subranges, all restitution lists.",
 "Tests use one collection layout; segment-boundary cases need all partitions and subranges.",
 [AL,SP,TR],
 [("per-algorithm segment handling",AL),("segment_split",SP)],
 "output sequences and return values"),
P("C18","Function objects receive restituted types exactly where requested",
 "When an algorithm is given a list of types, its function objects are invoked with a reference to the concrete element type for every element whose type is in the list (const-qualified for const ranges), and with the collection's reference type otherwise, for every algorithm and every argument position, and whichever order and number of types. Results do not depend on the list.",
 ["inputs","configurations"],"All algorithms, all restitution lists over the element types, all element types.",
 "Restitution is per element and per argument; tests only check overall results, not the types passed.",
 [TR,AL,D+"functional.hpp"],
 [("restitute_range/restitute_iterator",TR),("head_closure etc.",D+"functional.hpp")],
 "types received by function objects"),
P("C19","Elements are reached as their concrete type, base, callable or any alike",
 "Every element accessed through global iterators behaves as the object inserted: in a base_collection the base reference points to the base subobject of the concrete object (virtual calls reach it whatever the layout of the class), in a function_collection the wrapper invokes the element itself with the given arguments and exposes its exact type and address, and in an any_collection any_cast yields the element. The type reported, the address obtained from the polymorphic view and the address obtained from the typed view are the same object for every element at all times.",
 ["inputs","histories"],HIST+" Element types with offset bases, overalignment, final classes.",
 "Wrappers hold addresses into storage that moves on reallocation, insertion in the middle, erasure, shrink and swap.",
 [D+"base_model.hpp",D+"function_model.hpp",D+"any_model.hpp",D+"callable_wrapper.hpp",SS,D+"stride_iterator.hpp"],
 [("push_index_entry, build_index",SS),("callable_wrapper, data()",D+"callable_wrapper.hpp"),("subaddress/subtypeid",D+"base_model.hpp")],
 "result of calling / casting each element versus its typed access"),
P("C20","Read-only operations never write to the collection",
 "Operations available on a const collection (traversal, per-type access, queries, equality, copying from it, const algorithms) do not modify any memory belonging to the collection or its elements, whatever the history of types registered and looked up, so they can be executed concurrently by several threads.",
 ["schedules","histories"],"All const operations from any state; all interleavings of const operations.",
 "Tests are single-threaded and only compare contents; a hidden write (e.g. to a lookup cache) is not observable through them.",
 [TM,PC,SEG],
 [("type_info_map::find const",TM),("poly_collection const members",PC)],
 "writes to write-protected memory"),
P("C21","An element of a collection may be inserted into the same collection",
 "Inserting or emplacing an element of the collection itself (by reference to an existing element, lvalue, at any position and whether or not storage grows) adds a copy with the value the element had before the call, and leaves the original element in place, for the three kinds of collection.",
 ["inputs","histories"],HIST,
 "Aliasing only matters when reallocation or shifting happens during insertion, which depends on spare capacity and position.",
 [SS,PS,PC],
 [("prereserve, single_store",SS),("nv_insert/nv_push_back",PS)],
 "contents after self-referential insertions"),
P("C22","Iterators obey the laws of their category and agree with one another",
 "In every collection, iterator and const_iterator are forward iterators over all elements and [const_]local_base_iterator and [const_]local_iterator<T> random access iterators over the elements of a segment: increment, decrement, addition of any offset, difference, subscript and the six comparisons are those of positions in the sequence, dereferencing yields the element at the position, value-initialized iterators are equal, and the documented conversions and mixed comparisons (to const, between local_base_iterator and local_iterator<T>) keep the position. Iterators returned by insertion, emplacement and erasure are as good as any other: they can be traversed to the end of their sequence. All begin/cbegin/end/cend members, of the collection, segments and segment traversals, delimit the same sequence.",
 ["inputs","histories"],"Every arrangement of segments, empty or not, of every size of element, every position and offset, for base_collection, function_collection and any_collection.",
 "Tests look at a handful of positions of one collection; offsets, strides and segment arrangements are unbounded.",
 [IT,D+"stride_iterator.hpp",D+"callable_wrapper_iterator.hpp",D+"any_iterator.hpp",PC],
 [("iterator_impl::increment, local_iterator_impl conversions",IT),("advance, distance_to",D+"stride_iterator.hpp"),("segment_info, segment_traversal_info",PC)],
 "answers of operations on iterators"),
]
BUILT=["C%02d"%i for i in range(1,23)]
EXTRA=os.path.join(R,"bin","built.txt")
if os.path.exists(EXTRA): BUILT=open(EXTRA).read().split()
TECH={
 "default":"TLA+ specification (PolySpec) of states and transitions; TLC checks it on the implementation-shaped model (PolyModel), whose transition tours plus random histories are replayed on the real code, and TLC validates every recorded event against the specification",
 "C16":"TLA+ definitions of the algorithms on flat sequences (Algo); the real code is run on every short sequence, partition in segments and subrange, and TLC validates every distinct recorded outcome against the definitions (AlgoTrace)",
 "C18":"TLA+ rule of type restitution (Algo!RightType) with TLC validating every (algorithm, argument, requested types, element type, received type) tuple recorded from the real code",
 "C20":"TLA+ specification (PolySpec, read-only operations are stuttering steps at memory level) with traces from real code run on write-protected memory validated by TLC; TLC checks the model of concurrent look-ups (Readers) free of races and shows the model with memoisation is not",
 "C19":"TLA+ specification of access by concrete type, base, callable or any (AccessTrace, PolySpec!PolyAccess); TLC validates observations recorded from the real code over many value types, signatures and concept lists, and over histories generated from the model",
}
TECH["C17"]=TECH["C16"]
TECH["C22"]="TLA+ specification of iterators as cursors (Cursor); TLC checks that (segment, position) cursors refine flat positions for all arrangements of segments (CursorModel) and validates the answers of the real iterators, obtained for every operation, position and argument (CursorTrace)"
NOTE={"default":"bounded model exhaustively; real code bound by validated traces (transition tours and seeded random histories)"}
def manifest():
    chk=[]
    for p in PROPS:
        i=p["id"]
        if i not in BUILT: continue
        chk.append(dict(property=i,quick_cmd=f"python3 bin/check.py {i} quick",thorough_cmd=f"python3 bin/check.py {i} thorough",
          evidence_file=f"evidence/{i}.json",technique=TECH.get(i,TECH["default"]),level="model_checking",
          level_note=NOTE.get(i,NOTE["default"])))
    return dict(version=1,setup_cmd="python3 bin/setup.py",checks=chk,
      not_applicable=[dict(property=p["id"],reason="check under construction") for p in PROPS if p["id"] not in BUILT],
      notes="TLA+ with TLC. No hooks in /repo are needed: observation goes through the public API, tracking elements and tracking allocators. Known findings and fixed defects are listed in known_findings.txt.")
if __name__=="__main__":
    with open(os.path.join(R,"properties.jsonl"),"w") as f:
        for p in PROPS: f.write(json.dumps(p)+"\n")
    json.dump(manifest(),open(os.path.join(R,"MANIFEST.json"),"w"),indent=1); open(os.path.join(R,"MANIFEST.json"),"a").write("\n")
