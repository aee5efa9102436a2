#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays valid JSONL)."""
import json, os
H = ["indirect.h", "polymorphic.h", "indirect_cxx14.h", "polymorphic_cxx14.h"]
I = ["indirect.h", "indirect_cxx14.h"]
P = ["polymorphic.h", "polymorphic_cxx14.h"]
def m(name, where): return {"name": name, "where": where}
props = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": mech}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why, "anchors": a})

ST = [{"name": "owned pointer / control block", "meaning": "null = valueless, otherwise the owned object", "where": "indirect::p_, polymorphic::cb_"},
      {"name": "allocator", "meaning": "the allocator the owned object's storage belongs to", "where": "alloc_ / empty_base_optimization"}]

prop("C01", "Copies are deep, independent and never disturb their source",
 "Copying an indirect or polymorphic (copy construction, allocator-extended copy construction, copy assignment) gives an object that owns its own separate object with the value of the source's, produced from the source as a const object by the owned type's copy constructor (or, where assignment reuses an existing object, its copy assignment). Afterwards, modifying, assigning or destroying either one never changes the other. The source keeps its value, its owned object and its address, and a copy of a valueless object is valueless.",
 ["inputs", "configurations", "fault_sequences"],
 "all element values, allocator identities (equal or not), valueless or not on either side, propagation traits, owned types that also offer a non-const or greedy constructor",
 "Tests copy one int or one Derived object with a handful of constants and one stateless allocator; the guarantee is over every value, both objects' states and every allocator relation, and no test owns a type whose non-const copy differs from its const copy.",
 H, [m("copy constructors and copy assignment", "indirect.h, indirect_cxx14.h: indirect(const indirect&), operator=(const indirect&)"),
     m("control block clone", "polymorphic.h, polymorphic_cxx14.h: direct_control_block::clone")], ST)

prop("C02", "polymorphic owns exactly the requested dynamic type, through every operation",
 "The object owned by a polymorphic<T> always has exactly the dynamic type it was constructed with: no constructor form, copy, move, assignment or swap ever slices it, substitutes another type, or mixes up the types of two objects. Virtual calls, base-class state and the destructor that eventually runs (also without a virtual base destructor) are those of that dynamic type.",
 ["inputs", "histories", "configurations"],
 "all sequences of operations up to the bound over two objects holding any of several derived types of different size, alignment and base layout, with any values and allocators",
 "Tests use one derived type per hierarchy, and construct from an initializer list only when base and derived type are the same; cross-type sequences are never exercised.",
 P, [m("create_control_block<U>, direct_control_block<U>::clone/move/destroy", "polymorphic.h, polymorphic_cxx14.h")], ST)

prop("C03", "Moves transfer ownership without touching the owned object",
 "Move construction, and move assignment or allocator-extended move construction between objects whose allocators compare equal (or are always equal), hand over the very same owned object: same address, no allocation, and no copy, move or assignment of the owned object; the source becomes valueless. When allocators differ, the owned object is instead re-created once, from the source's owned object as an rvalue, in storage of the destination's resulting allocator.",
 ["inputs", "configurations"],
 "all element values, allocator identities, propagation traits and valueless states of source and target",
 "Tests check the moved-to address for std::allocator only and two fixed allocator tags; the equal/unequal decision and the storage used depend on run-time allocator values and on traits no test combines.",
 H, [m("move constructors and move assignment", "indirect*.h, polymorphic*.h"), m("control block move", "polymorphic*.h: direct_control_block::move")], ST)

prop("C04", "Each owned object and its storage is released exactly once",
 "Over any history of construction, copy, move, assignment, converting assignment, swap and destruction, including histories in which allocations or owned-type operations throw at arbitrary points, every owned object that was successfully created is destroyed exactly once and its storage deallocated exactly once, after the destruction. Nothing is leaked, destroyed twice, or used after its destruction or deallocation.",
 ["histories", "fault_sequences", "configurations"],
 "every operation sequence up to the bound over two objects from any initial states, with a possible failure at every allocation and every owned-type operation",
 "Tests count allocations in eight fixed two- or three-step scripts, almost all without failures.",
 H, [m("reset / destroy_with / construct_from", "indirect*.h"), m("reset / create_control_block / clone / move / destroy", "polymorphic*.h")], ST)

prop("C05", "Storage is released by an equal allocator, with the size it was obtained with",
 "Every block used for an owned object is obtained and released through the object's allocator (rebound as needed): it is deallocated by an allocator equal to the one that allocated it and with the same element count and type, and the owned object is constructed and destroyed through that allocator's own construct and destroy if it has them. Each non-valueless object uses exactly one block, which holds the whole owned object, suitably aligned.",
 ["inputs", "histories", "configurations"],
 "all allocator identities, propagation and equality traits, owned types of different size and (over-)alignment, operation sequences up to the bound, failures included",
 "The test allocators forward to std::allocator and never check which allocator frees a block, so releasing through the wrong allocator is invisible to them.",
 H, [m("construct_from/destroy_with take the allocator", "indirect*.h"), m("rebound cb_allocator in create_control_block/clone/move/destroy", "polymorphic*.h"),
     m("deferred allocator update in assignment", "operator= in all four headers")], ST)

prop("C06", "Assignment that throws changes nothing",
 "If copy or move assignment fails because an allocation or the owned type's copy or move constructor throws, the target keeps its previous value, its owned object and its allocator; the source is unaffected (apart from what a throwing move constructor itself did to the value) and nothing leaks. If the owned type's own assignment throws during in-place assignment, only that owned value is affected and neither object becomes valueless or changes allocator.",
 ["fault_sequences", "inputs", "configurations"],
 "every failure point of every assignment, for all values, allocator identities, traits and valueless states of both sides",
 "No test observes the target after a failed assignment.",
 H, [m("construct into tmp before reset and before the allocator update", "operator= in all four headers")], ST)

prop("C07", "A failed construction leaks nothing and leaves its source usable",
 "If any constructor (default, single-argument, in-place, initializer-list, copy, move or allocator-extended) fails because allocation or the owned type's constructor throws, the exception propagates unchanged, all storage and subobjects obtained so far are released, and a source object being copied or moved from keeps its owned object.",
 ["fault_sequences", "inputs", "configurations"],
 "every failure point of every constructor, for all argument values, allocators and source states",
 "Tests cover a throwing default constructor with one tracking allocator and otherwise only that something is thrown.",
 H, [m("try/catch around construct", "indirect*.h: construct_from; polymorphic*.h: create_control_block, clone, move")], ST)

prop("C08", "The allocator changes only when its propagation traits say so",
 "get_allocator() returns the allocator given at construction (for copy construction the one selected by select_on_container_copy_construction, for move construction the source's); copy assignment, move assignment and swap replace it, with the other object's, exactly when the corresponding propagation trait is true, also when either object is valueless. An allocator-extended constructor always uses the allocator passed.",
 ["inputs", "configurations"],
 "all allocator identities, all combinations of the propagation traits, valueless or not on either side",
 "Tests combine at most two traits with identical counters, and never compare allocators after assignment or swap.",
 H, [m("update_alloc in operator=, swap, select_on_container_copy_construction", "all four headers")], ST)

prop("C09", "swap exchanges complete states without touching the owned objects",
 "Swapping (member or free function) exchanges the owned objects or valueless states of the two operands: each afterwards owns the very object the other owned, at the same address, with no allocation and no operation on the owned objects; allocators are exchanged exactly if they propagate on swap. It works for every combination of valueless and non-valueless operands whose allocators are equal or propagate.",
 ["inputs", "configurations"],
 "all values, dynamic types, allocator identities permitted by the precondition, valueless states",
 "Tests swap two fixed ints and never look at addresses, allocators or operation counts.",
 H, [m("swap members and friends", "all four headers")], ST)

prop("C10", "Self-assignment and self-swap have no effect",
 "Copy-assigning, move-assigning or swapping an object with itself leaves it exactly as it was: same owned object at the same address with the same value, same allocator, still valueless if it was valueless, with no allocation and no operation on the owned object.",
 ["inputs", "configurations"],
 "all values, dynamic types, allocators, traits, valueless or not",
 "Tests only check that the object is not valueless afterwards, for one constant.",
 H, [m("this == &other guards; swap", "all four headers")], ST)

prop("C11", "Valuelessness arises only from moves and is always recoverable",
 "valueless_after_move() is true exactly for objects moved from by an ownership transfer and for objects copied, moved, assigned or swapped from such objects; a fresh object is never valueless, and no failing operation makes an object valueless. A valueless object can be copied, moved, assigned from, swapped, compared, hashed and destroyed, and assigning or swapping a value into it makes it an ordinary object again.",
 ["histories", "fault_sequences", "configurations"],
 "every operation sequence up to the bound over two objects in any states, with failures at any point",
 "Tests check a dozen single transitions with std::allocator; sequences and failing operations are not explored.",
 H, [m("valueless checks in constructors and assignment", "all four headers")], ST)

prop("C12", "Comparing two indirects compares their values, valueless sorting first",
 "Every comparison operator between two indirects (same or different owned types and allocators) gives the result of that operator on the owned values when both have one; two valueless objects are equal, and a valueless object is unequal to and less than every object with a value. Consequently equality and ordering of indirects are reflexive, symmetric, transitive and mutually consistent whenever those of the values are, and the three-way result agrees with the two-way operators, including unordered values.",
 ["inputs"],
 "all values of the owned types (integers, values providing only < and ==, floating point including NaN, partially ordered types), all valueless combinations",
 "Tests compare 42 and 101.",
 I, [m("operator==, operator<=> / six relational operators, synth_three_way", "indirect.h, indirect_cxx14.h")], ST)

prop("C13", "Comparing an indirect with a plain value",
 "Comparing an indirect with a value, in either operand order, gives for each operator the result of comparing the owned value with it; a valueless indirect is unequal to and less than every value. Swapping the operands gives the mirrored answer.",
 ["inputs"],
 "all values on both sides, mixed types, NaN, valueless or not",
 "Tests compare 42 and 101, and some mixed pairs only in one direction.",
 I, [m("operator==(indirect, U), operator<=>(indirect, U) and the C++14 overload set", "indirect.h, indirect_cxx14.h")], ST)

prop("C14", "Hashing is the owned value's hash and agrees with equality",
 "std::hash of an indirect equals std::hash of the owned value for every value and allocator, equal indirects hash equally, and hashing a valueless object is well defined and always yields the same result. Hashing neither changes nor needs to copy the owned object.",
 ["inputs"], "all values, allocators, valueless or not",
 "Tests hash 42.", I, [m("std::hash<xyz::indirect<T, A>>", "indirect.h, indirect_cxx14.h")], ST)

prop("C15", "Assigning a value to an indirect reuses the owned object",
 "Copy assignment between indirects with equal allocators and assignment of a plain value assign to the existing owned object in place (exactly one assignment, forwarded as const lvalue, lvalue or rvalue as given, no allocation, same address), so references to the owned object stay valid. If the target is valueless, a new object is constructed directly from the forwarded value with the target's own allocator, which never changes.",
 ["inputs", "configurations", "fault_sequences"],
 "all values, value categories, allocators, valueless or not, failing or not, owned types assignable from other types or from anything",
 "Tests assign the constant 42 and only check the value.",
 I, [m("operator=(const indirect&) in-place branch, operator=(U&&)", "indirect.h, indirect_cxx14.h")], ST)

prop("C16", "Accessors reach the one owned object and propagate const and value category",
 "All accessors of an object (operator* and operator->, const or not, lvalue or rvalue) refer to the same owned object at a stable address, across moves and swaps; access through a const object is const, dereferencing an rvalue indirect yields an rvalue, and a write through a non-const accessor is what every accessor subsequently reads. polymorphic gives the correctly adjusted base subobject also under multiple and virtual inheritance.",
 ["inputs", "histories", "configurations"],
 "all values and states, several owned types and base layouts, after any single operation",
 "Tests check overload selection on one object and one two-base class, only directly after construction.",
 H, [m("operator*, operator->", "all four headers"), m("control_block::p_", "polymorphic*.h")], ST)

prop("C17", "Operations declared noexcept never fail",
 "No member or non-member operation that is noexcept for a given allocator and owned type ever meets an exception from the allocator or the owned type, so the program is never terminated: destruction, accessors, valueless_after_move, get_allocator, swap, and move construction and move assignment wherever they are declared noexcept.",
 ["fault_sequences", "configurations", "inputs"],
 "all traits combinations, allocator identities and states, with a failure possible at every allocation and owned-type copy, move or assignment",
 "A test that terminates is only written for scenarios someone thought of; none injects a failure into a noexcept operation.",
 H, [m("noexcept specifications of moves, swap and accessors", "all four headers")], ST)

prop("C18", "Constructors build the owned object once, in place, from the given arguments",
 "Each constructor creates the owned object with exactly one constructor call of the owned type and one allocation, passing every argument on with its value and value category and in order (initializer lists included), without temporaries, extra copies or moves of the owned object. This holds for every owned type, including types constructible from anything: constructing from, or assigning, another indirect or polymorphic of the same type always copies or moves it rather than converting it.",
 ["inputs", "configurations"],
 "all argument values, value categories, constructor forms with and without allocator, owned types including greedy ones",
 "Tests use integer arguments and check the value only.",
 H, [m("constructor set and construct_from / create_control_block", "all four headers")], ST)

prop("C19", "Const operations write nothing, so concurrent readers never race",
 "Copying from, comparing, hashing, dereferencing and querying a const indirect or polymorphic write to no memory that existed before the operation, other than through the user's own allocator, owned type and the destination object: neither the source object, nor its owned object or bookkeeping, nor any global state. Different threads may therefore use the same const object, and different objects, concurrently without synchronisation.",
 ["schedules", "inputs", "configurations"],
 "all values, states, allocators and failure points of each const operation; any interleaving of readers, by absence of conflicting writes",
 "No test is multi-threaded, and a hidden cache, counter or temporary write-back is invisible to single-threaded value checks.",
 H, [m("const members and copy sources", "all four headers")], ST)

prop("C20", "The C++14 and C++20 implementations behave the same",
 "For owned and allocator types supported by both, every sequence of operations on the C++14 headers has the same observable effects as on the C++20 headers: same values, dynamic types, valueless states, allocators and comparison and hash results, same allocations, deallocations and owned-type operations in the same order, and the same exceptions.",
 ["histories", "inputs", "fault_sequences", "configurations"],
 "all operation sequences up to the bound from any initial states with the same symbolic inputs and failures on both sides, per traits combination",
 "The same test source runs against both headers, but never against each other, and only on the constants the tests use.",
 H, [m("duplicated implementations", "indirect.h vs indirect_cxx14.h, polymorphic.h vs polymorphic_cxx14.h")], ST)

prop("C21", "Assigning from inside the owned object is safe",
 "In recursive types, where the owned object itself contains an indirect or polymorphic of the same type (list, expression tree), moving from such a nested object into the owner (for example head = std::move(head->next)), or for polymorphic copying from it, leaves the owner with the nested object's value and releases everything else exactly once.",
 ["inputs", "histories", "configurations"],
 "all values and nesting shapes up to the bound, nested object valueless or not, stateless and stateful allocators",
 "No test nests an indirect or polymorphic inside its own owned object.",
 H, [m("order of transfer and reset in operator=", "all four headers")], ST)

prop("C22", "Composite classes get correct value semantics from the generated members",
 "A class with indirect and polymorphic members and compiler-generated special members behaves as a value: copies are deep and equal to the original, moves transfer all members, swap exchanges them, and a member copy that throws during construction releases the members already built. Nesting the types in each other, in std::optional or in std::vector (including growth of the vector while copies or allocations fail) keeps these guarantees, and so do the other standard containers and the algorithms that sort, permute or remove elements. Containers rely on the moves of an always-equal allocator being noexcept: growth, insertion and erasure then hand over the owned objects instead of copying them.",
 ["inputs", "fault_sequences", "configurations"],
 "all member values and states, a failure at every allocation and owned-type operation, vector sizes up to the bound",
 "Composites are only compiled, not run, and container tests use no failures.",
 H, [m("special members and their noexcept", "all four headers")], ST)

prop("C23", "Supplied test allocators count and identify truthfully",
 "The tracking allocator's counters equal the number of successful-or-attempted allocations and of deallocations made through it and all its copies and rebound copies; the tagged and tracking allocators' equality is exactly equality of their tags or counters and survives copying and rebinding; both return usable storage of the requested size.",
 ["inputs", "histories"], "all tags, counter values and sequences of allocations up to the bound",
 "They are only used as tools by the tests, never tested over values.",
 ["tracking_allocator.h", "tagged_allocator.h"], [m("allocate/deallocate/operator==", "tracking_allocator.h, tagged_allocator.h")])

prop("C24", "All constexpr operations are usable in constant expressions",
 "Every constructor, assignment, accessor, swap, comparison and hash of the C++20 indirect and polymorphic can be evaluated in a constant expression when the owned type and allocator allow it, with the same result as at run time.",
 ["programs"], "all constant-expression programs using the C++20 headers",
 "compile_checks evaluates one example per operation.",
 ["indirect.h", "polymorphic.h", "compile_checks/indirect_consteval.cc"], [m("constexpr members", "indirect.h, polymorphic.h")])

prop("C25", "Constraints and type traits report what is supported",
 "Constructor and assignment constraints, deduction guides, explicitness, sizes and nested types are as documented, and the templates accept incomplete owned types wherever the documentation allows them, including as members of composites, pimpls and variants.",
 ["programs"], "all programs instantiating the templates",
 "compile_checks and static tests instantiate one example each.",
 H + ["feature_check.h"], [m("requires clauses / enable_if / static_assert", "all four headers"), m("compile checks", "compile_checks/")])

prop("C26", "The exploratory wrappers own one object each and copy deeply",
 "xyz::wrapper and xyz::constrained_wrapper (exploration/wrapper.h) each own exactly one heap object: default construction builds it, copy construction builds a separate object with the source's value by one copy from a const source, copy assignment (self-assignment included) leaves both objects owning separate objects of equal value, and every object is destroyed and its memory freed exactly once. operator== compares the owned objects. When the owned type or operator new throws, nothing is leaked and no wrapper changes. Composites with generated members (exploration/incomplete_types.h) inherit all of this.",
 ["inputs", "fault_sequences"],
 "all owned values, every point at which the owned type or operator new may throw, composites of the wrappers, unique_ptr, vector and variant",
 "incomplete_types_test.cc default-constructs, copies and compares one empty class per composite: no value, no assignment, no failure, no leak check.",
 ["exploration/wrapper.h", "exploration/incomplete_types.h", "exploration/incomplete_types.cc"],
 [m("wrapper, constrained_wrapper", "exploration/wrapper.h"), m("composites over an incomplete type", "exploration/incomplete_types.cc")],
 [{"name": "owned pointer", "meaning": "the one owned object, never null", "where": "wrapper::t_, constrained_wrapper::t_"}])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in props: f.write(json.dumps(p, ensure_ascii=False) + "\n")
