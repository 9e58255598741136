"""Writes properties.jsonl and the checks of MANIFEST.json (single source for both)."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
H = "include/sfl/"
VEC = [H + x for x in ("vector.hpp", "small_vector.hpp", "static_vector.hpp", "compact_vector.hpp")]
DEV = [H + "devector.hpp"]
SEG = [H + "segmented_vector.hpp", H + "segmented_devector.hpp"]
PRIV = [H + "private.hpp"]
OF = [H + "%s_flat_%s.hpp" % (a, b) for a in ("small", "static") for b in ("set", "map", "multiset", "multimap")]
UF = [H + "%s_unordered_flat_%s.hpp" % (a, b) for a in ("small", "static") for b in ("set", "map", "multiset", "multimap")]
OFM = [f for f in OF if "map" in f]
UFM = [f for f in UF if "map" in f]
P = []


def p(id, title, statement, over, qtext, why, files, mech, tech=None, note=None, level="proof", state=()):
    P.append(dict(rec=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                           anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                        observe_at=["public member functions of the containers"], hook_needed=None)),
                  tech=tech, note=note, level=level))


TECH = "contract-based deductive verification of the real headers (own VC generator over LLVM IR, z3), native replay"
NOTE = "Every obligation of the contracts is discharged by z3 for all sizes, capacities, positions, values and failure points; template instantiations, element/allocator contracts, compiler front end and the VC generator are trusted (see evidence: trusted_base, assumptions). "

SEGNOTE = "The segmented containers are covered by bounded native execution of their contracts only. "

p("C01", "Contiguous vectors hold exactly the sequence their operations define",
  "After any construction, assignment, insertion, emplacement, removal, resize or clear on a vector, small vector, static vector or compact vector, the container holds exactly the sequence of values that operation defines: the untouched elements in their old order, the new values at the stated position, the right size, and a returned position or reference that designates the right element. This also holds when the inserted value is itself an element of the container.",
  ["inputs", "histories"], "every reachable container state (any size, any spare capacity, internal or heap storage), every position, count, value and source range, including values that alias elements",
  "The tests run each operation on a handful of literal containers; a relocation or shifting error that needs a particular relation between size, capacity, position and count is outside them.",
  VEC + PRIV, [("insert/emplace/erase/assign/resize and reallocation paths", H + "vector.hpp"), ("uninitialized_* and move helpers", H + "private.hpp")], TECH, NOTE)
p("C02", "Double-ended vector holds exactly the sequence its operations define",
  "After any operation on a double-ended vector (including insertion and resizing at the front, at the back and in the middle) it holds exactly the sequence that operation defines, whichever way the elements were shifted or reallocated, and returned positions and references designate the right element. This also holds when the inserted value is itself an element of the container.",
  ["inputs", "histories"], "every combination of size, front gap, back gap, position, count and value, and all the shifting and growing strategies they select",
  "Insertion has a dozen shifting layouts selected by the relation of front gap, back gap, position and count; tests visit a few of these relations with fixed numbers.",
  DEV + PRIV, [("insert_aux and its shift_to_front / shift_to_back / grow_storage variants", H + "devector.hpp")], TECH, NOTE)
p("C03", "Segmented containers hold exactly the sequence their operations define",
  "After any operation on a segmented vector or a segmented double-ended vector (construction, assignment, insertion, emplacement and removal at any position, growth at either end, resize, reserve, shrink, clear, swap) it holds exactly the sequence that operation defines, and returned positions and references designate the right element. Growth at an end leaves the addresses of the existing elements unchanged, and an inserted value may be an element of the container.",
  ["inputs", "histories"], "every container state (any size, any alignment of the ends to segment boundaries, any spare segments on either side), every position, count and value, and every history of operations",
  "Tests use one segment size and a few sizes; errors depend on where the ends lie relative to segment and table boundaries and on spare segments left by earlier operations.",
  SEG + PRIV, [("insert, erase and resize over segments", H + "segmented_devector.hpp"), ("grow_storage, table relocation", H + "segmented_vector.hpp"), ("segmented copy/move/destroy helpers and iterators", H + "private.hpp")],
  "contracts executed natively on bounded states (bounded stand-in for deductive verification)", "Bounded: the contracts are executed on the real headers for small states, arguments, failure points and histories (enumerated, then sampled); nothing is proved for this property. ", level="exploration")
p("C04", "Every element is constructed once, destroyed once, and used only while alive",
  "No operation of any container, on success or on failure, constructs an element over a living one, reads, assigns or destroys a dead one, or accesses memory outside its storage. When the operation ends, exactly the elements the containers hold are alive: nothing is leaked and nothing a container holds has been destroyed.",
  ["inputs", "fault_sequences", "histories"], "every container state and argument, and every point at which an element operation or allocation may throw",
  "Tests use well-behaved element types on few sizes and do not account for every construction and destruction at every possible failure point.",
  VEC + DEV + SEG + OF + UF + PRIV, [("construct/destroy helpers and scope guards", H + "private.hpp"), ("relocation with scope guards", H + "devector.hpp")], TECH, NOTE + SEGNOTE)
p("C05", "Storage is released once, with the size and allocator it was requested with",
  "Every block of memory a container requests is released exactly once, with the same element count it was requested with and through an allocator equal to the one that supplied it, and never while it still contains living elements. No block is leaked, also when an element operation or a later allocation throws, and no request exceeds the address range.",
  ["inputs", "fault_sequences", "configurations"], "every container state, argument, failure point and allocator propagation setting",
  "The default test allocator ignores the size and identity passed on release, so a mismatch or leak on a rare path goes unnoticed.",
  [VEC[0], VEC[1], VEC[3]] + DEV + SEG + [f for f in OF + UF if "small" in f] + PRIV, [("allocate/deallocate pairing in growth, assignment and swap paths", H + "private.hpp")], TECH, NOTE + SEGNOTE)
p("C06", "A failing operation leaves containers valid; reserve-like calls have no effect",
  "When an element operation, a comparison or an allocation throws, or a size limit is exceeded, the operation reports that failure and leaves all containers involved valid: well-formed size and capacity, all held elements alive, nothing leaked, allocator unchanged. A failing reserve or shrink_to_fit leaves contents and their storage exactly as they were.",
  ["fault_sequences", "inputs"], "every element operation or allocation of every operation, as the one that fails, in every container state",
  "Tests inject few or no failures; a guard covering the wrong range only shows when one specific copy or move throws.",
  VEC + DEV + SEG + OF + UF + PRIV, [("scope guards", H + "private.hpp"), ("try/catch in growth paths", H + "vector.hpp")], TECH, NOTE + SEGNOTE)
p("C07", "Capacity is honest: no needless reallocation or heap use, right limits",
  "Size never exceeds capacity; reserve provides at least what was asked and never shrinks; operations that fit in the available capacity neither reallocate nor move the storage; a small container whose elements fit the embedded storage uses no heap, and a static one never allocates. A length error is reported exactly when the request exceeds the maximum size and no request overflows.",
  ["inputs", "histories"], "every size, capacity, requested amount (up to the largest representable) and container state",
  "Tests check capacities after a few calls with small numbers; arithmetic near the maximum size and odd size/capacity relations are not reached.",
  VEC + DEV + SEG + OF + UF, [("capacity computation", H + "vector.hpp"), ("calculate_new_capacity / calculate_additional_capacity_*", H + "devector.hpp")], TECH, NOTE + SEGNOTE)
p("C08", "Ordered flat containers stay sorted, unique and exact",
  "After every operation an ordered flat set, map, multiset or multimap (small or static) holds its elements in the order of its comparator, strictly increasing in the unique ones, and holds exactly the elements the operation defines: insertion adds exactly the new element when its key is absent (or always, in the multi containers) and otherwise changes nothing and designates the equivalent element; erasure removes exactly the designated elements. The comparator travels with copies, moves and swaps.",
  ["inputs", "histories"], "every container state (size, capacity, embedded or heap storage), every comparator, key, hint, position and element, including elements of the container itself",
  "Tests insert a few integers with std::less and good hints; a wrong hint, an equivalent key at a boundary or a stateful comparator is not exercised for all positions.",
  OF + PRIV, [("insert_aux / emplace_aux / hint checks", H + "small_flat_set.hpp"), ("insert_exactly_at, erase", H + "static_flat_map.hpp")], TECH, NOTE + "Range, initializer-list and erase_if operations are bounded (executed natively on small states, labelled bounded). ")
p("C09", "Flat containers' lookups agree with a linear scan",
  "find, contains, count, lower_bound, upper_bound and equal_range of the flat containers, for keys of the key type and for keys of any comparable type, return exactly what a linear scan with the container's comparator or equivalence would: the element with the key or end(), the number of such elements, the exact bounds. A lookup changes nothing.",
  ["inputs"], "every container state satisfying the order or uniqueness invariant, every key and every comparator or equivalence",
  "Tests look up a few present and absent keys in one container; boundaries, repeated keys and transparent keys are only sampled.",
  OF + UF, [("find, lower_bound, upper_bound, equal_range, count", H + "small_flat_multiset.hpp"), ("linear find", H + "small_unordered_flat_map.hpp")], TECH, NOTE + "count() of the unordered multi containers is bounded. ")
p("C10", "Unordered flat containers hold exactly the elements inserted and not erased",
  "After every operation an unordered flat set, map, multiset or multimap (small or static) holds exactly the elements its history defines, with no two equivalent keys in the unique ones: insertion adds exactly the new element when its key is absent (or always, in the multi containers) and otherwise changes nothing and designates the equivalent element; erasure removes exactly the designated elements and keeps every other. The key equivalence travels with copies, moves and swaps.",
  ["inputs", "histories"], "every container state, equivalence, key, position, range and element, including elements of the container itself",
  "Erasure fills holes with elements from the end; which element moves where depends on position and size, and tests try few combinations.",
  UF + PRIV, [("insert, emplace, erase with hole filling", H + "small_unordered_flat_set.hpp")], TECH, NOTE + "Range, initializer-list and erase_if operations, and erasure by key in the multi containers, are bounded. ")
p("C12", "Map insertion variants insert, assign or leave alone exactly as specified",
  "In the ordered and unordered flat maps insert_or_assign inserts the pair when the key is absent and otherwise assigns only the mapped value; try_emplace inserts when absent and otherwise changes nothing and does not consume its arguments; subscripting inserts a default mapped value when absent and designates the mapped value of the key. Each reports whether it inserted and designates the right element, with or without a hint and for keys of another type.",
  ["inputs", "histories"], "every container state, key, mapped value, hint and comparator or equivalence",
  "Tests use a few integer keys; the not-inserted path with a full container, a hint or rvalue arguments is rarely exercised.",
  [f for f in OF + UF if f.endswith("_map.hpp")], [("insert_or_assign, try_emplace, operator[]", H + "small_flat_map.hpp")], TECH, NOTE)
p("C11", "Positions obey random-access iterator laws",
  "Iterator arithmetic, differences, ordering, increments, subscripts, conversions and reverse traversal of all containers agree with the positions of the elements; the n-th position designates the n-th element, its index is n, and end minus begin equals the size.",
  ["inputs"], "every container state and every pair of positions in it",
  "Tests walk a few iterators of a few containers; segment boundaries and end positions only matter at particular indexes.",
  VEC + DEV + SEG + OF + UF + PRIV, [("iterator classes", H + "private.hpp")], TECH, NOTE + SEGNOTE)
p("C13", "Copy, move and swap transfer contents and allocators as documented",
  "Copying yields an equal container and leaves the source unchanged; moving and swapping transfer exactly the source contents; allocators propagate on copy assignment, move assignment and swap exactly as their traits say, copy construction asks the allocator which one to use, and storage is taken over without touching elements whenever the allocators allow it. Self-assignment and self-swap keep the contents.",
  ["inputs", "configurations", "fault_sequences"], "every pair of container states, all propagation trait combinations, equal and unequal allocators, every failure point",
  "Tests use always-equal allocators on fixed contents, so propagation mistakes and mixed embedded/heap storage pairs are not exercised.",
  VEC + DEV + SEG + OF + UF + PRIV, [("assign_move/assign_copy and swap", H + "small_vector.hpp")], TECH, NOTE + SEGNOTE)
p("C14", "Comparison operators compare contents element-wise and lexicographically",
  "Two sequence or ordered flat containers are equal exactly when they have the same size and equal elements position by position; less, greater and their negations are the lexicographic order of the elements. Two unordered flat containers are equal exactly when they hold the same elements in any order. Comparing changes nothing.",
  ["inputs"], "every pair of containers and element values",
  "Tests compare a few literal pairs.",
  VEC + DEV + SEG + OF + UF, [("operator== ... operator>=", H + "vector.hpp")], TECH, NOTE + SEGNOTE)
p("C15", "Checked access accepts exactly the valid positions and present keys",
  "Checked element access by position returns the element at that position when the position is below the size and throws an out-of-range error for every other position; checked access by key in the flat maps returns the mapped value of that key and throws when the key is absent. Neither changes the container.",
  ["inputs"], "every container state and every position value up to the largest representable",
  "Tests try a few positions; off-by-one bounds need the exact boundary of each container kind.",
  VEC + DEV + SEG + OFM + UFM, [("at()", H + "vector.hpp")], TECH, NOTE + SEGNOTE)

p("C16", "Bulk operations follow the element-wise definition, from any kind of range",
  "erase and erase_if remove exactly the equal or matching elements, keep the others (in order in the sequence and ordered containers) and return the number removed. Constructing, assigning or inserting from a single-pass range reads every source element once and in order, and gives the same result as from a range that can be read repeatedly; both keep elements and storage accounted for when an operation fails midway.",
  ["inputs", "fault_sequences"], "every container state, every predicate or value, every source length and insertion position, every failure point",
  "Tests erase from one literal container and rarely use single-pass sources; the longer, shorter and empty-source cases and failures midway are not covered.",
  VEC + DEV + SEG + OF + UF, [("erase, erase_if", H + "vector.hpp"), ("initialize_range, assign_range, insert_range for input iterators", H + "devector.hpp")],
  "contracts executed natively on bounded states (bounded stand-in for deductive verification)", "Bounded: the contracts are executed on the real headers for small states, arguments, failure points and histories (enumerated, then sampled); nothing is proved for this property. ", level="exploration")

if __name__ == "__main__":
    with open(os.path.join(R, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x["rec"]) + "\n")
    na = json.load(open(os.path.join(R, "tools", "not_applicable.json")))
    m = dict(version=1, setup_cmd="python3 -c \"print('nothing to build')\"",
             checks=[dict(property=x["rec"]["id"], quick_cmd="python3 check.py %s quick" % x["rec"]["id"], thorough_cmd="python3 check.py %s thorough" % x["rec"]["id"],
                          technique=x["tech"], level=x["level"], level_note=x["note"]) for x in P if x["tech"]],
             not_applicable=na, notes="No hooks in /repo. Each check compiles the current headers with the contracts in /verif/harness and proves every obligation anew.")
    json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
