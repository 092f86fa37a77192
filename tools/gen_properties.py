#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
I = "include/boost/multi_index/"
D = I + "detail/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": ["public interface of multi_index_container and its indices"], "hook_needed": None}})

H = "include/boost/multi_index_container.hpp"
p("C01", "All indices of a container always hold exactly the same elements",
  "After any sequence of public operations, every index of a multi_index_container traverses exactly the same set of elements (same addresses, each once, forwards and backwards), each traversal agreeing with size() and empty(), and every index satisfies its own invariant (order, bucket membership, uniqueness, sequence). "
  "An element is either in all indices or in none: an insertion, replacement, modification, node insertion or transfer refused by any one index leaves no trace in the others and, where the interface has one to report, names an element that blocks it (its position and false).",
  ["histories", "inputs", "configurations"], "all operation histories over all index lists, in any order of index kinds",
  "Tests check hand-written sequences on a few index lists; a stale link in one index needs a specific mix of operations on another index to become visible.",
  [H, D + "index_base.hpp", D + "ord_index_impl.hpp", I + "hashed_index.hpp", I + "sequenced_index.hpp", I + "random_access_index.hpp"],
  [("insert_/erase_/replace_/modify_ chained through the index hierarchy", H), ("final_insert_/final_erase_/final_replace_/final_modify_", D + "index_base.hpp")],
  [("node_count", "number of elements", H), ("header", "one sentinel carrying the links of every index", H)])
p("C02", "Ordered indices: sortedness, lookup, bounds, ranges and hinted insertion",
  "An ordered index is always sorted by its comparison predicate, unique ones have no two equivalent keys, and find, contains, count, lower_bound, upper_bound, equal_range and range (with every combination of bounds, and with compatible keys and compatible predicates) return exactly what a linear scan with the predicate would. "
  "In a non-unique ordered index an element is inserted at the upper end of its group of equivalents, and with a hint it goes as close to the hint as the order allows; elements with equivalent keys otherwise never change relative order.",
  ["histories", "inputs"], "all histories, key multisets, keys, bounds and hints",
  "Tree shapes depend on the whole insertion and deletion history; unit tests reach a handful of them and few hint positions.",
  [D + "ord_index_impl.hpp", D + "ord_index_ops.hpp", D + "ord_index_node.hpp", I + "ordered_index.hpp"],
  [("link_point/hinted_link_point, rebalance, rebalance_for_extract", D + "ord_index_impl.hpp"), ("ordered_index_lower_bound etc.", D + "ord_index_ops.hpp")])
p("C03", "Hashed indices: lookup, bucket structure, load factor and grouping",
  "In a hashed index, elements with equal keys are always adjacent, unique ones hold no two equal keys, and find, contains, count and equal_range (also with compatible keys, hash functions and equality predicates) agree with a linear scan using the equality predicate; every element is in bucket(key) and the buckets partition the elements. "
  "bucket_count, load_factor and max_load_factor obey their contracts: the load factor does not exceed the maximum after insertions, insertions that keep within it do not change the number of buckets, rehash(n) and reserve(n) give at least the requested buckets, and erasing or rehashing never loses, duplicates or splits a group of equivalent elements.",
  ["histories", "inputs"], "all histories and all hash functions, including heavily colliding ones",
  "Group linking in a bucket has many shapes (group size 1, 2, more; first, middle, last in bucket) whose transitions only arbitrary histories with collisions reach.",
  [I + "hashed_index.hpp", D + "hash_index_node.hpp", D + "bucket_array.hpp", D + "hash_index_iterator.hpp"],
  [("hashed_index_node_alg link/unlink/transfer", D + "hash_index_node.hpp"), ("unchecked_rehash, check_for_hash_rehash", I + "hashed_index.hpp")])
p("C04", "Sequenced indices keep exactly the order given by their operations",
  "A sequenced index behaves as a list: push_front, push_back, insert, emplace, assign, resize, pop and erase (single, range) put and remove elements at exactly the requested position and never disturb the relative order of the others, and front, back and iteration reflect that order. "
  "Insertions rejected by another index leave the sequence as it was.",
  ["histories", "inputs"], "all histories of list operations, alone or combined with indices that reject elements",
  "Tests check a few positions with few elements; interplay with rejecting indices and boundaries multiplies the cases.",
  [I + "sequenced_index.hpp", D + "seq_index_node.hpp", D + "seq_index_ops.hpp"],
  [("sequenced_index_node_impl link/unlink/relink", D + "seq_index_node.hpp"), ("insert/assign/resize/erase", I + "sequenced_index.hpp")])
p("C05", "Random access indices keep order and exact positions",
  "A random access index behaves as an array of elements: operator[], at (which throws out_of_range past the end), iterator arithmetic, differences and comparisons agree with the position of each element, and insertions, erasures (single, range), push and pop at either end, assign and resize put and remove elements at exactly the requested position without disturbing the order of the rest. "
  "capacity never falls below size, reserve(n) provides at least n and shrink_to_fit exactly size.",
  ["histories", "inputs"], "all histories and positions, including growth and shrinking of the internal array",
  "Positions are stored redundantly (array slot and back pointer); a slip shows only for particular positions and sizes around reallocation.",
  [I + "random_access_index.hpp", D + "rnd_index_node.hpp", D + "rnd_index_ops.hpp", D + "rnd_index_ptr_array.hpp", D + "rnd_node_iterator.hpp"],
  [("ptr array and up() back pointers", D + "rnd_index_ptr_array.hpp"), ("relocate/extract", D + "rnd_index_node.hpp")])
p("C06", "Ranked indices: ranks always equal positions",
  "In a ranked index, rank(it) is the number of elements before it and nth(n) is the element at position n (end() and size() correspond), for every element after every operation. "
  "count, find_rank, lower_bound_rank, upper_bound_rank, equal_range_rank and range_rank return exactly the ranks of the positions that the corresponding non-rank lookups return, also for compatible keys and predicates.",
  ["histories", "inputs"], "all histories and keys",
  "Subtree sizes must be maintained through every rotation of every insertion, deletion and relink; the tests reach few rebalancing shapes.",
  [I + "ranked_index.hpp", D + "rnk_index_ops.hpp", D + "ord_index_node.hpp", D + "ord_index_impl.hpp"],
  [("augmented size field updated in add/remove/rotate", I + "ranked_index.hpp"), ("ranked_node_size, ranked_index_nth/rank", D + "rnk_index_ops.hpp")])
p("C07", "replace, modify and modify_key are all-or-erased and keep every index right",
  "replace either succeeds with the new value in its right place in every index or, if any index refuses it, leaves the container unchanged and returns false. "
  "modify and modify_key either end with the modified element in its right place in every index, or return false with the element erased from all of them or, if a rollback was given and restores an acceptable value, kept with its original value; an exception from the modifier erases the element unless the rollback restores it. "
  "An element whose new key does not require a move keeps its position, and no other element is affected.",
  ["histories", "inputs", "fault_sequences"], "all histories, elements, new values (colliding in any index or none), modifiers and rollbacks",
  "Outcome depends on the combination of per-index decisions (in place, relink, refuse) and on their order; tests cover single collisions.",
  [H, D + "ord_index_impl.hpp", I + "hashed_index.hpp", D + "modify_key_adaptor.hpp", D + "index_base.hpp"],
  [("replace_/modify_/modify_rollback_/check_rollback_", D + "ord_index_impl.hpp + hashed_index.hpp + sequenced_index.hpp + random_access_index.hpp"), ("do_not_erase / rollback paths of modify", H)])
p("C08", "Strong exception guarantee of single-element, policy and copy operations",
  "If user code (constructors, assignment, comparison, hash, equality, key extraction) or the allocator throws during a single-element insert, emplace, push, hinted or node insertion, replace, lookup, extract by key, rehash, reserve, shrink_to_fit, copy construction, assignment or swap, the exception reaches the caller and both containers (and the node handle) hold the same elements in the same orders as before, hashed indices excepted in their bucket count only. "
  "If a modifier throws, the element alone is erased, or kept if the rollback restores it; nothing leaks and the container stays fully usable.",
  ["fault_sequences", "histories"], "every throw point of every operation, after any history, including repeated failures",
  "Tests throw at one or two hand-picked points; the guarantee quantifies over each throw point in each index kind and position in the index list.",
  [H, D + "auto_space.hpp", D + "copy_map.hpp", D + "ord_index_impl.hpp", I + "hashed_index.hpp", I + "random_access_index.hpp"],
  [("link only after all indices accepted; final_node_type allocation guard", H), ("auto_space, scope_guard", D + "auto_space.hpp, " + D + "scope_guard.hpp")])
p("C09", "Basic exception guarantee of bulk and list operations",
  "If user code or the allocator throws during a range insertion, assign, resize, erase by key, merge, splice, remove, remove_if, unique, sort, or rearrange, the exception reaches the caller and every container involved stays coherent: every element is in exactly one container and in all its indices, no element is lost other than those the operation was meant to remove, nothing leaks, and every later operation works. "
  "Single-element merge and splice have no effect when they throw, and elements processed before the exception are in their final state.",
  ["fault_sequences", "histories"], "every throw point of every bulk operation, after any history",
  "A partially performed splice or sort is only examined by tests at a few points, if at all.",
  [I + "sequenced_index.hpp", I + "random_access_index.hpp", D + "seq_index_ops.hpp", D + "rnd_index_ops.hpp", D + "copy_map.hpp", H],
  [("sequenced_index_collate/sort", D + "seq_index_ops.hpp"), ("random_access_index_remove/unique/inplace_merge guards", D + "rnd_index_ops.hpp"), ("transfer_ / merge", H)])
p("C10", "Memory safety and exact object lifetimes",
  "No operation on valid arguments performs an out-of-bounds, use-after-free or misaligned access, a data-dependent use of uninitialised memory, or other undefined behaviour. "
  "Each element is constructed once and destroyed once, always used at the address where it was constructed, and every node and array allocated is released exactly once, with nothing left over when the containers and node handles are gone.",
  ["histories", "inputs", "configurations", "fault_sequences"], "all histories over all index kinds, also those interrupted by exceptions",
  "Unit tests are not run under sanitizers by default and do not count constructions and destructions over arbitrary histories.",
  [H, D + "node_type.hpp", D + "node_handle.hpp", D + "auto_space.hpp", D + "hash_index_node.hpp", D + "ord_index_node.hpp"],
  [("allocate_node/deallocate_node/construct_value/destroy_value", H), ("compressed parent/colour pointers", D + "ord_index_node.hpp")])
p("C11", "Allocators: propagation, equality and matching deallocation",
  "All memory comes from the container's allocator (or a rebind of it) and every block returns, with the size it was requested with, to an allocator equal to the one that provided it. "
  "Copy construction, copy and move assignment, swap, allocator-extended construction and get_allocator honour the propagation traits and select_on_container_copy_construction, and element-wise transfer happens exactly when allocators differ and do not propagate; elements survive these operations whatever the combination.",
  ["configurations", "histories"], "all combinations of propagation traits and of equal or unequal allocator instances, after any history",
  "Tests use one recording allocator in short sequences; mismatches surface only when a container that received its allocator by one path later frees memory by another.",
  [H, D + "allocator_traits.hpp", D + "bucket_array.hpp", D + "rnd_index_ptr_array.hpp", D + "node_handle.hpp", D + "auto_space.hpp"],
  [("copy/move assignment with propagation dispatch", H), ("bucket and pointer arrays hold their own allocator through auto_space", D + "bucket_array.hpp")])
p("C12", "Iterators and references stay valid and projection identifies elements",
  "Iterators, references and pointers to an element, in every index, remain valid and keep denoting that element through every operation that does not remove it: insertions, erasures of others, rehash, reserve, rearrangement, replace, modify, splice, merge, move construction, equal-allocator move assignment and swap (end iterators too, where documented); node extraction and reinsertion preserve the element's address. "
  "project and iterator_to convert between an element, an iterator in one index and an iterator to the same element in any other, mapping end to end.",
  ["histories"], "all histories, all elements, all pairs of indices",
  "Tests keep an iterator or two across one operation; stability quantifies over every iterator and every later operation.",
  [H, D + "bidir_node_iterator.hpp", D + "rnd_node_iterator.hpp", D + "hash_index_iterator.hpp", D + "converter.hpp"],
  [("iterators hold the node", D + "bidir_node_iterator.hpp"), ("project", H), ("swap exchanges headers", H)])
p("C13", "Node handles and merge transfer elements without loss, copy or duplication",
  "extract removes the element from every index and hands it over unmoved; inserting a node handle either consumes it or, if an index refuses, returns it in the result together with the position of an element that blocks it; dropping a handle destroys its element once. "
  "merge transfers between containers of the same node type (also of different uniqueness and predicates) exactly the elements the destination accepts, leaves the rest in the source untouched, and the two containers together always hold the same elements as before.",
  ["histories", "fault_sequences"], "all histories of extractions, insertions and transfers among several containers",
  "Conservation must hold whichever index refuses and at whichever step; tests try one refusal.",
  [D + "node_handle.hpp", H, D + "index_base.hpp", D + "any_container_view.hpp", D + "ord_index_impl.hpp", I + "hashed_index.hpp"],
  [("extract_/insert_node/transfer_", H), ("node_handle, insert_return_type", D + "node_handle.hpp")])
p("C14", "Copy, move, swap, assignment and comparison have value semantics",
  "A copy has equal elements in the same order in every index, with the same function objects, arguments and maximum load factors, and shares nothing with the original; moving and swapping transfer contents, orders, function objects and policies wholesale, also to and from empty containers and on self-assignment and self-swap; assigning a list gives the contents of a fresh container built from it. "
  "The comparison operators of each index equal the comparisons of its sequences (for hashed indices, equality as multisets of equal elements).",
  ["histories", "inputs"], "all contents and histories of the containers involved",
  "Copying rebuilds all indices through a node map, so errors depend on content, order and index combination; tests copy a few small containers.",
  [H, D + "copy_map.hpp", D + "ord_index_impl.hpp", I + "hashed_index.hpp", I + "sequenced_index.hpp", I + "random_access_index.hpp", D + "value_compare.hpp"],
  [("copy_construct_from, copy_ via copy_map", H), ("swap_/swap_elements_ per index", H)])
p("C15", "Serialization restores contents, all orders and iterators; bad input is safe",
  "Saving a container and loading it into another, whatever the latter held before, through text, binary or XML archives, yields a container with the same elements in every index, in the same order except in hashed indices, and a saved iterator to an element or to the end of any index loads as the iterator to the corresponding position. "
  "If loading fails, because the archive is truncated or corrupted, an element clashes or an exception is thrown, the container is left coherent, nothing leaks, and elements that the indices refuse are reported with an exception.",
  ["inputs", "histories", "fault_sequences"], "all container contents and orders, archive kinds and truncation or corruption points",
  "Orders that are not a function of the keys are rebuilt from a compact list of relocations; tests serialize a few fixed containers and no damaged archive.",
  [H, D + "index_saver.hpp", D + "index_loader.hpp", D + "index_matcher.hpp", D + "rnd_index_loader.hpp", D + "archive_constructed.hpp", D + "bad_archive_exception.hpp", D + "serialization_version.hpp"],
  [("index_matcher finds the longest in-order part; loader rearranges the rest", D + "index_matcher.hpp"), ("save/load", H)])
p("C16", "Safe mode reports every misuse it documents and nothing else",
  "With safe mode on, each documented misuse of iterators (default-constructed, invalidated by erasure, removal, destruction or move-away of their container, of another container, dereferenced or incremented at the end, decremented at the beginning, out-of-range arithmetic, reversed ranges, own-element splice and similar) is reported with the documented error code, in every index kind, before any damage is done. "
  "No correct program gets a report, and observable behaviour is the same as with safe mode off, whatever happened to the containers and iterators before.",
  ["histories", "inputs"], "all histories of creating, copying, assigning and invalidating iterators, and all entry points that take iterators",
  "Each entry point has its own checks and each mutation its own detaching; tests sample one misuse per error code and not each entry point after arbitrary histories.",
  [D + "safe_mode.hpp", I + "safe_mode_errors.hpp", D + "invalidate_iterators.hpp", I + "hashed_index.hpp", I + "sequenced_index.hpp", I + "random_access_index.hpp", D + "ord_index_impl.hpp"],
  [("safe_iterator_base lists attached to safe_container_base", D + "safe_mode.hpp"), ("BOOST_MULTI_INDEX_CHECK_* at each entry point", "include/boost/multi_index/*.hpp")])
p("C17", "Composite keys order, compare and hash like tuples, prefixes included",
  "Comparison, equality and hashing of composite keys equal those of the tuples of their extracted values, component by component with the given or default function objects; equal composite keys and the tuples of their values hash alike. "
  "Lookup with a tuple holding the first k values of the key (or a single value for the first) finds exactly the elements whose first k components match, for every k, tuple kind and index kind that supports it, and comparing a composite key with a composite key or tuple of another length compares lexicographically as many components as the shorter has. No component is extracted or compared beyond the one that decides.",
  ["inputs", "configurations"], "all values, arities, prefix lengths, predicates and directions",
  "Recursive templates with one code path per arity and per operand kind; tests fix a couple of arities and values.",
  [I + "composite_key.hpp", D + "cons_stdtuple.hpp", D + "promotes_arg.hpp", D + "ord_index_ops.hpp"],
  [("compare_ckey_ckey/compare_ckey_cval/hash_ckey/hash_cval recursion", I + "composite_key.hpp")])
p("C18", "Key extractors yield exactly the designated key through any pointer chain",
  "identity, member, const/ref/noexcept member-function extractors, global_fun and key<...> return, for a value, a reference wrapper or any chain of raw or smart pointers to it, exactly the value (and, where they return references, the very object) that the designated member or function gives, and extractors that are assignable through a reference write to it. "
  "An index built on any of these behaves as one built on the same key computed directly.",
  ["inputs", "configurations"], "all extractor kinds, constness, value categories and pointer chains",
  "A combination of extractor, qualification and indirection is a separate overload; tests instantiate a part of them with one value each.",
  [I + "member.hpp", I + "mem_fun.hpp", I + "global_fun.hpp", I + "identity.hpp", I + "key.hpp", I + "key_extractors.hpp"],
  [("operator() overloads for value, pointer chain, reference_wrapper", I + "member.hpp"), ("key<> deduction", I + "key.hpp")])
p("C19", "Concurrent reads of a container, and use of distinct containers, are race-free",
  "Any number of threads may call const member functions (lookups, iteration, ranks, bucket and policy queries, projection, copying, comparison) on the same container at the same time, with no data race and with the results they would get alone. "
  "Threads that each use their own containers and node handles, modifying them freely, never interfere, except through locking that safe mode documents and implements correctly.",
  ["schedules", "histories"], "all interleavings of const operations and all histories on distinct containers",
  "The test suite is single-threaded.",
  [H, D + "ord_index_impl.hpp", I + "hashed_index.hpp", I + "ranked_index.hpp", I + "random_access_index.hpp", D + "safe_mode.hpp", D + "scoped_bilock.hpp"],
  [("no mutable state behind const operations", "include/boost/multi_index/*"), ("safe mode's per-container mutex when threads are enabled", D + "safe_mode.hpp")])
p("C20", "Complexity guarantees of the documented operations",
  "Comparisons, hash calls, equality calls, key extractions, allocations and moves of elements made by each operation stay within the documented bounds at every size: logarithmic for ordered insertion and lookup, amortised constant with a correct hint and for ordered deletion by iterator, logarithmic rank and nth, constant expected hashed lookup independent of duplicates elsewhere, one allocation per inserted node, and no element copies for moves, transfers, rearrangements and sorting. "
  "Trees stay balanced and buckets bounded whatever the history.",
  ["histories", "inputs"], "all sizes and adversarial histories (sorted, reversed, alternating insertions and deletions, many duplicates)",
  "Functional tests cannot see a degenerate tree or quadratic step; results are the same, only slower.",
  [D + "ord_index_node.hpp", D + "ord_index_impl.hpp", I + "ranked_index.hpp", I + "hashed_index.hpp", D + "bucket_array.hpp", D + "seq_index_ops.hpp", D + "rnd_index_ops.hpp", D + "hash_index_node.hpp"],
  [("red-black balance", D + "ord_index_node.hpp"), ("load factor checks", I + "hashed_index.hpp"), ("duplicate groups skipped in constant time", D + "hash_index_node.hpp")])
p("C21", "List operations and rearrangement do exactly what std::list would do",
  "On sequenced and random access indices, splice, merge, sort, unique, remove, remove_if, reverse, relocate and rearrange give the sequence that the same operation on a std::list (or the requested permutation) would give, are stable where std::list's are, call the predicate with arguments in documented order, and leave elements refused by another index of the destination at their place in the source. "
  "The other indices of the containers see only the removals and transfers that result.",
  ["histories", "inputs"], "all sequences, positions, ranges, predicates and pairs of containers and indices",
  "Tests use short fixed sequences; merge and sort have size-dependent paths and splice has source/destination aliasing cases.",
  [I + "sequenced_index.hpp", I + "random_access_index.hpp", D + "seq_index_ops.hpp", D + "rnd_index_ops.hpp", D + "rnd_index_node.hpp"],
  [("sequenced_index_sort/collate/unique/remove", D + "seq_index_ops.hpp"), ("random_access_index_*", D + "rnd_index_ops.hpp"), ("rearrange/relocate", I + "sequenced_index.hpp + " + I + "random_access_index.hpp")])
p("C22", "Same behaviour in every build configuration and with fancy pointers",
  "A program using the container gives the same observable results whatever the compiler, language standard (C++11 to C++20), optimisation level, safe-mode and invariant-checking setting, pointer representation of ordered indices (compressed or not), serialization support, and allocator pointer type. "
  "With an allocator whose pointers are a class type, every operation works as with raw pointers, and only pointers of that type are exchanged with the allocator; with relative pointers (Boost.Interprocess) a container remains intact when the memory it lives in is mapped at another address.",
  ["configurations", "histories"], "all histories, under each supported configuration",
  "The suite is run in one configuration at a time and compares with fixed expectations; agreement between configurations over arbitrary histories is not examined.",
  [D + "ord_index_node.hpp", D + "uintptr_type.hpp", D + "raw_ptr.hpp", D + "safe_mode.hpp", D + "allocator_traits.hpp", D + "vartempl_support.hpp", D + "define_if_constexpr_macro.hpp", D + "hash_index_node.hpp"],
  [("compressed/uncompressed node parts", D + "ord_index_node.hpp"), ("configuration macros", "include/boost/multi_index/*")])
p("C23", "Elements are built from exactly the arguments given and never copied or moved needlessly",
  "Emplacing operations construct one element object directly from their arguments, each forwarded with its value category and in order; insertion of an lvalue makes one copy and no move, of an rvalue one move and no copy, replacement one copy or move assignment of its argument, and a range or list at most one copy per value. "
  "Copying a container copies each element once; moving between unequal allocators moves each element once and copies none. No other operation (modification, erasure, lookup, node handles, merge and splice between containers with equal allocators, move, swap, rehash, reserve, sort, reverse, relocate, rearrange) constructs, copies, moves or assigns element objects.",
  ["histories", "inputs"], "all histories, index kinds and argument lists, accepted and refused operations",
  "Tests look at resulting values, which a superfluous copy does not change, and try few argument lists; that nothing is copied must hold on every path, including refusals and transfers.",
  [H, D + "vartempl_support.hpp", D + "allocator_traits.hpp", D + "index_base.hpp", D + "node_handle.hpp", D + "copy_map.hpp", I + "sequenced_index.hpp", I + "random_access_index.hpp"],
  [("construct_value, emplace_, emplace_hint_, insert_rv_, transfer_", H), ("argument pack macros", D + "vartempl_support.hpp"), ("copy_clone/move_clone", D + "copy_map.hpp")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
