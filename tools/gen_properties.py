#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["include/cest/" + f for f in files],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

ALLC = ["vector.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "string.hpp", "queue.hpp"]

prop("C01", "No memory error, leak or undefined behaviour in any valid use",
 "Whatever sequence of calls a program makes on the library's containers, strings, smart pointers, function wrappers, streams and C-style I/O within their documented preconditions, no call reads or writes outside a live object, uses freed or uninitialised memory, frees storage twice or with the wrong size, executes undefined behaviour, or fails to return in bounded steps. When the last object of a program is destroyed, no storage the library obtained is left allocated.",
 ["inputs", "histories", "programs"], "every history of valid calls on every component, for trivially copyable, heap-owning, over-aligned and large element types and any sizes",
 "The tests run a few dozen fixed histories on 1-16 elements without sanitizers; overruns, leaks and reads of dead storage that need a block boundary, a capacity boundary or an unusual order of calls give the right answer or go unseen.",
 ALLC + ["shared_ptr.hpp", "memory.hpp", "functional.hpp", "sstream.hpp", "streambuf.hpp", "istream.hpp", "ostream.hpp", "cstdio.hpp", "cmath.hpp", "complex.hpp", "cctype.hpp"],
 [("manual allocate/construct/destroy/deallocate in each container", "include/cest/*.hpp"), ("control block and deleters", "include/cest/shared_ptr.hpp"), ("get area pointers over an owned string", "include/cest/sstream.hpp")],
 ["AddressSanitizer, UndefinedBehaviourSanitizer and LeakSanitizer reports", "valgrind memcheck reports (uninitialised values)", "CPU-step watchdog around each history"])

prop("C02", "A vector history gives the observable results of the standard vector",
 "After every operation of any history, a vector's size, emptiness, element values in order (by index, by forward, reverse and const iteration, front, back, data and checked access), returned iterators and comparison results are those the standard vector gives for the same history, and checked access outside the size throws out_of_range and changes nothing. Capacity is never below the size, is at least what was reserved, does not shrink on insertion, removal or clearing, and storage grows geometrically so that appending n elements reallocates O(log n) times.",
 ["inputs", "histories"], "all histories of construct, copy, assign, push, pop, erase, resize, reserve, clear, swap and access, over all sizes and element types",
 "Tests check about a dozen fixed vectors of at most 16 elements; the value of an element after growth, shrinking copy-assignment or range erase depends on the size/capacity combination reached, which tests sample at a handful of points.",
 ["vector.hpp"], [("size/capacity bookkeeping; construct only beyond size, assign within", "include/cest/vector.hpp")],
 ["public vector API in lockstep with a reference sequence"])

prop("C03", "A deque history gives the observable results of the standard deque",
 "After every operation of any history of pushes and pops at both ends, clears, copies and assignments, a deque's size, its elements by index, front, back, forward, backward and const iteration and iterator differences are those of the standard deque, however many internal storage blocks the contents span and wherever in a block the ends lie.",
 ["inputs", "histories"], "all histories, including those that fill, cross, empty and reuse storage blocks at either end",
 "Every test deque holds at most five elements, well inside one 1024-element block, so nothing that happens at a block boundary, or when a block is left and re-entered, is ever run.",
 ["deque.hpp", "vector.hpp"], [("front/back chunk and offset cursors", "include/cest/deque.hpp push_front_helper, push_back_helper, pop_front, pop_back, clear"), ("chunk-hopping iterators", "include/cest/deque.hpp iter, const_iter")],
 ["public deque API in lockstep with a reference sequence"],
 [("block directory", "ordered list of fixed-size element blocks", "include/cest/deque.hpp")])

prop("C04", "Linked lists give the observable results of the standard lists",
 "After every operation of any history (insertion, emplacement and erasure at arbitrary positions, pushes and pops, clears, copies, assignments, swaps), a doubly linked list and a singly linked list hold exactly the elements, in exactly the order, that the standard lists hold for the same history. Forward (and for the doubly linked list backward) traversal visits each element once and ends, size and emptiness agree with it, and every returned iterator designates the standard's element.",
 ["inputs", "histories"], "all histories, positions and element types",
 "Tests perform under ten edits on lists of at most five elements and never traverse backwards after an erase; a wrong back link or size after one particular edit order is invisible to them.",
 ["list.hpp", "forward_list.hpp"], [("hook/unhook of the circular node chain", "include/cest/list.hpp insert, emplace, erase"), ("after-position splice", "include/cest/forward_list.hpp insert_after, erase_after")],
 ["public list and forward_list API in lockstep with a reference sequence"])

prop("C05", "Sets and maps hold exactly the distinct keys inserted, in key order",
 "For any comparator that is a strict weak order and any insertion sequence, a set or map holds one element per equivalence class of inserted keys, namely the first inserted (value included for maps); iteration visits them exactly once in strictly ascending order; insertion reports correctly whether it added and designates the element; lookup, by key or by any type the comparator accepts, finds an element if and only if an equivalent key is present. Copies, assignments and clears preserve this.",
 ["inputs", "histories"], "all insertion orders, key types, comparators (including ones under which unequal keys are equivalent, or equal-comparing keys are distinct) and interleavings of find, clear, copy and assign",
 "Tests insert at most ten small integers in three orders; the rebalancing cases reached and the parent links that iteration relies on depend on the insertion order, of which there are n!.",
 ["set.hpp", "map.hpp", "swap.hpp"], [("recursive balanced insertion with parent links, leftmost pointer", "include/cest/set.hpp insert, include/cest/map.hpp insert"), ("in-order successor walk", "include/cest/set.hpp, include/cest/map.hpp iterators")],
 ["public set and map API in lockstep with a reference ordered sequence"])

prop("C06", "Set and map operations stay logarithmic for every insertion order",
 "For every insertion order of n distinct keys, including sorted, reversed, zig-zag and adversarial ones, a single find or insert performs a number of key comparisons bounded by a fixed multiple of log2(n) (at most two per level of a tree of height at most 2*log2(n+1), plus a constant), and a whole iteration costs an amortised constant number of steps per element without needing key comparisons.",
 ["inputs", "histories"], "all insertion orders and sizes",
 "A tree that is not rebalanced returns the same answers, so no functional test fails; only the cost over large or ordered inputs shows it, and the tests use ten elements.",
 ["set.hpp", "map.hpp", "swap.hpp"], [("red-black colour flips and rotations", "include/cest/set.hpp, include/cest/map.hpp insert, rotate_left, rotate_right")],
 ["counting comparator", "logical step counts per operation"])

prop("C07", "A string history gives the observable results of the standard string",
 "After every operation of any history, a string's length, characters (embedded null characters included), searches from any start position and comparisons are those of the standard string, for every supported character type and for user-supplied character traits. The buffer returned for C use is always terminated by a null character at index length, and capacity is never below length.",
 ["inputs", "histories"], "all histories of construct (pointer, pointer+count, iterator range), copy, assign, append, push, pop, reserve, clear, find, compare; all contents, lengths and character types",
 "Tests use a dozen literals without embedded nulls; results depend on whether an operation crosses the capacity held at that point, on the search start and on repeated prefixes, which literals sample at a few points.",
 ["string.hpp"], [("length/capacity bookkeeping and explicit terminator writes", "include/cest/string.hpp"), ("delegation to character traits", "include/cest/string.hpp find, compare, append")],
 ["public basic_string API in lockstep with std::basic_string"])

prop("C08", "Every element is constructed and destroyed exactly once",
 "Throughout any history on any container, each element object is constructed before use, is never constructed over a live object, assigned to while dead, or destroyed twice, and is destroyed by the time its container is; the number of live elements always equals the sum of the sizes of live containers. Storage is obtained from the container's allocator and returned to it exactly once, with the size that was requested, and removing an element destroys precisely that element at once.",
 ["inputs", "histories"], "all histories on vector, deque, lists, set, map, queue and string with any element type and any stateless allocator",
 "Tests that own heap memory per element perform two pushes and a pop and would not notice a skipped destructor at run time; whether every path destroys and frees exactly once depends on sizes and capacities over the whole history.",
 ALLC, [("construct_at/destroy_at/destroy_n pairing", "include/cest/*.hpp"), ("allocate/deallocate pairing through the (rebound) allocator", "include/cest/*.hpp")],
 ["instrumented element type with a live-object registry", "instrumented allocator with an outstanding-block registry"])

prop("C09", "References and iterators stay valid exactly as long as promised",
 "An element of a list, singly linked list, set or map keeps its address and its iterator stays dereferenceable and in place in the sequence until that element itself is erased or its container is cleared, assigned or destroyed, whatever else is inserted or erased; an element of a deque keeps its address across pushes at both ends and pops of other elements. Elements of a vector or string are not relocated by any insertion, removal, resizing or reservation that fits in the current capacity, and elements before the point of erasure keep their place.",
 ["histories"], "all histories of inserts and erases at other positions between taking a reference or iterator and using it",
 "A relocated element compares equal to the original, so value-based tests pass; tests keep an iterator across at most three pops.",
 ["list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "deque.hpp", "vector.hpp", "string.hpp"],
 [("node-based storage", "include/cest/list.hpp, forward_list.hpp, set.hpp, map.hpp"), ("fixed blocks that are never moved", "include/cest/deque.hpp"), ("reallocation only when capacity is exceeded", "include/cest/vector.hpp reserve, include/cest/string.hpp")],
 ["recorded element addresses and held iterators re-checked after every later operation"])

prop("C10", "Copies are independent, assignment replaces, moves transfer, swaps exchange",
 "Copy-constructing or copy-assigning any container or string makes the target equal to the source and leaves the source unchanged, and no later change to either, including destruction, is visible through the other; assigning an object to itself changes nothing. A moved-from or moved-to container remains usable, the moved-to one holds what the source held, and swap exchanges contents completely.",
 ["inputs", "histories"], "all pairs of source and target states (empty, smaller, equal, larger; with or without spare capacity or spare blocks), then all mutations of either",
 "Tests copy one three-element container per type and mutate it once; none assigns an object to itself, and shrinking or growing assignment into a differently sized target is sampled at one point.",
 ALLC, [("copy constructors and assignment operators", "include/cest/*.hpp"), ("swap-based move", "include/cest/vector.hpp, include/cest/forward_list.hpp")],
 ["several live instances of each container, all compared with their own reference after every operation on any of them"])

prop("C11", "Smart pointers delete each owned object exactly once, at the right time",
 "The object managed by a group of shared pointers, however they are copied, assigned (also to themselves), moved or aliased to sub-objects, and whether some are empty, is destroyed exactly once, by the deleter it was given, precisely when the last owner lets go; the use count always equals the number of owners, and comparison is comparison of the stored pointers. A unique pointer's object is destroyed exactly once when its owner is reset, reassigned or destroyed, moving transfers ownership at once and empties the source, and releasing gives ownership away without destruction.",
 ["histories"], "all histories of construct, copy, assign, move, alias, reset, release, compare and destroy on a population of pointers, with default and custom deleters, arrays and polymorphic types",
 "Tests copy one shared pointer once and never assign one; counting errors need a history of assignments, empty pointers and aliases to show, and a leak or early delete does not fail an assert.",
 ["shared_ptr.hpp", "memory.hpp"], [("use count in a control block; type-erased deleter", "include/cest/shared_ptr.hpp"), ("exclusive pointer with release/reset", "include/cest/memory.hpp")],
 ["pointees registered in a live-object registry; ownership model; recording deleters"])

prop("C12", "A function wrapper calls exactly the stored target with exactly its arguments",
 "Calling a function wrapper invokes its own stored copy of the target once with the arguments passed (values moved or referenced as their parameter types say) and returns the target's result; state held in the target persists between calls and is independent of the original callable and of any copy of the wrapper. Destroying, moving or copying wrappers destroys each stored target exactly once.",
 ["inputs", "histories"], "all callable kinds (function pointers, capturing and mutable lambdas, function objects, other wrappers), signatures (void and value results, reference, rvalue and by-value parameters) and histories of call, copy, move, assign",
 "The tests call two wrappers once each at compile time and none at run time.",
 ["functional.hpp", "memory.hpp"], [("virtual-call type erasure owning a heap copy", "include/cest/functional.hpp")],
 ["recording callables; live-target registry"])

prop("C13", "Constant evaluation succeeds and agrees with execution at run time",
 "Any computation that uses the functions the library declares constexpr within their preconditions (no floating-point overflow or pole; the transcendental functions of complex numbers are not constexpr) is accepted in a constant expression (it reads no indeterminate value, leaves no allocation behind and commits no undefined behaviour there), prints nothing while the compiler evaluates it, and yields exactly the value the same computation yields at run time, which is also the value the standard library's counterpart yields at run time. Output calls made during constant evaluation have no effect and report zero characters.",
 ["programs", "inputs", "histories"], "all histories over every constexpr operation of every component",
 "The static_asserts of the tests evaluate about a hundred fixed expressions; the compiler's evaluator rejects undefined behaviour only in the histories it is actually given, and branches on constant evaluation are compared with run time on almost none.",
 ALLC + ["shared_ptr.hpp", "memory.hpp", "functional.hpp", "sstream.hpp", "istream.hpp", "ostream.hpp", "runtime_ostream.hpp", "cstdio.hpp", "cmath.hpp", "complex.hpp", "cctype.hpp", "swap.hpp"],
 [("construct_at/allocator use legal in constant expressions", "include/cest/*.hpp"), ("is_constant_evaluated guards around real I/O", "include/cest/runtime_ostream.hpp, include/cest/cstdio.hpp")],
 ["the compiler's constant evaluator as an undefined-behaviour interpreter", "digests of the same generated history at compile time, at run time and on std"])

prop("C14", "Text sent to the standard output objects reaches them unchanged and in order",
 "At run time, inserting characters, C strings, strings (embedded nulls included), signed and unsigned integers, line ends and base manipulators into the library's cout, cerr and clog produces on the corresponding process stream exactly the bytes the standard streams produce for the same insertions, in the same order, and nothing on any other stream, delivered no later than the next line end or flush; base manipulators stay in force until changed. Each insertion returns the stream it was applied to, and inserting into any other output object prints nothing.",
 ["inputs", "histories"], "all sequences of insertions over the three streams, interleaved",
 "Tests print fixed text and nobody compares what was printed; the expected output is a comment.",
 ["ostream.hpp", "runtime_ostream.hpp", "iostream.hpp", "string.hpp", "ios_base.hpp"], [("dispatch on the identity of the stream object", "include/cest/runtime_ostream.hpp")],
 ["captured bytes of file descriptors 1 and 2 (and the std streams' buffers) against a standard-stream reference run"])

prop("C15", "String input streams deliver each character once and report state faithfully",
 "For any source text (any bytes, any length) and any sequence of single-character reads, block reads, unget, state queries and changes, exception masks and re-seating of the text, a string input stream, and an input stream over a buffer the user supplies, returns the same characters, counts, texts and good/eof/fail/bad states as the standard one and throws when it does: each character is delivered exactly once in order except as undone by unget, block reads never deliver more than was asked or available, and reads after the end change neither the target nor the position.",
 ["inputs", "histories"], "all texts, read sizes and operation orders, including after end of input and after failure",
 "Tests read at most seven characters from three literals.",
 ["sstream.hpp", "streambuf.hpp", "istream.hpp", "basic_ios.hpp", "ios_base.hpp"], [("get area cursor over an owned string", "include/cest/streambuf.hpp, include/cest/sstream.hpp"), ("sentry and state word", "include/cest/istream.hpp, include/cest/basic_ios.hpp")],
 ["public istringstream/stringstream API in lockstep with the standard ones"])

prop("C16", "The C-style I/O layer moves exactly the right bytes and counts",
 "Opening a memory buffer, reading it in any sequence of block sizes and closing it delivers exactly the buffer's bytes (nulls included) in order, each read returning the number of characters actually delivered and never writing past them, and closing releases everything. At run time printf and fprintf emit exactly the bytes and return exactly the count the C library gives for the same format and arguments, on the stream named.",
 ["inputs", "histories"], "all buffers, block size sequences, formats, arguments and target streams",
 "Tests read one six-byte buffer in one call and print one format.",
 ["cstdio.hpp", "sstream.hpp", "streambuf.hpp"], [("memory stream over a private copy of the buffer", "include/cest/cstdio.hpp fmemopen, fread, fclose"), ("two-pass formatting", "include/cest/cstdio.hpp fprintf")],
 ["return values and guarded destination buffers", "captured bytes of file descriptors 1 and 2"])

prop("C17", "The math functions return accurate values and always terminate",
 "For every finite argument in its domain each elementary function (absolute value, square root, sine, cosine, hyperbolic sine and cosine, arc tangent with one and two arguments, exponential, logarithm, integer power, floor, ceiling) terminates and agrees with the mathematically correct value to within one per cent or, for sine, cosine, logarithm and arc tangent near a zero of the function, within 0.002 (floor, ceiling and absolute value exactly, for arguments whose result is representable; sine and cosine for magnitudes up to 1e12), and is exact or consistent at signs, zero and symmetry points: powers 0 and 1 are exact, odd functions are odd, even ones even. No argument, finite or not, makes a call hang or crash, and for zero, infinite, NaN and out-of-domain arguments square root, logarithm, exponential, sine, cosine, arc tangent and the hyperbolic functions give a result of the kind the C library gives (NaN, an infinity of that sign, zero, a value of that sign).",
 ["inputs"], "all double arguments (sine and cosine: magnitudes up to 1e12), and all int exponents",
 "Tests evaluate three functions at one argument each.",
 ["cmath.hpp", "bits/abs.hpp"], [("argument reduction plus truncated series, all recursive", "include/cest/cmath.hpp")],
 ["results against the C math library over dense and boundary samples", "process survival and CPU watchdog"])

prop("C18", "Complex arithmetic obeys complex algebra",
 "For all finite operands whose squared magnitudes are representable and neither vanish nor overflow, complex addition, subtraction, multiplication, division, their scalar and mixed-type forms and compound assignments, negation, conjugate, norm, magnitude, argument, polar form, equality and the elementary functions give the values the standard complex type gives for the same operands, to within rounding for arithmetic and within the library's one-per-cent tolerance for those that use its elementary functions. The result does not depend on whether an operand is also the target, nor on which library headers are included before or after.",
 ["inputs", "programs"], "all finite operand values and value types, all operator forms, self-application (z *= z, z /= z)",
 "Tests evaluate one sum, one product and one magnitude.",
 ["complex.hpp", "cmath.hpp"], [("component-wise operators with temporaries", "include/cest/complex.hpp")],
 ["results against std::complex"])

prop("C19", "Library containers work with every re-exported algorithm as the standard ones do",
 "Running any of the re-exported standard algorithms and numeric folds over iterators of a library container gives the same result, output sequence and returned position as over the standard container with the same contents; insert iterators append or insert exactly the elements written. Iterator arithmetic, distance, comparison, conversion from mutable to const, and pre- and post-increment and decrement obey the iterator category the iterator declares.",
 ["inputs", "programs"], "all algorithm/container pairs whose iterator requirements the container meets, over all contents",
 "Tests run six algorithms on one five-element sequence.",
 ["algorithm.hpp", "numeric.hpp", "iterator.hpp", "vector.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "string.hpp"],
 [("iterator types declared by each container", "include/cest/*.hpp")],
 ["results, output sequences and positions against std containers"])

prop("C20", "Threads using distinct objects, or only reading shared ones, never race",
 "Threads that work on distinct library objects, or that only call const operations on shared ones, perform no conflicting unsynchronised memory accesses and obtain the same results as they would alone; distinct shared pointers that own the same object may be copied, assigned and destroyed concurrently, and the object is then destroyed exactly once.",
 ["schedules"], "all interleavings of any number of threads",
 "The tests are single-threaded.",
 ["vector.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "string.hpp", "queue.hpp", "shared_ptr.hpp", "memory.hpp", "functional.hpp", "sstream.hpp", "cstdio.hpp", "cctype.hpp", "cmath.hpp"],
 [("no hidden shared mutable state; const members do not mutate", "include/cest/*.hpp"), ("shared use count", "include/cest/shared_ptr.hpp")],
 ["ThreadSanitizer reports", "per-thread results against a solo run", "destruction counts of shared pointees"])

prop("C21", "A failing allocation or element operation leaves containers intact",
 "If an allocation, or an element's construction, copy or comparison, or the target of a function wrapper, throws during any operation, the exception reaches the caller, no element is destroyed twice or without having been constructed, nothing is leaked, and every container involved remains usable and destructible with consistent size and contents. A failed insertion of a single element at an end of a vector, deque or string, or anywhere in a list, set or map, leaves the container's contents exactly as before.",
 ["fault_sequences", "histories"], "every position at which an allocation or element operation can fail, in every operation of every history, also repeatedly",
 "The tests inject no failure.",
 ALLC + ["shared_ptr.hpp", "functional.hpp"], [("order of allocate, construct and commit in each operation", "include/cest/*.hpp")],
 ["fault-injecting allocator and element type; live-object and outstanding-block registries; contents against the pre-operation snapshot"])

prop("C22", "A queue is first-in first-out and delivers every element exactly once",
 "Whatever the interleaving of pushes and pops and whichever sequence container underlies it, a queue delivers every pushed element exactly once, in push order, unchanged; front and back always designate the oldest and newest undelivered elements, and size equals pushes minus pops. Copying or assigning a queue copies its undelivered elements and consumes none.",
 ["histories"], "all interleavings of pushes, pops, copies and assignments, all backlog lengths, default and substituted underlying containers",
 "Tests push two elements.",
 ["queue.hpp", "deque.hpp", "list.hpp"], [("adaptor calls into the underlying container", "include/cest/queue.hpp")],
 ["uniquely numbered elements, offline exactly-once/FIFO checker over the recorded event log"])

prop("C23", "The n-ary swap rotates its arguments and loses none",
 "Calling the n-ary swap on any number of variables moves each variable's value one place to the left, the first value going to the last variable, and the reversed form moves each one place to the right, the last value going to the first; with two variables both are an ordinary swap, with one or none nothing changes, and no value is duplicated, lost or copied where a move suffices. An exception thrown by a value's move reaches the caller, with no object leaked or destroyed twice.",
 ["inputs"], "all argument counts, value types (including move-only and throwing types) and values",
 "No test calls it; the sets and maps that use it only call the six-argument form on pointers.",
 ["swap.hpp"], [("fold over reference wrappers", "include/cest/swap.hpp")],
 ["values, copy/move counters and liveness of instrumented arguments"])

prop("C24", "Character classification agrees with the C locale for every code",
 "For every character code from EOF through 255, the alphanumeric and upper-case classification functions return non-zero exactly when the C library does in the C locale; for any other integer whatsoever they return zero. The result depends on nothing but the argument.",
 ["inputs"], "all int values",
 "The tests compare one of the two functions over the char range and the other at three codes.",
 ["cctype.hpp", "string.hpp"], [("linear search of a literal", "include/cest/cctype.hpp")],
 ["return values against the C library over all codes"])

prop("C25", "Headers combine in any order and in any number of translation units",
 "Every public header can be included first, alone, repeatedly and in any order relative to the others and to the standard headers, in any number of translation units of one program, which then links, and all translation units see the same stream objects, initialised before any dynamic initialiser that runs after the inclusion uses them.",
 ["configurations", "programs"], "all include orders and numbers of translation units",
 "The tests are one translation unit with one fixed include order.",
 ["iostream.hpp", "basic_ios.hpp", "complex.hpp", "cmath.hpp", "pair.hpp", "memory.hpp", "functional.hpp", "cctype.hpp", "sstream.hpp", "string.hpp", "limits.hpp"],
 [("include guards, forward declarations and namespace-scope stream objects", "include/cest/iostream.hpp, include/cest/basic_ios.hpp")],
 ["generated multi-unit programs built, linked and run; stream identities and output observed"])

prop("C26", "Comparisons agree with the standard order and are mutually consistent",
 "For all values, equality and ordering of vectors, strings (with strings and with C strings, in either argument order), pointers and iterators give the answers of their standard counterparts: equality is an equivalence that agrees with element-wise comparison, not-equal is its negation, string comparison is the lexicographic order of the character traits with shorter-first on ties, antisymmetric and transitive, and a const and a mutable iterator to the same position are equal.",
 ["inputs"], "all pairs and triples of values, including embedded nulls, prefixes of one another, high-bit characters and moved-from or empty objects",
 "Tests compare four literals.",
 ["vector.hpp", "string.hpp", "memory.hpp", "shared_ptr.hpp", "complex.hpp", "list.hpp", "forward_list.hpp", "deque.hpp", "set.hpp", "map.hpp"],
 [("traits-based comparison and free operators", "include/cest/string.hpp"), ("element-wise equality", "include/cest/vector.hpp"), ("stored-pointer comparison", "include/cest/memory.hpp")],
 ["results against std counterparts; algebraic laws over generated triples"])

prop("C27", "Arguments that refer into the container itself are handled as if copied first",
 "Inserting, appending, assigning or searching with an argument that refers to an element, sub-range or the whole of the very container being modified has the same effect as if the argument had been copied beforehand, whether or not the operation has to grow or rearrange storage.",
 ["inputs", "histories"], "all insertion, append and assign operations with self-referential arguments at every size and capacity relation",
 "No test passes an element of a container back into it; the damage appears only when the operation happens to reallocate.",
 ["vector.hpp", "string.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "queue.hpp"],
 [("copy of the argument, or growth that keeps the old storage alive until the argument has been read", "include/cest/vector.hpp push_back, include/cest/string.hpp append, push_back, operator=")],
 ["AddressSanitizer plus lockstep reference for self-referential calls"])

prop("C28", "Formatting flags, open modes and stream states are sets of independent bits, one set per stream",
 "The named formatting flags, open modes and stream states combine, intersect, complement and compare as sets do, with the same constants overlapping as in the standard library, also through compound assignment; setting flags under a mask changes exactly the masked ones and results in the flags before; the base manipulators leave exactly one base; a fresh stream skips white space and prints in decimal. Clearing, setting and enabling exceptions for a state, flushing, and applying functions to a stream have the effects, results and exceptions of the standard library's streams, reach the stream's own buffer as often, and never alter another stream.",
 ["inputs", "histories"], "all values of the three bit-mask types, all histories of state and flag operations over several narrow and wide streams of every kind, including streams without a buffer and buffers whose synchronisation fails or throws",
 "The tests set one flag once and never combine masks, enable exceptions, or hold two streams at once.",
 ["ios_base.hpp", "basic_ios.hpp", "ostream.hpp", "istream.hpp", "sstream.hpp"],
 [("bit-mask operators and setf", "include/cest/ios_base.hpp"), ("clear, setstate, exceptions", "include/cest/basic_ios.hpp"), ("flush and manipulator insertion", "include/cest/ostream.hpp")],
 ["flags(), rdstate(), exceptions(), results and thrown exceptions after every operation, against std streams in lockstep; calls reaching the stream buffers"])

prop("C29", "Sequences and strings do work and hold storage in proportion to their content",
 "Adding n elements one after another to a vector, deque, list, set, map, queue or string, by any of the operations that add, takes element (or character) operations proportional to n, and a vector or string asks for storage a logarithmic number of times; single insertions and removals at the ends of sequences, and insertions and erasures in lists, cost no more for a long container than for a short one (apart from the growth of a vector or string); reading, comparing, swapping, moving, clearing and destroying copy no elements and request no storage. The storage held is proportional to the largest content held (or reserved) so far, by the container or by one it was copied from: a queue or deque that elements merely pass through does not grow with the number that passed.",
 ["inputs", "histories"], "all lengths, operation mixes, directions of flow through deques and queues, and character types",
 "The tests count no operations, allocations or bytes, and use containers of a few elements.",
 ["vector.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "queue.hpp", "string.hpp", "sstream.hpp"],
 [("geometric growth", "include/cest/vector.hpp grow_and_push_back, include/cest/string.hpp push_back, append"), ("reuse of chunks", "include/cest/deque.hpp push_back_helper, push_front_helper"), ("linking of nodes without copies", "include/cest/list.hpp, include/cest/forward_list.hpp")],
 ["counts of element constructions, copies, moves, assignments, destructions and comparisons, characters handled by the traits, allocator requests and bytes held, per operation"])

prop("C30", "When storage runs out the containers refuse, stay intact, and resume once it is back",
 "A request for more elements or characters than can exist, or than the allocator will grant, is refused with an allocation or length exception and leaves contents, size, capacity and storage as they were; with storage short or altogether exhausted, containers sharing it stay usable, insertions either succeed or leave contents unchanged, removal, clearing and destruction need no storage and give theirs back, and as soon as storage is available again every container accepts insertions and copies again.",
 ["inputs", "histories", "fault_sequences"], "all requested sizes up to the largest value of the size type, all histories of several containers drawing on one bounded budget that shrinks to nothing and grows again",
 "The tests never exhaust an allocator nor request an impossible size.",
 ["vector.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "queue.hpp", "string.hpp", "sstream.hpp"],
 [("allocate before any change; size computations for requests", "include/cest/vector.hpp reserve, resize, include/cest/string.hpp reserve, append, include/cest/deque.hpp add_chunk"), ("allocation before linking", "include/cest/list.hpp, include/cest/set.hpp, include/cest/map.hpp")],
 ["exceptions, contents against models, bytes and elements outstanding after each refused request, under ASan"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
