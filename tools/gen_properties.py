#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay uniform)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": ["inc/ptl/%s.hpp" % f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "vector holds exactly the sequence its operation history describes",
  "After any sequence of constructions, assignments, insertions, emplacements, erasures, resizes, capacity changes, swaps, copies and moves, a vector's size and elements equal those of an abstract sequence driven by the same operations, and every returned iterator or reference designates the position it is documented to designate. This includes arguments that refer to elements of the same vector, empty ranges and counts of zero (which change nothing), self-assignment and self-swap (which keep the value), both in the case where spare capacity exists and where it does not. A copy is independent of its source, and a moved-from vector is empty and usable.",
  ["histories", "inputs"], "every operation history, element type, argument aliasing pattern and capacity state",
  "The tests use int elements and a dozen fixed calls, never erase an empty range of non-trivial elements, and never pass an argument that aliases the vector or forces the in-place and reallocating paths separately.",
  ["vector"], [("in-place construct-then-rotate vs. reallocate", "vector.hpp assign_impl/insert_impl"), ("resize", "vector.hpp resize_impl"), ("erase by move", "vector.hpp erase")],
  ["size(), operator[], data(), iterators after every operation", "returned iterators and references"],
  [("storage", "pointer, capacity, size, deallocator", "vector.hpp storage_t")])

p("C02", "vector operations that throw leave the vector exactly as it was",
  "If an element's construction, an input iterator or a memory allocation throws during a modifying vector operation, the exception reaches the caller unchanged and the vector has the same elements, size, capacity and element addresses as before the call. A constructor that throws leaks neither memory nor elements. The vector remains fully usable afterwards and the same operation succeeds when retried without the fault.",
  ["fault_sequences", "histories"], "every operation, every position at which an element copy, default construction, iterator access or allocation can fail, every prior state",
  "No test makes a copy, default construction or allocation of a vector element fail.",
  ["vector"], [("construct new elements before touching old ones", "vector.hpp assign_impl/insert_impl/resize_impl"), ("storage_t RAII", "vector.hpp storage_t")],
  ["contents, size, capacity and data() before and after the throwing call", "live-element registry and allocation ledger"])

p("C03", "string holds exactly the characters its operation history describes",
  "After any sequence of constructions, assignments, appends, insertions, erasures, replacements, concatenations, substrings, resizes, capacity changes, swaps, copies and moves, a string's size and characters (any char value, including NUL and negative ones) equal those of an abstract character sequence driven by the same operations, and the character after the last one reads as NUL. This includes arguments that are views or iterators into the same string, empty arguments, self-assignment and self-swap, lengths on both sides of the inline/heap boundary, and string literals with embedded NULs. Writing a string to a stream writes exactly those characters, with the stream's width, fill and adjustment. Returned iterators and references designate the documented position; copies are independent, and moved-from strings are valid and usable.",
  ["histories", "inputs"], "every operation history, length, aliasing pattern and inline/heap state",
  "The tests use a few short ASCII texts; they never alias, never check the terminator after mutation, and rarely cross the inline/heap boundary.",
  ["string", "string_ref"], [("inline/heap storage", "string.hpp storage_t"), ("*_no_aliasing helpers", "string.hpp"), ("copy-behind-end then rotate", "string.hpp append/assign/insert/replace"), ("literals", "string.hpp/string_ref.hpp namespace literals")],
  ["size(), data(), c_str(), data()[size()], iterators, conversion to string_view after every operation"],
  [("storage", "dealloc == null means inline", "string.hpp storage_t")])

p("C04", "string operations that throw leave the string exactly as it was",
  "If a memory allocation or a user-supplied iterator throws during a modifying string operation, the exception reaches the caller and the string keeps its previous size, characters and NUL terminator, and stays fully usable. A string constructor that throws leaks nothing.",
  ["fault_sequences", "histories"], "every modifying operation, every allocation or iterator access that can fail, every prior inline/heap state",
  "No test injects an allocation failure or a throwing iterator.",
  ["string"], [("reserve before modifying", "string.hpp resize/reserve"), ("storage_t temporaries", "string.hpp append/insert/replace")],
  ["contents and terminator before and after the throwing call", "allocation ledger"])

p("C05", "impossible sizes are refused by an exception, never by corruption",
  "A request whose resulting size cannot be represented or allocated - any element count up to the largest std::size_t, passed to any constructor, reserve, resize, assign, append, insert or replace of vector or string - throws std::length_error or an exception derived from std::bad_alloc and leaves the object unchanged. It never wraps around, truncates or touches memory outside the object.",
  ["inputs", "histories"], "every count in the whole range of std::size_t and every prior size and capacity",
  "No test passes a count larger than 24.",
  ["vector", "string"], [("max_size checks", "vector.hpp storage_t(std::size_t), string.hpp reserve/storage_t(std::size_t)"), ("size arithmetic", "vector.hpp assign_impl/insert_impl, string.hpp *_no_aliasing")],
  ["exception type, contents and capacity after the call, AddressSanitizer"])

p("C06", "growth within capacity never reallocates; capacity obeys reserve",
  "capacity() is never less than size(); reserve(n) makes it at least n, never shrinks it, never changes the value and leaves the buffer alone where the capacity suffices already. A push_back, emplace, insert, append or resize whose resulting size fits the current capacity leaves the buffer address and the capacity unchanged, as do clear, pop_back and erase; shrink_to_fit never increases the capacity, and swapping or moving vectors, and strings whose text is on the heap, transfers their buffers without moving elements. Appending n elements to a vector one by one allocates only O(log n) times. A string whose text is no longer than the capacity of an empty string is constructed or copied without allocating.",
  ["histories", "inputs"], "every history of capacity-related operations on vector and string",
  "The tests check the capacity of one string around shrink_to_fit and never look at addresses.",
  ["vector", "string"], [("capacity tests before allocation", "vector.hpp insert_impl/resize_impl, string.hpp append/insert/resize"), ("growth factor", "vector.hpp insert_impl"), ("storage_t swap/move", "vector.hpp storage_t")],
  ["data() and capacity() before and after each operation", "allocation count"])

p("C07", "every contained object is constructed once and destroyed once",
  "In vector, optional, variant, array and tuple, every element object is constructed exactly once before use and destroyed exactly once, no operation reads, assigns or destroys an object that is not alive, and the number of live objects always equals the number the containers report to hold. When the last container (or string) is gone, every element has been destroyed and all memory returned exactly once through the matching deallocation function - also when operations threw on the way.",
  ["histories", "fault_sequences"], "every operation history over every owning template, with and without faults",
  "Unit tests cannot see a leaked, doubly destroyed or never-constructed element; none counts objects or runs under a sanitizer.",
  ["vector", "optional", "variant", "array", "tuple"], [("storage_t destroy/dealloc", "vector.hpp"), ("initialized flag", "optional.hpp"), ("destroy/assign dispatch tables", "variant.hpp internal_variant")],
  ["constructor/assignment/destructor calls of a self-registering element type", "allocation ledger at quiescent points"])

p("C08", "moving and relocating never copies elements",
  "Growing, shrinking, erasing, swapping, moving and inserting an rvalue in vector, and moving, swapping, assigning an rvalue or taking an rvalue's value in optional, variant, array and tuple, never copies an element: values are transferred by move and the source is left moved-from. A range given to vector is copied at most once per element. Operations that take an lvalue leave that lvalue unchanged. The arguments from which an element is built in place (emplace, in_place construction, value_or) reach its constructor as the very objects given, each with its value category.",
  ["histories", "inputs"], "every operation and every value category of its arguments",
  "Two tests move one object through optional and variant; none counts copies during vector growth, erase or emplace, or checks rvalue accessors.",
  ["vector", "optional", "variant", "array", "tuple"], [("uninitialized_move/rotate", "vector.hpp"), ("rvalue overloads", "optional.hpp, variant.hpp, array.hpp, tuple.hpp")],
  ["copy and move counters of the element type around every call"])

p("C09", "optional is either empty or holds exactly the last value given",
  "After any history of construction (also in place, from several arguments), assignment from values, optionals and nullopt, emplace, reset and swap, an optional reports engagement and value exactly as an abstract maybe-value does: has_value, operator bool, dereference, value, value_or and comparison with nullopt all agree. Copies are independent; moving from an engaged optional leaves it engaged; self-assignment and self-swap keep the value; arguments may refer to the optional's own value.",
  ["histories", "inputs"], "every operation history and value type",
  "The tests follow a handful of fixed transitions with int and one string.",
  ["optional"], [("initialized flag kept in step with placement new/destroy", "optional.hpp")],
  ["all observers after every operation"], [("initialized", "non-zero iff a value lives in val", "optional.hpp")])

p("C10", "variant always holds exactly one value of the last alternative assigned",
  "After any history of construction, assignment, emplace, copy, move and swap, a variant holds exactly one alternative - the one last stored - with that value: holds, get, get_if and visit agree for every alternative (the first and last of up to 254), and a visitor is called exactly once, with a reference to the stored object of the right constness and value category, its result being returned (a single visitor given as an lvalue is called itself, not a copy; several visitors given as temporaries are never copied). Copies are independent and self-assignment, self-swap, copy-assignment from a variant and assignment (copy or move) from a value living inside the target's own value behave as if the source had been copied first. A value is taken only if its type is exactly one of the alternatives, never by conversion.",
  ["histories", "inputs", "configurations"], "every operation history, alternative list and alternative index",
  "The tests use at most four alternatives and one or two transitions, never a large index and never an aliasing source.",
  ["variant"], [("type index kept in step with storage", "variant.hpp"), ("dispatch tables", "variant.hpp internal_variant")],
  ["holds/get/get_if/visit after every operation"], [("type", "index of the active alternative", "variant.hpp")])

p("C11", "a failed change of an optional or variant keeps the previous value",
  "If constructing or copying the new value throws during an assignment to or emplace on an optional or variant, the exception propagates and the object still has its previous engagement or alternative with its previous value; a variant is never left without a value. A throwing constructor leaves nothing behind.",
  ["fault_sequences", "histories"], "every modifying operation, every throwing construction, every pair of old and new alternatives",
  "No test makes a construction inside optional or variant throw.",
  ["optional", "variant"], [("construct temporary, then nothrow move", "variant.hpp operator=/emplace"), ("flag set after construction", "optional.hpp operator=/emplace")],
  ["state before and after the throwing call", "live-object registry"])

p("C12", "comparison operators agree with the mathematical order of the values",
  "For vector, string, array, tuple, string_ref, optional (also against values and nullopt) and variant, the six comparison operators return exactly what the order of the values says: equality is elementwise, ordering is lexicographic (characters compare as unsigned), empty optionals precede engaged ones, and variants order by alternative first. The result depends only on the values, never on capacity, storage form, history or addresses, and the six operators are mutually consistent.",
  ["inputs"], "every pair of values of every comparable template",
  "The tests compare about ten fixed pairs and never test <=, >= or prefixes systematically.",
  ["vector", "string", "array", "tuple", "string_ref", "optional", "variant"], [("friend comparison operators", "all headers")],
  ["results of all six operators on pairs of values"])

p("C13", "bitset behaves as a fixed vector of Size independent bits",
  "For every Size, any history of construction from an integer, set, reset, flip, bitwise operators, shifts by any count, element access and assignment through proxies (also between different bitsets), and swap yields exactly the bits of a Size-bit vector; positions shifted in are zero and a shift by Size or more yields all zeros. count, all, any, none, test, indexing, bitwise complement and equality always agree with those bits, whatever operations produced them.",
  ["histories", "inputs", "configurations"], "every Size, including 0, non-multiples of 8 and more than 64, and every history",
  "The tests use sizes up to 10 with a few fixed values, and read bits only through const access.",
  ["bitset"], [("byte-wise operations", "bitset.hpp"), ("clearing of unused bits", "bitset.hpp clear_trailing_bits"), ("proxy", "bitset.hpp reference")],
  ["test/operator[]/count/all/any/none/== after every operation"], [("values", "bytes; unused high bits are zero", "bitset.hpp")])

p("C14", "bitset text output and input are exact inverses and follow std rules",
  "Writing a bitset yields exactly Size characters '0'/'1', most significant bit first, and reading that text back restores the value. Reading skips leading whitespace, consumes at most Size digits and nothing after them, stops before the first other character, right-aligns a shorter text, and sets failbit and leaves the value unchanged only if no digit was available.",
  ["inputs", "configurations"], "every Size and every input text, including short, long, malformed and exhausted streams",
  "One test writes and reads two values; short input, end of stream and invalid characters are never tried.",
  ["bitset"], [("stream operators", "bitset.hpp operator<< / operator>>")],
  ["value, stream state and remaining characters after extraction"])

p("C15", "equal values hash equally and the hash covers the whole value",
  "Strings, string_refs and bitsets that compare equal have equal std::hash values, regardless of history, capacity, storage form, address or (for string and string_ref) which of the two types holds the text. Changing any single character or bit of a value, or appending a character, changes the hash.",
  ["inputs", "histories"], "every value and every history producing it",
  "No test uses std::hash at all.",
  ["string", "string_ref", "bitset"], [("std::hash specializations", "string.hpp, string_ref.hpp, bitset.hpp")],
  ["std::hash results"])

p("C16", "checked access returns the exact element or throws, never anything else",
  "at, test, set, reset and flip with an index, value() of optional and optional_ref, and get() of variant and variant_ref return (or change) exactly the designated element if it exists, in every constness and value category; otherwise they throw std::out_of_range, std::bad_optional_access or std::bad_variant_access respectively and change nothing, for every index up to the largest std::size_t and every state.",
  ["inputs", "histories"], "every index, every size including zero, every state and overload",
  "at() is never called in the tests; value() is tried in two states.",
  ["vector", "string", "array", "array_ref", "string_ref", "bitset", "optional", "optional_ref", "variant", "variant_ref"],
  [("bounds and state checks", "at/test/set/reset/flip/value/get in all headers")],
  ["address or value returned, exception type, object value afterwards"])

p("C17", "array_ref and string_ref designate exactly the range they were given",
  "A view constructed from a pointer and size, two pointers, an array, a container, another view, a string or a literal designates exactly those elements: same address, same length (embedded NULs included), same order through every accessor. first, last, subrange, substr, remove_prefix and remove_suffix designate exactly the requested part; writes through a mutable view are writes to the original; no view operation copies elements or allocates memory; a string_ref is written to a stream as the text it designates, with the stream's width, fill and adjustment.",
  ["inputs"], "every source range, every offset and count within it",
  "The tests try one array of ten ints and one short text with one or two offsets each.",
  ["array_ref", "string_ref"], [("pointer pair arithmetic", "array_ref.hpp, string_ref.hpp"), ("compatible-range constructor", "array_ref.hpp is_compatible_range")],
  ["addresses and lengths of views and sub-views", "allocation ledger"])

p("C18", "optional_ref and variant_ref always refer to the object last bound",
  "An optional_ref is empty or refers to exactly the object it was last bound to (directly, through a pointer or through an optional-like object), and a variant_ref refers to exactly the object, type and constness last bound: all accessors and visitors yield that object's address and a visitor runs exactly once, a single visitor given as an lvalue being called itself and not a copy (several given as temporaries are never copied); value_or neither changes the referenced object nor takes a default it does not need. Copying and assignment rebind and never modify the referenced objects; access through the reference reads and writes the original. No binding gives mutable access to a const object or to a temporary.",
  ["histories", "inputs"], "every binding, rebinding and copying history over every alternative",
  "The tests bind four variables once each and compare values, not addresses.",
  ["optional_ref", "variant_ref"], [("pointer rebinding", "optional_ref.hpp"), ("type index and pointer", "variant_ref.hpp assign/get/visit")],
  ["addresses obtained through every accessor and visitor"])

p("C19", "a function_ref call is exactly one call of the bound callable",
  "Calling a function_ref invokes the callable it was last bound to exactly once, on the original object (never a copy), with the arguments forwarded with their value category and identity, and returns its result or propagates its exception. A const signature calls the target as const; copies and assignments of function_refs refer to the original callable, and no call or copy allocates memory. By-value arguments are copied at most once and rvalue arguments not at all. A const signature only binds what can be called as const, a noexcept signature only what cannot throw.",
  ["inputs", "programs"], "every signature, callable kind, argument category and rebinding history",
  "The tests call nullary functions returning int; no arguments, references, exceptions, state or rebinding.",
  ["function_ref"], [("storage_t and dispatch", "function_ref.hpp"), ("invoker::functor", "function_ref.hpp")],
  ["call log of the target, argument addresses, copy counters, allocation ledger"])

p("C20", "container iterators obey random-access iterator laws",
  "For array, vector, string, array_ref and string_ref, the (const, mutable, reverse) iterators enumerate exactly the elements in order, and increment, decrement, +=, -=, +, -, [], difference, dereference, arrow, conversion to const and all six comparisons agree with index arithmetic for every pair of positions. Standard algorithms applied through them give the same result as on the plain element sequence.",
  ["inputs", "programs"], "every pair of positions in every range, and every algorithm using them",
  "The tests iterate forward and add small constants; decrement, reverse, difference, ordering and algorithms are not exercised.",
  ["array", "vector", "string", "array_ref", "string_ref"], [("contiguous_iterator", "five separate iterator classes, one per header")],
  ["element address designated by each iterator expression", "results of std algorithms"])

p("C21", "array and tuple hold exactly the elements they were given",
  "An array or tuple holds exactly the values it was constructed from, in order, elements not given to an array being value-initialised, and copy, move, assignment, fill, swap, get, indexing, front/back, data and structured bindings designate or transfer exactly those elements for every length including zero. Distinct objects never share elements.",
  ["inputs", "histories", "configurations"], "every length and element type combination and every operation history",
  "The tests use int arrays of length 3 and 10 and one three-element tuple.",
  ["array", "tuple"], [("aggregate storage", "array.hpp"), ("recursive storage", "tuple.hpp internal_tuple::storage_t")],
  ["every element through every accessor after every operation"])

p("C22", "the binary representation of every template never changes",
  "The size and byte representation of vector, string, array, array_ref, bitset, optional, optional_ref, tuple, variant, variant_ref, string_ref and function_ref stay exactly those of the published layout: an object's bytes decode, under the published layout, to its value, and objects laid out by hand or produced by code compiled against an earlier release are read, modified and destroyed correctly by the current code, and vice versa.",
  ["configurations", "histories", "inputs"], "every template, value and operation history exchanged between earlier and current code",
  "The tests check sizeof of six types; no test looks at the representation or runs old and new code together.",
  ["vector", "string", "array", "array_ref", "bitset", "optional", "optional_ref", "tuple", "variant", "variant_ref", "string_ref", "function_ref"],
  [("member order, packing and unions", "all headers"), ("deallocator stored in the object", "string.hpp, vector.hpp storage_t")],
  ["raw object bytes", "objects passed between a module compiled from a frozen release and one compiled from the current tree"])

p("C23", "objects cross binary boundaries; memory returns to its allocator",
  "Objects created in one separately compiled binary may be read, modified, grown, shrunk, moved, swapped, assigned and destroyed in another one built by a different compiler, optimisation level, language version or heap, and keep the value the combined history describes. Every memory block is released exactly once, by the binary that allocated it, and never while still in use.",
  ["histories", "configurations"], "every interleaving of operations over modules built by different compilers and settings",
  "All tests live in one binary built by one compiler with one heap.",
  ["vector", "string", "optional", "variant", "array", "tuple", "bitset", "function_ref", "string_ref", "array_ref"],
  [("deallocator stored in the object", "string.hpp, vector.hpp storage_t"), ("fixed layout", "all headers")],
  ["module-tagged allocation headers", "values read by every module after every operation"])

p("C24", "distinct objects and shared const objects are safe to use concurrently",
  "Threads that each use their own objects, or that only use const operations on shared objects, never race with one another and always observe the same results as a single thread would, for every template and operation.",
  ["schedules", "histories"], "every schedule of threads using distinct objects, or const operations on shared ones",
  "The tests are single-threaded.",
  ["vector", "string", "array", "array_ref", "bitset", "optional", "optional_ref", "tuple", "variant", "variant_ref", "string_ref", "function_ref"],
  [("no mutable or static state", "all headers")],
  ["ThreadSanitizer reports", "per-thread results compared with the model"])

p("C25", "operations that cannot fail do not fail when memory is exhausted",
  "When no memory can be allocated, destruction, move, swap, clear, pop_back, erase, shrink_to_fit, reset, growth within the capacity by a known number of elements, substr of an rvalue, comparison, hashing, iteration, unchecked access and every operation of the reference and view types still complete normally with their documented result: they neither throw nor terminate the program. Operations that do need memory report it with an exception the caller can catch.",
  ["fault_sequences", "histories"], "every object state and operation, with every allocation failing",
  "No test runs with a failing allocator.",
  ["vector", "string", "array", "optional", "variant", "tuple", "bitset", "array_ref", "string_ref", "optional_ref", "variant_ref", "function_ref"],
  [("noexcept operations", "all headers")],
  ["completion, result and absence of std::terminate with every allocation refused"])

p("C26", "results never depend on previous memory contents",
  "Every operation's observable result is the same whatever bytes the object's storage, the heap or the stack held before: default construction yields the documented empty, zero or first-alternative value, resize without a value yields value-initialised elements, and no observer ever reads an indeterminate byte.",
  ["histories", "configurations"], "every history, repeated over differently pre-filled object, heap and stack memory",
  "The tests run in mostly zeroed fresh memory, where reading an uninitialised byte looks correct.",
  ["vector", "string", "array", "array_ref", "bitset", "optional", "optional_ref", "tuple", "variant", "variant_ref", "string_ref"],
  [("member initialisers and constructors", "all headers")],
  ["complete observation traces of the same history under different memory fill patterns"])

p("C27", "vector and array elements are always aligned for their type",
  "Every element of a vector or array, whatever the element's size or alignment requirement (including over-aligned types), always lives at an address that satisfies that requirement, after any growth, shrink, insertion, copy, move or swap.",
  ["inputs", "histories", "configurations"], "every element type and history",
  "The tests use only int elements.",
  ["vector", "array"], [("allocation", "vector.hpp storage_t(std::size_t)")],
  ["element addresses at construction and after every operation"])

p("C28", "nested compositions copy deeply and stay memory-safe",
  "Values composed of several templates (vectors of strings, optionals of vectors, variants of containers, arrays and tuples of owning types, to any depth) have value semantics: a copy equals its source and later changes to either never affect the other, moves and swaps transfer the whole value, and replacing a container by a copy of a part of itself, or a variant by a value (copied or moved) out of the alternative it holds, yields that part. No history of such operations performs an invalid memory access or other undefined behaviour, or leaks memory.",
  ["histories", "inputs", "programs"], "every nesting of the templates and every operation history on it",
  "The only nested object in the tests is an optional<string> used once.",
  ["vector", "string", "array", "optional", "variant", "tuple"], [("copy/move/destroy of each template composed", "all owning headers")],
  ["value of every object after every operation", "AddressSanitizer, LeakSanitizer-style ledger, UndefinedBehaviorSanitizer"])

p("C29", "every header can be included on its own",
  "A translation unit that includes any single public header and nothing else compiles with every supported compiler, so that the header can be used in an interface without hidden prerequisites.",
  ["configurations", "programs"], "every header, compiler and language version from C++17 on",
  "Every test file includes Catch2, and with it most of the standard library, before the PTL header.",
  ["vector", "string", "array", "array_ref", "bitset", "optional", "optional_ref", "tuple", "variant", "variant_ref", "string_ref", "function_ref"],
  [("#include lists", "all headers")], ["compiler diagnostics"])

p("C30", "constexpr operations are usable in constant expressions",
  "Operations of array, array_ref, bitset, string_ref, optional_ref, variant_ref and function_ref that are offered as constexpr evaluate at compile time to the same result as at run time.",
  ["programs", "inputs"], "every constexpr operation and constant argument",
  "No test evaluates a PTL operation in a constant expression.",
  ["array", "array_ref", "bitset", "string_ref", "optional_ref", "variant_ref", "function_ref"],
  [("constexpr functions", "all listed headers")], ["compiler diagnostics"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
