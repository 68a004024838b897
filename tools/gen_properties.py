import json
I="include/NazaraUtils/"
P=[]
def p(id,title,st,over,text,why,files):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=[I+f for f in files])))

p("B01","Bitset mutators change exactly the bits they name, for every block type",
 "Every mutating or constructing operation of a bitset (resize, set/reset/flip of one or all bits, block writes, shifts, reverse, and/or/xor/not, unbounded set, clear, copy, move, swap, bit references) leaves it holding exactly the bit sequence obtained by applying that operation to its previous bit sequence. No other bitset and no bit beyond the size is affected, and the result does not depend on the block type or on the storage (vector, fixed or hybrid).",
 ["histories","inputs","configurations"],"any finite sequence of in-contract operations on any number of bitsets of any size, for block types UInt8/16/32/64 over vector, FixedVector and HybridVector storage, operands of different sizes and aliasing operands included",
 "the tests run a few fixed short sequences on fixed bit strings; block-boundary sizes, mixed-size operands and long histories are not sampled",["Bitset.hpp","Bitset.inl"])
p("B02","Bitset observers report exactly the logical bits",
 "Size, bit tests, count, find-first/find-next, bit iteration (pre- and post-increment), all/any/none tests, block access, intersection test and textual form are all functions of the bitset's bit sequence alone: they agree with one another and never see a bit beyond the size.",
 ["histories","inputs","configurations"],"every bitset reachable by any history of operations, every block type and storage, every index argument",
 "tests query only a handful of literal bitsets, never all observers after every step of a history",["Bitset.hpp","Bitset.inl","MathUtils.inl"])
p("B03","Bitset comparisons order bitsets as the binary numbers they hold",
 "Comparing two bitsets with ==, !=, <, <=, > and >= gives the same answer as comparing the unsigned binary numbers they represent, whatever their sizes; exactly one of <, == and > holds.",
 ["inputs","configurations"],"all pairs of bitsets, of equal or different sizes and block counts, for all block types and storages",
 "the tests only use == and != on a few values; the orderings are never called",["Bitset.hpp","Bitset.inl"])
p("B04","Bit import and export preserve every bit in order",
 "Appending integer bits, writing from a byte sequence (resumable at any bit offset), and building from an integer, a string or a byte pointer put exactly the requested number of bits after the existing ones, in order, with zeros where the source integer is exhausted and nothing taken from beyond the requested count; converting back to an integer or a string yields the same bits. A byte-sequence read returns the byte and bit position immediately after the last bit consumed.",
 ["histories","inputs","configurations"],"all bit counts (including 0, and counts larger than the source integer), source values with bits set beyond the requested count, all resume offsets, all block types and storages",
 "tests append one 24-bit pattern in chunks that are masked by construction or whole bytes",["Bitset.hpp","Bitset.inl"])
p("V01","FixedVector and HybridVector behave as one sequence for every history",
 "For every history of in-contract operations, a fixed- or hybrid-capacity vector holds exactly the element sequence that the same operations produce on an ideal sequence: same size, same values in the same order through every accessor and iterator, arguments that alias an element included. Growing past the inline capacity, shrinking, copying, moving and assigning between vectors in inline and heap mode preserve the contents.",
 ["histories","inputs","configurations"],"any sequence of construct/push/emplace/insert/erase/pop/resize/reserve/assign/copy/move/clear operations on several vectors, inline and heap mode, trivially copyable, non-trivial and move-only element types",
 "tests exercise one hand-written sequence per operation with a single element type",["FixedVector.hpp","FixedVector.inl"])
p("V02","StackVector and StackArray behave as a sequence for every history",
 "For every history of in-contract operations, a stack-allocated vector or array holds exactly the element sequence the same operations produce on an ideal bounded sequence, through every accessor and iterator, arguments that alias an element included; a moved-from one is empty and still usable.",
 ["histories","inputs","configurations"],"any sequence of push/emplace/insert/erase/pop/resize/fill/move/clear operations, any capacity, trivially copyable, non-trivial and move-only element types",
 "tests exercise one hand-written sequence with a single element type; moves are not tested",["StackVector.hpp","StackVector.inl","StackArray.hpp","StackArray.inl"])
p("V03","Containers destroy every element they construct exactly once",
 "At every point of every history, the live elements owned by the fixed, hybrid and stack containers are exactly those in their sequences: no element is leaked, destroyed twice, constructed over a live one, or used after its destruction. When all containers are gone no element is alive.",
 ["histories","configurations"],"any history of operations, including copies, moves, self-assignment, inline/heap migration, clears and destruction",
 "tests count live objects only at the end of a few sequences",["FixedVector.inl","StackVector.inl","StackArray.inl","MemoryHelper.inl"])
p("V04","A throwing element operation leaves a container consistent and leaks nothing",
 "When an element's constructor, copy or move throws during a container operation, the exception reaches the caller, the container's size still equals the number of its live elements, and each element ever constructed is destroyed exactly once.",
 ["fault_sequences","histories"],"every operation of the fixed, hybrid and stack containers that may construct elements, with the fault injected at every element construction or assignment of the operation",
 "no test throws from an element operation",["FixedVector.inl","StackVector.inl","StackArray.inl"])
p("M01","Memory pool indices, pointers and counts stay exact for every history",
 "Every allocation returns an index and pointer not held by any live entry; pointer-from-index and index-from-pointer are inverse; a live entry keeps its address and value until it is freed, whatever else is allocated or freed. Allocated, free, total and block counts and forward iteration always reflect exactly the set of live entries, after moves, resets and clears too.",
 ["histories","configurations"],"any sequence of allocate/free/lookup/iterate/reset/clear/move, any block size, any element type and alignment",
 "tests run one allocate/free pattern with one block size",["MemoryPool.hpp","MemoryPool.inl"])
p("M02","Memory pool runs each entry's constructor and destructor exactly once",
 "A value allocated from a memory pool is constructed once and destroyed exactly once: by free, reset, clear, pool destruction or being overwritten by pool move-assignment, never twice and never while still live; deferred construction and no-destruction frees run neither. If a constructor throws, the entry is not considered live.",
 ["histories","fault_sequences"],"any history of pool operations including moves, constructors that throw and no-destruction frees",
 "tests check the alive counter at a few points of one history",["MemoryPool.hpp","MemoryPool.inl"])
p("K01","A memory allocation that fails reaches the caller and damages nothing",
 "Whichever memory allocation of a call fails -- in hybrid vectors, in bitsets (over a std::vector or hybrid storage), in memory pools, in signals and connection guards, and in heap-allocated private implementations -- the exception reaches the caller, the object still holds exactly what it held before the call (writing a bit sequence may have appended a first part of it, a guard may have let go of its old slot, and a private implementation whose object cannot be assigned may be left empty), it stays fully usable, and every block of memory is given back in the end.",
 ["fault_sequences","histories","configurations"],"any history of calls of these types in which any allocation of any call is refused",
 "the tests never let an allocation fail",["FixedVector.hpp","FixedVector.inl","Bitset.inl","MemoryPool.inl","Signal.inl","PrivateImpl.inl"])
p("K02","Threads do not disturb each other through the library",
 "Threads may use the library at the same time as long as no object is changed by one while another uses it: calls on objects of their own, calls of its functions, and const operations (all but emitting a signal) on an object they share race on no memory, and give each exactly what they give when made one after another. Nothing the library keeps outside of the objects, nor inside of an object for a const operation, is shared between calls.",
 ["schedules","histories","configurations"],"any schedule of calls of any operations in any number of threads in which no object is changed while used by another thread",
 "the tests run in one thread",["Bitset.inl","FixedVector.inl","MemoryPool.inl","Signal.inl","Hash.inl","StringHash.inl","PathUtils.inl","TypeName.inl","Result.inl","PrivateImpl.inl","FunctionRef.inl"])
p("S01","Signal emission calls every connected slot exactly once under reentrancy",
 "Emitting a signal calls, with the emitted arguments, each slot connected when the emission starts and not disconnected before its turn exactly once, and no slot disconnected before its turn; slots connected during the emission are called at most once in it. This holds when callbacks connect, disconnect themselves or others, or clear the signal during the emission, and never touches a destroyed callback.",
 ["schedules","histories"],"all interleavings of emission steps with connect/disconnect/clear actions performed by callbacks, any number of slots, any prior history",
 "tests disconnect one fixed slot in one fixed position during emission",["Signal.hpp","Signal.inl"])
p("S02","Connections always tell whether and to what they are connected",
 "A connection is connected from its creation until it, a guard owning it, a clear of its signal, or the signal's destruction disconnects it, and a disconnected slot is never called again. Copies of a connection share that state; moving a connection or guard transfers it; moving a signal transfers all its slots and leaves a usable empty signal; a copied signal has no slots.",
 ["histories"],"any history of connect/disconnect/copy/move/assign/destroy operations on signals, connections and guards, in any destruction order",
 "tests cover a few straight-line lifetimes",["Signal.hpp","Signal.inl"])
p("R01","Result holds exactly one of value or error and never loses or steals it",
 "A result is at all times either a value or an error; construction, copy, move, assignment and value/error accessors (mapping and fallback included) produce exactly the alternative and payload of their source, invoke a continuation only in the matching state, and never modify an lvalue argument; an exception thrown by a copy or a continuation reaches the caller and leaves the result as it was.",
 ["histories","inputs","configurations"],"any sequence of construct/copy/move/assign/access/map operations in either state, void and non-void value types",
 "tests check a few constructions; assignment across states and lvalue sources are not sampled",["Result.hpp","Result.inl"])
p("O01","A scope-exit callback runs exactly once unless reset",
 "The callback of a scope-exit object runs exactly once: on call-and-reset, on destruction or when replaced by move-assignment, whichever comes first; never after a reset, and never again after being moved away, even when the callback throws or was moved through any chain of objects.",
 ["histories","fault_sequences"],"any history of construct/move/move-assign/reset/call-and-reset/destroy over several objects",
 "tests cover construction, reset and one move",["CallOnExit.hpp","CallOnExit.inl"])
p("O02","PrivateImpl owns, copies and moves its object exactly",
 "An owning private-implementation holder owns at most one object: copying yields an independent equal object, moving transfers the object or its value, self-assignment and assignment from or to an empty holder are safe, and each object is destroyed exactly once, also when constructing or copying the object throws.",
 ["histories","configurations"],"any history of construct/emplace/copy/move/assign/self-assign/destroy for the heap and the inline-buffer variants",
 "tests cover one construct/copy/move each",["PrivateImpl.hpp","PrivateImpl.inl"])
p("O03","Movable wrappers reset the source of a move and never touch a copy's source",
 "Constructing a movable pointer or literal from a moved one leaves the source null or at its literal and the target holding what the source held; move-assigning one exchanges the two, so that no handle is dropped or duplicated; moving a movable value moves the value itself. Copying, and assigning from an lvalue (wrapper or raw value), leaves the source unchanged; self-copy keeps the value.",
 ["histories","inputs"],"any history of copy/move/assign/release operations among several wrappers and raw values",
 "tests move once and check once",["MovablePtr.hpp","MovablePtr.inl","MovableValue.hpp","MovableValue.inl"])
p("F01","Flag sets obey set algebra over the whole enumeration",
 "A flag set is a set of enumerators: union, intersection, symmetric difference, complement, set/clear/test, comparison, conversion to and from its mask, hashing and iteration agree with the mathematical set operations for every enumerator up to the largest, including those beyond bit 31 and with explicit bit values.",
 ["inputs","histories","configurations"],"all sets over enumerations of 1 to 64 enumerators, contiguous and explicit-bit, any expression built from the operators",
 "tests use a three-value enumeration",["Flags.hpp","Flags.inl"])
p("E01","EnumArray maps each enumerator to its own element and iterates them in order",
 "An enum array holds one independent element per enumerator; writing through one enumerator changes only that element; value, reverse and key-value iteration visit every enumerator exactly once in order, key-value iterators behave as random-access iterators over (enumerator, element) pairs, and comparison, fill, swap and size agree with this mapping.",
 ["histories","inputs"],"any history of element writes, fills, swaps and iterator arithmetic, any enumeration size",
 "tests iterate one array once",["EnumArray.hpp","EnumArray.inl"])
p("P01","Strided pointer arithmetic agrees with integer arithmetic on byte offsets",
 "For every stride, including zero-padding, negative and very large ones, moving a strided pointer by n elements moves its address by exactly n times the stride; increment, decrement, compound, binary and subscript forms agree; difference and ordering are consistent with it; conversions to const and base element types point at the same element.",
 ["inputs","histories"],"all strides and element counts whose byte offset is representable in the address space, in either direction, any sequence of moves",
 "tests use strides and indices below 32 bits in a small array",["SparsePtr.hpp","SparsePtr.inl"])
p("N01","Bit and byte utilities match their bit-level definition at every width",
 "Counting, finding the first/last set bit, reversing, setting, clearing, testing and toggling bits, arithmetic right shift, byte swapping, in-place byte reversal and endianness conversion return exactly their bit-level definition for every integer width and signedness, and give the same result in constant evaluation as at run time.",
 ["inputs","configurations"],"all values and bit indices of all 8/16/32/64-bit signed and unsigned types, constant-evaluated and run-time, C++17 and C++20, any buffer length including 0 and 1",
 "tests sample a few constants, mostly unsigned 32-bit",["MathUtils.hpp","MathUtils.inl","Endianness.hpp","Endianness.inl"])
p("N02","Integer math utilities return the mathematical result whenever it exists",
 "Alignment, power-of-two rounding and tests, integer logarithms and powers, clamping, stepwise approach, modulo, multiply-add and tolerance comparison of integers return the mathematically defined value for every in-contract argument whose result is representable, for every integer width and signedness, in constant evaluation and at run time.",
 ["inputs","configurations"],"all in-contract arguments of all 8/16/32/64-bit signed and unsigned types",
 "tests sample a few constants per function",["MathUtils.hpp","MathUtils.inl"])
p("H01","Hashes are the published byte-stream functions, whatever the overload",
 "CRC32 and FNV-1a (32 and 64 bits) of a byte string equal their published definition for every byte value and length, whether given as character pointer, string view, raw memory or byte buffer; string-hash functors agree for all string types holding the same text; hash combination depends only on the combined values and their order.",
 ["inputs","configurations"],"all byte strings (bytes above 0x7F and embedded zeros included), all overloads, constant-evaluated and run-time",
 "tests hash a few ASCII strings",["Hash.hpp","Hash.inl","StringHash.hpp","StringHash.inl"])
p("C01","Checked numeric casts accept exactly the representable values",
 "In debug builds a checked cast from an integer, enumeration or floating-point value to an integer or enumeration type returns the same mathematical value when the target type can represent it and fails an assertion otherwise; between floating-point types it rounds a value in range and fails on one out of range; a downcast of a polymorphic class object fails unless the object is of the target class. The outcome is the same whether the source is a temporary, a variable, a constant or a deferred cast, and pointer/integer conversions round-trip.",
 ["inputs","configurations"],"all pairs of 8/16/32/64-bit signed/unsigned integer types, enumerations, float and double, all source values, lvalue and rvalue sources, references and pointers to classes",
 "tests cast a few in-range values only; a failing assertion aborts the test process",["Algorithm.hpp","Algorithm.inl"])
p("T01","Type-list operations compute the list they describe",
 "Concatenate, append, prepend, remove, unique, transform, instantiate, at, find, has, empty, size and apply on a type list give the same result as the corresponding operation on the sequence of types, for every list, the empty list and duplicates included; apply calls the functor once per type, in order, each call finding the caller's arguments as they were given.",
 ["programs"],"all programs instantiating the operations on type lists up to a bounded length over a small type alphabet",
 "tests instantiate each operation on one or two lists",["TypeList.hpp","TypeList.inl"])
p("U01","UTF-8 string and path conversions are lossless",
 "Converting text to UTF-8 form and back, and a UTF-8 path to a filesystem path and back, yields the same bytes for every valid string (for paths, up to the generic form where a run of separators is one), through every overload; views refer to the same characters as their source and strings own theirs.",
 ["inputs","configurations"],"all byte strings valid as UTF-8 (embedded multi-byte sequences, empty strings, any length), C++17 and C++20",
 "tests convert one literal",["StringUtils.hpp","StringUtils.inl","PathUtils.hpp","PathUtils.inl"])
p("G01","A function reference calls its current target with the caller's arguments",
 "Invoking a function reference calls the callable it was last bound to exactly once, on the object itself and not a copy, forwarding every argument with its value category and returning the callable's result; copying or rebinding one reference never affects another.",
 ["histories","inputs"],"any history of bind/copy/assign/invoke over several references and callables (lambdas, functors, free functions), by-value, by-reference and move-only arguments",
 "tests call one lambda and one function",["FunctionRef.hpp","FunctionRef.inl"])
p("A01","Generic lookup, cast and raw-memory helpers address exactly what they name",
 "Element counts, map lookups, offset field access, member offsets (inherited and array members included), bit casts, unique-pointer casts and placement construction return or act on exactly the element, field, bits or object they name, without copying it or touching anything else; a unique-pointer cast hands over the one ownership, and looking up a missing key fails an assertion in debug builds.",
 ["inputs","histories"],"all containers, keys, offsets and bit patterns; const and non-const access",
 "tests sample one call of each",["Algorithm.hpp","Algorithm.inl","OffsetOf.hpp","MemoryHelper.inl"])
p("X01","Floating-point helpers return the correctly computed value",
 "For every finite, infinite or NaN argument: floating-point modulo is the exact remainder of the truncated division, in constant evaluation as at run time; Clamp and Approach stay within their bounds and return the exact value of their formula; tolerance comparison is |a-b| <= tolerance; finiteness, infinity and NaN tests classify every value; interpolation, multiply-add and degree/radian conversion are within the rounding of their formula (exact at the start point); and the mathematical constants are the nearest number of their type, long double included.",
 ["inputs","configurations"],"all float and double arguments, constant evaluation and run time",
 "tests sample a few constants",["MathUtils.hpp","MathUtils.inl","Constants.hpp","Constants.inl"])
p("Y01","Type introspection tells the truth about every type",
 "For every C++ type a program can form - named, cv-qualified, pointers, references, arrays, functions with any qualifiers, pointers to members, template instances, nested to any depth and of any length - TypeName is the whole name of exactly that type, function traits give its exact return and parameter types in order, for functions, pointers, members with every qualifier and functors alike; overload selection picks the one overload taking exactly the given parameters; completeness, pointed-to, cv/reference-removal, hidden-copy and enumeration-count traits agree with the language.",
 ["inputs","configurations"],"all types, however nested or long",
 "tests name a handful of short types and signatures",["TypeName.inl","FunctionTraits.hpp","TypeTraits.hpp","TypeTag.hpp"])

p("D01","Assertions stop on failure and otherwise leave the program alone",
 "An assertion evaluates its condition exactly once; when it holds, or when assertions are compiled out, the program goes on as if the assertion were not there, whatever statement it is part of; when it does not hold, the message's arguments are evaluated, the message and place are reported, and the process ends there (in a constant expression: the expression is ill-formed). Branch hints and assumptions change no value.",
 ["inputs","configurations"],"any program built of assertions, conditions, loops and branches, any values of the conditions, every form of assertion and every way of switching assertions on or off",
 "no test makes an assertion fail or uses one as the branch of a statement",["Assert.hpp","Assert.inl","DebugBreak.hpp","ConstantEvaluated.hpp","Prerequisites.hpp"])
p("Z01","Every header works alone, in any combination, order and number of units",
 "A program may include any of the headers, in any order and any number of times, in any number of translation units: it compiles and links, what it can use depends only on the set of headers a unit includes, and each use gives the same answer in every such program.",
 ["configurations"],"every header alone, and any sequence of inclusions in each of several translation units, for C++17 to C++23 and both compilers",
 "each test file includes a fixed list of headers after those of the test framework, and few headers are included by two files",["Prerequisites.hpp","Concepts.hpp","StringUtils.hpp","PathUtils.hpp","Algorithm.hpp","Bitset.hpp","Signal.hpp"])
MECH={
"B01":[("block arithmetic and ResetExtraBits after every operation that may set bits past the size","Bitset.inl")],
"B02":[("FindFirstFrom/FindNext over blocks, block-wise tests relying on zero extra bits","Bitset.inl")],
"B03":[("block-wise comparison from most significant block","Bitset.inl operator<, operator==")],
"B04":[("AppendBits chunking, Write byte loop, integer/string constructors, To","Bitset.inl")],
"V01":[("inline storage with placement construction and migration to a heap vector","FixedVector.inl")],
"V02":[("placement construction in caller-provided stack memory","StackVector.inl, StackArray.inl")],
"V03":[("PlacementNew/PlacementDestroy pairing with m_size","FixedVector.inl, StackVector.inl, StackArray.inl")],
"V04":[("order of size update and element construction","FixedVector.inl, StackVector.inl, StackArray.inl")],
"M01":[("free/occupied bitmaps per block, index = block * size + local index","MemoryPool.inl")],
"K02":[("no static, global or mutable state behind functions and const operations (only Signal::m_slotIterator is mutable)","all headers; Signal.hpp"),("shared slots counted by std::shared_ptr","Signal.hpp, Signal.inl")],
"K01":[("order of allocation and state change: block creation in AllocateBlock, m_bitCount before the storage grows, fallback reservation before the inline elements move","MemoryPool.inl, Bitset.inl, FixedVector.inl"),("noexcept of operations that may allocate","FixedVector.hpp")],
"M02":[("occupied bitmap drives destruction in Free/Reset/Clear/destructor","MemoryPool.inl")],
"S01":[("slot vector and running slot iterator adjusted by Disconnect","Signal.inl")],
"S02":[("weak slot reference in Connection, guard disconnects on destruction, slots re-parented on move","Signal.inl")],
"R01":[("variant of value and error","Result.inl")],
"O01":[("optional functor, reset by move","CallOnExit.inl")],
"O02":[("heap pointer or inline buffer with type-erased copy/move/destroy","PrivateImpl.inl")],
"O03":[("exchange with the reset value in move operations","MovablePtr.inl, MovableValue.inl")],
"F01":[("bit mask with one bit per enumerator","Flags.inl")],
"E01":[("std::array indexed by the enumerator, key-value iterator over it","EnumArray.inl")],
"P01":[("byte pointer plus stride","SparsePtr.inl")],
"N01":[("compiler builtins at run time, portable code in constant evaluation","MathUtils.inl")],
"N02":[("bit tricks and de Bruijn tables","MathUtils.inl")],
"H01":[("table-driven CRC32, FNV-1a loop","Hash.inl")],
"C01":[("range assertions chosen by signedness and size","Algorithm.inl SafeCast")],
"T01":[("template recursion on the list","TypeList.inl")],
"U01":[("reinterpretation between char and char8_t storage","StringUtils.inl, PathUtils.inl")],
"G01":[("type-erased pointer and trampoline","FunctionRef.inl")],
"A01":[("offset arithmetic, find, bit_cast, release","Algorithm.inl")],
"X01":[("closed-form floating-point expressions","MathUtils.inl")],
"D01":[("macros and force-inlined functions ending in a debug break and abort","Assert.hpp, Assert.inl")],
"Z01":[("include guards, includes of what each header needs, inline and template definitions","every header")],
"Y01":[("cutting the name out of the compiler's function signature","TypeName.inl"),("one partial specialization per qualifier combination","FunctionTraits.hpp")],
}
for x in P:
    x["anchors"]["mechanism"]=[dict(name=n,where=w) for n,w in MECH[x["id"]]]
json_lines="\n".join(json.dumps(x,ensure_ascii=False) for x in P)+"\n"
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "..", "properties.jsonl"),"w").write(json_lines)
print(len(P))
