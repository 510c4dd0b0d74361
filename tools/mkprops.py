import json
P=[]
def prop(id,title,stmt,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(zip(("name","meaning","where"),s)) for s in state],
        "mechanism":[dict(zip(("name","where"),m)) for m in mech],"observe_at":list(obs),"hook_needed":hook}})
H="include/logic/"
ALL=[H+x for x in("bit.hh","logic.hh","big_num.hh","util.hh","array.hh")]+["src/util.cc"]
prop("C01","Independent values can be used concurrently",
 "When several threads operate at the same time on values that they do not share - computing, comparing, slicing, updating, parsing and formatting two-state and four-state values of any width - every operation gives the outcome it gives when it runs alone, however the threads interleave. The library keeps no hidden mutable state through which one thread's operation could race with, or leak into, another's.",
 ["schedules","inputs"],"every interleaving of 2 or more threads at the granularity of single memory accesses, every operation of the public API, every operand",
 "Every existing test is single-threaded; a hidden static buffer, cache or table that is filled on first use passes all of them.",ALL,
 [("pure functions on value types, local temporaries only",H+"big_num.hh"),("function-local static (default element of an unpacked array) guarded by the compiler",H+"array.hh operator[]"),("text conversion with local buffers","src/util.cc")],
 [("x_","function-local static initialised on first use",H+"array.hh")],["return values, text and exceptions of every operation","every memory access, for a happens-before race"])
prop("C02","Published values can be read by many threads",
 "Any number of threads may concurrently call const operations - reading bits and slices, indexing arrays, comparing, computing with, converting and formatting - on the same value, including on its very first use, and each gets the outcome of a lone reader. A const operation never modifies the value it reads nor anything else another reader can see.",
 ["schedules","inputs"],"every interleaving of 2 or more readers of the same values at the granularity of single memory accesses, including concurrent first use",
 "No test has a second reader; lazily filled caches, mutable members and unsynchronised first-use initialisation are invisible to a single thread.",ALL,
 [("const member functions of bit, logic, big_num",H+"logic.hh, bit.hh, big_num.hh"),("const element access of packed and unpacked arrays with first-use statics",H+"array.hh")],
 [("value words and xz_mask","the shared representation that readers must leave alone",H+"logic.hh")],["reader outcomes","bytes of the shared value before and after","happens-before races"])
prop("C03","Operations stay inside the storage they are given",
 "Whatever the width, signedness, operand values and indices, an operation reads only initialised parts of its operands and library-owned tables, and writes only its result or the object it updates: neighbouring objects, freed or foreign memory are never touched. This holds for out-of-range run-time indices, unknown (x/z) operands, mixed widths and signs, and for formatting and parsing as well as arithmetic.",
 ["inputs","histories","schedules"],"every operation, width, operand and index, with values placed next to other live values, in fresh, reused or dirty memory",
 "The tests use a few widths and values and run without memory checking; an access one word past a wide value reads plausible stack bytes and passes.",ALL,
 [("word counts derived from the width",H+"big_num.hh"),("bounds and x/z checks on indices",H+"array.hh, bit.hh, logic.hh"),("digit tables and padding sizes in text conversion","src/util.cc")],
 [("value words, xz_mask words","big_num storage of util::total_size bits rounded up to 64",H+"big_num.hh")],["every load and store of the operation against the object it belongs to","guard bytes around each value"])
prop("C04","Outcomes depend only on the arguments, not on history",
 "The same operation on the same argument values gives the same result, text or exception every time it is executed: regardless of what ran before in the process, of earlier failures, of where the values live, of what was in memory before, and of the clock. No operation changes its const arguments.",
 ["histories","inputs"],"every position of an operation in every history of other operations (including failed ones), every heap state and every stale memory content",
 "A test executes an operation once in a fresh process; state left behind by earlier calls, or stale bytes in an uninitialised temporary, needs particular histories.",ALL,
 [("value semantics, explicit initialisation of result words and masks",H+"big_num.hh, logic.hh, bit.hh"),("parsing and formatting without persistent state","src/util.cc")],
 [("result words / xz_mask","must be fully written by the operation",H+"logic.hh")],["outcome of the repeated operation","use of never-written memory"])
prop("C05","Text conversion survives memory exhaustion",
 "If an allocation fails while a value is formatted to text or built from text, the caller gets either exactly the right result or an exception that reports the failure - never truncated or wrong text, never a wrong value, never a terminated process. Nothing is leaked, no operand is changed, and the same call gives the right result once memory is available again.",
 ["fault_sequences","inputs","schedules"],"every allocation of every formatting or parsing call failing (single, repeated, or all above a size), every value and format",
 "The tests never run out of memory; which of the many allocations inside a conversion fails is a fault sequence, not an input.",["src/util.cc",H+"bit.hh",H+"logic.hh",H+"big_num.hh"],
 [("exception propagation and RAII in text conversion","src/util.cc to_string, parse"),("str()/parse entry points",H+"bit.hh, logic.hh")],[],["returned text/value or exception","live heap blocks afterwards","outcome of the retry"])
prop("C06","Computing never needs memory and never dies",
 "Arithmetic, bitwise, shift, comparison, reduction, slice, concatenation, conversion and update operations on values of any width complete and give their normal result when no memory can be allocated, and they never throw or terminate the process for any operand value. This includes division and modulo by zero or by unknown, the most negative value divided by -1, and shift amounts of any size.",
 ["fault_sequences","inputs"],"every non-text operation, every operand value, with every allocation failing",
 "No test makes allocation fail, and only sampled operands are used; division corner cases raise a signal only for particular operands.",[H+x for x in("bit.hh","logic.hh","big_num.hh","util.hh","array.hh")],
 [("fixed-size in-object storage (std::array words)",H+"big_num.hh"),("zero and overflow handling in division",H+"bit.hh, logic.hh, big_num.hh")],[],["result under total allocation failure equals the undisturbed result","signals and exceptions"])
prop("C07","The environment does not change results",
 "The outcome of every operation - in particular formatting and parsing - is independent of the process's ambient settings: C and C++ global locale, floating-point rounding mode, environment variables and clock, even when they are changed while the operation is running. Operations do not change any of these settings either.",
 ["configurations","schedules","inputs"],"every ambient configuration, changed at every point before or during an operation",
 "All tests run in the C locale with default settings.",["src/util.cc"]+[H+"logic.hh",H+"bit.hh",H+"big_num.hh"],
 [("digit-by-digit conversion with classic-locale streams","src/util.cc")],[],["outcome with and without the change","locale, rounding mode and environment after the operation"])
prop("C08","State saved as text or bytes survives a crash and restart",
 "A program that saves its registers as binary text (format b), as hexadecimal or decimal text where that is exact (no x or z bits; decimal for unsigned values of at most 64 bits; characters for printable contents of whole bytes), or as a copy of the object bytes, and after a crash at any point is restarted from the last complete save, continues exactly as if it had not crashed: every bit of every register, including x and z bits and bits beyond the 64th, comes back in the new process, whatever the width, signedness or number of states. A save that was interrupted never yields a value other than one that was completely saved.",
 ["crash_points","histories","inputs"],"every crash point in every history of updates and saves, every register width and content, text and byte saves",
 "The tests never parse what they format for wide values or x/z digits beyond a few samples, never restart, and never look at bytes in another process.",["src/util.cc",H+"logic.hh",H+"bit.hh",H+"big_num.hh"],
 [("str() and the string constructors are inverse for binary text","src/util.cc"),("trivially copyable, self-contained representation with no pointers or process-local state",H+"logic.hh, big_num.hh")],
 [("value, xz_mask","the complete state of a register",H+"logic.hh")],["bits of every register after restart against the crash-free history"])
prop("C09","Registers behave as a vector of bits in every history",
 "In any interleaving of processes that assign whole registers, single bits (constant or run-time index) and part selects, copy and extend between registers of other width (signed ones carry their sign along, unknown signs included), and read bits or slices, every register at all times holds exactly the bits that a plain array of bits, one state (0, 1, x, z) per declared index, would hold: a write changes the addressed bits only, a read returns them, and what was read compares equal to a fresh value with the same bits. This holds for all widths, two-state and four-state registers and descending or ascending declared ranges starting at any index.",
 ["histories","schedules","inputs"],"every history of reads and updates by interleaved processes over registers of many widths and declared ranges",
 "Tests check single updates of fresh values; masks that disturb a neighbouring bit, stale x/z bits or bits beyond the width show only after sequences of updates.",[H+"logic.hh",H+"bit.hh",H+"big_num.hh"],
 [("set/update/get/slice with masks per word",H+"logic.hh, bit.hh, big_num.hh")],
 [("value and xz_mask","4-state encoding of each bit",H+"logic.hh")],["every bit of every register after every step against a per-bit model"])
prop("C10","Every operation terminates within a bounded number of steps",
 "Every operation finishes within a number of steps, and an amount of stack, bounded by the widths of its operands and the length of its text, whatever the operand values, indices, shift amounts, format strings and text, and whatever other threads do or fail to do: a stalled thread never blocks another thread's operation on its own values.",
 ["inputs","schedules","fault_sequences"],"every operand value and text including degenerate ones, every schedule in which other threads stall",
 "A loop that does not end, or an output that grows without bound, needs a particular value, format or a stalled peer; the tests sample a few.",ALL,
 [("loops over words and digits",H+"big_num.hh, src/util.cc"),("no locks",H+"*.hh")],[],["steps executed by each operation","stack used by each operation","length of the output","blocked threads"])
prop("C11","Arrays keep elements independent; bad indices do nothing",
 "In any interleaved history of element reads and writes through constant or run-time indices on packed and unpacked arrays (any declared range, any element width, two- or four-state), and of field accesses on packed structs and unions held as one vector, each element holds exactly what was last written to it and no write disturbs another element. A write through an out-of-range or unknown (x/z) index changes nothing, and a read through one returns the default value of the element.",
 ["histories","schedules","inputs"],"every history of element accesses with valid, out-of-range and unknown indices over many shapes",
 "The tests index one array shape a few times; an off-by-one element boundary damages a neighbour that no test looks at.",[H+"array.hh",H+"struct.hh",H+"union.hh",H+"logic.hh",H+"bit.hh"],
 [("index normalisation and bounds check",H+"array.hh"),("update_/slice_ on the flat vector",H+"logic.hh, bit.hh")],
 [("flat vector of a packed array","all elements",H+"array.hh")],["every element after every step against a model"])
prop("C12","Damaged text is contained",
 "Number text as it is left by an interrupted, corrupted or misdirected writer - truncated, with flipped, missing, repeated or foreign bytes, empty, or very long - given to a constructor or parser yields either a value or an exception: never a crash, a hang, an access outside the text, or damage to other values. After a rejected text the library works as before.",
 ["fault_sequences","inputs"],"every truncation point and corruption of stored number text and format strings, every target width",
 "The tests parse well-formed literals only.",["src/util.cc",H+"bit.hh",H+"logic.hh"],
 [("prefix, size and base parsing with string_view bounds","src/util.cc")],[],["outcome class","accesses outside the text","later operations"])
prop("C13","Usable at every moment of a process's life",
 "Every operation gives the outcome it gives in the middle of a normal program also when it is executed while static objects are still being constructed (from the constructor of a user's static object, before any initialiser of the library has run), after static objects have been destroyed, and in the child of a fork() that was made while other threads were in the middle of operations of their own. The order in which the translation units of a program are initialised and torn down does not matter.",
 ["schedules","histories","inputs"],"every order of initialisers, operations and destructors; a fork at every point of other threads' operations; every operation",
 "The tests run between initialisation and teardown of one process; a table filled by a dynamic initialiser, or a lock held by a thread that does not exist in the child, passes all of them.",["src/util.cc",H+"array.hh",H+"logic.hh",H+"bit.hh",H+"big_num.hh"],
 [("tables that are compile-time constants","src/util.cc decimal_size_table"),("default elements that need no run-time construction",H+"array.hh"),("no locks",H+"*.hh")],
 [("decimal_size_table","must be valid before any dynamic initialiser","src/util.cc"),("x_","default element of an unpacked array",H+"array.hh")],["outcome in each phase of the process's life"])
prop("C14","Operations can be interrupted by operations",
 "An operation may be interrupted at any point by a handler (a signal handler, or anything else that runs nested on the same thread) that itself executes operations of the library on other values: both the interrupted operation and the handler's operations complete with the outcome they have alone. The library keeps no per-thread state and takes no lock that such nesting could disturb. (Text conversion allocates; there the allocator is taken to be re-entrant.)",
 ["schedules","inputs"],"every point of every operation, every nested operation, several interruptions and nesting levels",
 "No test interrupts anything; a scratch buffer per thread passes every single-threaded and every multi-threaded test.",["src/util.cc",H+"big_num.hh",H+"bit.hh",H+"logic.hh",H+"array.hh"],
 [("local temporaries only",H+"big_num.hh"),("text conversion with local buffers","src/util.cc")],
 [],["outcome of the interrupted and of the nested operation","progress"])
prop("C15","A long-running process does not grow",
 "However many operations a process has executed, on however many threads that came and went, it holds no more memory and no more open descriptors than after the first few of them: once its result and its exception are destroyed, every operation - including those that were given damaged text, that were rejected, and that ran out of memory half-way - has given back everything it took, and a thread that ends leaves nothing behind.",
 ["histories","fault_sequences","schedules"],"every history of operations with the same or ever different arguments, failing allocations and damaged text in between; any number of short-lived threads",
 "Tests execute every operation a few times; a value kept per distinct argument, per failure or per thread is invisible to them.",["src/util.cc",H+"big_num.hh",H+"bit.hh",H+"logic.hh",H+"array.hh"],
 [("strings and vectors as locals","src/util.cc"),("no caches",H+"*.hh")],[],["bytes held by operations that ended","open descriptors"])
prop("C16","Values are what their bits say, however they came about",
 "The outcome of an operation - value, text, comparison, stored register, answer to a question such as 'any bit set' - depends on the declared bits of its operands only, never on how those bits came about: a value that was computed by any chain of earlier operations (arithmetic that overflowed its width, a shift that moved bits out of it, a complement, a change of signedness, an update of single bits, a literal that is too long, an assignment from another width) behaves in every later operation exactly like a value with the same bits that was entered directly. Nothing of a computation's history stays in a value beyond its bits.",
 ["histories","inputs"],"every chain of operations that can produce an operand, followed by every operation that can consume it, at every width and signedness",
 "A test looks at the result of one operation; bits left behind beyond the width of a result only show in what a later operation makes of it, and the pairs and chains of operations are far too many to write down.",[H+"bit.hh",H+"logic.hh",H+"big_num.hh",H+"array.hh"],
 [("mask_off after every operation that can leave the width",H+"bit.hh"),("mask_off of the top word",H+"big_num.hh"),("value and xz_mask of literals",H+"logic.hh")],[],["outcome on computed operands against outcome on the same bits entered directly"])
NAW="A function of its input alone: needs exhaustive or symbolic treatment of values; tests sample a few operands."
def na(id,title,stmt,files,mech): prop(id,title,stmt,["inputs"],"all operand values, widths and signednesses",NAW,files,mech)
na("C20","Four-state operator tables","Bitwise and logical operators follow the four-state truth tables of IEEE 1800 bit by bit, with unknown results only where the standard says so.",[H+"logic.hh",H+"bit.hh"],[("operator&,|,^,~,&&,||",H+"logic.hh")])
na("C21","Arithmetic is modular two's complement","Addition, subtraction, multiplication, division, modulo and negation give the IEEE 1800 result modulo 2^width for every width and signedness, and all-x when an operand is unknown.",[H+"logic.hh",H+"bit.hh",H+"big_num.hh"],[("operator+,-,*,/,%",H+"big_num.hh")])
na("C22","Comparison and signedness rules","Relational, equality and case-equality operators order values by the IEEE 1800 signedness and extension rules.",[H+"logic.hh",H+"bit.hh",H+"big_num.hh"],[("operator<,>,==,match",H+"logic.hh")])
na("C23","Shifts, slices, concatenation and extension algebra","Shifting, slicing, concatenating and extending obey the bit-vector algebra for all widths.",[H+"logic.hh",H+"bit.hh",H+"big_num.hh"],[("slice, concat, extend, shifts",H+"big_num.hh")])
na("C24","Literals denote the right value","Every well-formed sized or unsized literal in base 2, 8, 10 or 16 parses to the value IEEE 1800 assigns to it.",["src/util.cc"],[("parse","src/util.cc")])
na("C25","Formatted text denotes the value","Formatting with b, o, d, h and s, with and without padding, prints the digits IEEE 1800 prescribes.",["src/util.cc"],[("to_string","src/util.cc")])
na("C26","Reductions","Reduction and, or, xor and any/all tests equal the fold of the operator over the bits.",[H+"logic.hh",H+"bit.hh"],[("r_and, r_or, r_xor",H+"logic.hh")])
na("C27","Conversions between widths and state counts","Converting between widths, signedness and two-/four-state types keeps the bits that fit, extends by signedness and maps x/z to 0 for two-state.",[H+"logic.hh",H+"bit.hh"],[("converting constructors and assignment",H+"logic.hh")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in P))
