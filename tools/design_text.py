# Hand-written text for DESIGN.md: per property (oracle, scope and corrections).
T = {
"C01": ("A model factory: the set of live buffers with size, reference count and byte contents; a recycled buffer must not alias a live one; every typed accessor is compared with memcpy on a byte array. Leak accounting decides 'freed exactly once'.",
        "Sizes on both sides of the size-class limit. Concurrent use is outside: the factory is documented as single threaded."),
"C02": ("A list of (due cycle, sequence number) pairs; each history is followed by enough advances to drain the line, so that losing or delaying an entry is always observed.",
        "Latencies up to twice the initial size, so that the ring wraps before and after growing."),
"C03": ("C++ conversions (`static_cast`) between the types, computed in the harness.", ""),
"C04": ("Ordered list of raised errors, a mask bit per name.", ""),
"C05": ("For every mask, the OR over conditions that are bound, evaluated when read. Callbacks count their calls: conditions outside the mask must not be evaluated.", ""),
"C06": ("Bit by bit gathering. The three forms (recipe interpreter, generated expression, run by an interpreter for the C subset that is generated) must agree with it.", ""),
"C07": ("Independent conversions, and injectivity/round trip over all enumerated names.", ""),
"C08": ("A map by name.", ""),
"C09": ("Expression trees as data; substitution and checked integer arithmetic on them. Values are compared before and after the arguments and the template are deleted (ownership).", "int overflow (undefined in C++) is outside; the enumeration avoids it."),
"C10": ("IEEE 754 decoded with integer arithmetic in the harness; `long double` products for the conversions.", ""),
"C11": ("`read`, `write`, `send`, `recv`, `shutdown` and `close` are interposed at link time by stand-ins that ask the explorer: full, short, EINTR, error or EOF at every position. The descriptor table is a model: a double close or use after close is a violation.", ""),
"C12": ("Sets of integers; pools wider than a word.", "The operand part checks that resources held by the operand are released exactly by their release in the given cycle."),
"C13": ("A set of (absolute cycle) integers; `Advance` only moves the present.", "Two behaviours contradict the statement but are asserted by the repository's own unit tests; a repair would break the tests, so both are known findings, recognised by their exact input class (depth not a multiple of 64, an advance of 64 or more in several words); all other inputs stay judged."),
"C14": ("Arrays of raw element bytes per register; owners per data buffer.", ""),
"C15": ("A list of values, a number of reserved slots and tokens.", "FifoWithNotify callbacks while slots are reserved are not judged: the documentation leaves open whether a reserved slot counts as full."),
"C16": ("A graph of instructions with expected parent, children and next; an instruction must die exactly when nothing refers to it. Helpers are compared with plain C++ loops.", "Lists stay acyclic, as the reference counting documents. Signed overflow in helper functions is outside."),
"C17": ("A map from address to the last decoded instruction of the memory contents now; the decoder is a stand-in whose answers change on `Invalidate`.", ""),
"C18": ("Per address: the set of actions with enabled bits. The memory of the simulated program is a model that can refuse writes; the breakpoint instruction must be present exactly while some action is enabled.", "Actions added while the actions of the same address are performed may run now or in the next round (not documented). Destroying the breakpoint manager, or clearing all action points from inside an action, is not judged."),
"C19": ("A tree of names; values of counters and configuration entries; proto messages are built and read by field.", "A component has one parent at a time. Signed counter overflow is excluded."),
"C20": ("A byte array; vectors element by element. Every access is checked for the bytes of memory *and* the bytes of the buffer; with loads in flight also the time of delivery and the reference counts.", "Demand memory: sizes are multiples of the unit, its scalar loads beyond its range are not judged (undocumented)."),
"C21": ("Byte array plus a tag per granule.", "Tagged accesses are granule aligned, as documented."),
"C22": ("Byte array, set of linked granules.", "Linked accesses are naturally aligned, memory is byte addressable, as documented."),
"C23": ("A list of ranges; each access is looked up byte by byte. An access is delivered once, unchanged, to the target covering all its bytes, otherwise refused (stores dropped, loads left).", "Accesses that wrap around the address space, vectors that are entirely masked off and plain accesses that are inside a tagged target but straddle plain ones are not judged; nor are ranges with base equal to top."),
"C24": ("Sets of bytes with a watch each.", "Callbacks do not change the watches."),
"C25": ("A reference cache: sets of (tag, dirty, last use) lines and the counters.", "Not judged: accesses partly in a (non-)cacheable range, replacement among lines of the same age, overlapping ranges, overflow of size suffixes."),
"C26": ("A set of word indices.", "Accesses of more than 8 bytes are not profiled (documented)."),
"C27": ("`harness/binfmt.h` interprets the description: constraints are evaluated on the word directly. Where several encodings of a group match, any may be chosen.", "Contradictory equal constraints (some never match) and overlapping encodings may be refused by the generator. A group named like a format is refused by design (this was first reported as a violation: false alarm, the harness's names were changed)."),
"C28": ("`harness/binfmt.h` lists for every field or overlay the bits it is made of.", "`packed_struct` layout and overlays of formats of more than 64 bits (their generated code has never compiled upstream) are outside, as are fields of more than 64 bits. Overlays that use a bit twice are not inserted. Accessors the generator drops because derived formats disagree about a name are not judged (after the fixes they are dropped instead of being wrong)."),
"C29": ("Monitors in a fake simulator: calls must not overlap, each executed instruction is attributed to the active RenodeStep, CLIStep or CLIRun. A state without enabled thread is a deadlock, more than 3000 scheduling points a livelock. Accesses to the object are instrumented (`-fsanitize=thread` with the harness's own hooks) and checked with vector clocks; switching at synchronization operations and calls of the simulator is therefore sufficient.",
        "ReNode's loop of requests is fair: after two free requests it only continues when no other thread can. Not judged: halts while no command line is connected (ReNode then waits for one), a run that returns early because of a halt requested from another thread, steps whose call to the simulator fails after executing something, negative step counts."),
"C30": ("A map from id to (simulator, name length, callbacks); a stand-in simulator records every call and answers as chosen.", "Vector accesses of the bus, which the code reports as unsupported, negative ids and the name length of a second connection to a living instance are not judged; a stop at a watchpoint may be reported as Ok (as now) or as a watchpoint."),
"C31": ("Bytes, symbols and ranges as generated; every written byte is recorded with its memory and address.", "What is beyond the file bytes of a segment (bss) is not written by design; the memories start out filled. Functions that wrap around the address space, undefined symbols and truncated files are not generated. Whether the symbols of a file stay available after loading another one failed is open."),
"C32": ("A map from address to count; the text written is parsed.", "Segments are in order and aligned to the granularity (documented); samples in gaps between code segments may be listed or not."),
"C33": ("A reference server that predicts the reply and the new state of the core for every packet, or says that several are allowed.", "Numbers in forms other than plain hex digits (0x, signs, blanks), thread suffixes that were not announced, register values longer or shorter than the register and other unclear packets may get any one reply; only that there is one, and that the session stays in step, is checked then. Bytes above 127 are not sent inside packets (RE2 would treat them as UTF-8). The reply to vCont when a call of the core fails is not checked."),
"C34": ("A reference assembler for statements given as data (it never parses text), plus decoders of number lists and quoted strings.", "Data and instructions in .bss and line continuation of directives (the manual excludes them), values that fit only with the other signedness (`.short 0xffff`), empty lists, a comma at the end and undocumented escapes may be accepted or not. Base addresses are multiples of 4096, alignments at most 32 or 64. The binding of undefined symbols is not judged."),
}
