prop("C01", "Data buffers: exact ownership, size, contents and reuse",
 "A buffer obtained from the factory has exactly the size asked for, one reference and no memory of earlier use, and stays exclusively its holders' until the last reference is released: until then no other allocation returns it or overlaps it and its bytes change only by writes through it. Typed reads, writes and copies of any element size address exactly the same bytes and stop (rather than corrupt) at the end of the buffer. When the last reference goes, the buffer is returned exactly once, and clearing or destroying the factory frees everything exactly once.",
 ["histories", "inputs"], "for every history of allocate, copy, reference, release and clear operations over every mix of sizes, and every typed access",
 "Tests allocate a handful of buffers in one order; recycling, the size classes and reference counting interact only over longer histories.",
 [G+"data_buffer.h", G+"data_buffer.cc", G+"ref_count.h"],
 [("free lists by size, large buffers in a map", "DataBufferFactory::Allocate/Recycle/Clear"), ("reference counting", "ReferenceCount::IncRef/DecRef, DataBuffer::OnRefCountIsZero")],
 note="Every history up to the bound runs on the real factory under AddressSanitizer with per-run leak accounting; sizes cover both sides of the size-class limit. Trusts the sanitizer and the reference model.")

prop("C02", "Delay lines deliver every entry exactly once, in its cycle and in order",
 "An entry scheduled with latency n takes effect in exactly the n-th following advance, once, whatever the line's initial size, the latencies of the entries around it and how often the line had to grow, and entries due in the same cycle take effect in the order they were added. The number of pending entries that add and advance report, and emptiness, are always exact; an entry added while a cycle is being delivered is scheduled relative to that cycle. A data buffer submitted through a delay line keeps its reference until delivered to its destination and a submit with latency 0 is delivered at once.",
 ["histories", "configurations"], "for every sequence of add and advance operations, every latency and every initial size",
 "Tests use a few latencies in default-sized lines; growth with wrapped positions needs specific sequences.",
 [G+"delay_line.h", G+"function_delay_line.h", G+"data_buffer.h", G+"data_buffer.cc"],
 [("ring of slots grown on demand", "DelayLine::Add/Advance/Resize"), ("submit", "DataBuffer::Submit")],
 note="All operation sequences up to 6-9 steps (thorough 7-10) on the real delay lines, each drained completely, compared with a list of due times.")

prop("C03", "Immediate, literal and wrapper operands deliver their value in every type",
 "An operand made from a constant delivers, at every index and for every accessor type, the constant converted as C++ converts it between those types (sign or zero extension from its own type, then truncation), and its truth value as a boolean. A vector immediate delivers element i of its values at index i. Shape and text are those given (or derived from the value), and a wrapper operand gives back exactly the wrapped object.",
 ["inputs", "configurations"], "for every constant, element type, accessor and constructor",
 "Tests check one or two constants per type.",
 [G+"immediate_operand.h", G+"literal_operand.h", G+"wrapper_operand.h", G+"operand_interface.h"],
 [("per-type accessors", "ImmediateOperand/VectorImmediateOperand::As*"), ("compile-time literals", "IntLiteralOperand, BoolLiteralOperand")],
 note="All values of the 8 and 16 bit types and all two-bit combinations of the 32 and 64 bit types, through every accessor of the real operands.")

prop("C04", "Program errors: raised errors are reported exactly, by mask, until cleared",
 "After any history of registering, masking, unmasking, raising and clearing program errors the controller reports exactly the errors raised and not yet cleared, with their messages in order: as masked errors those whose mask is set now, as unmasked errors the others. Registering a name twice is refused, names never registered are unknown, and using an unknown name raises the controller's internal error instead of being lost. Clearing one error affects no other, and clearing all leaves none.",
 ["histories"], "for every history of controller and handle operations over registered, unregistered and internal names",
 "Tests check single transitions; the masked and unmasked sets only diverge from the truth after masking changes around raises and clears.",
 [G+"program_error.h", G+"program_error.cc"],
 [("two active sets by mask", "ProgramErrorController::Raise/Clear/Mask/Unmask"), ("handles", "ProgramError")],
 note="Every history of 4 (thorough 5) operations, and of 6 (7) with state matching, on the real controller; all queries compared after every step.")

prop("C05", "Status registers show live conditions; state items report their geometry",
 "Reading a status register returns a word whose bit i is the value at that moment of the condition currently bound to position i, and 0 for an unbound position, for every register width; a masked read evaluates and returns exactly the selected bits. Operands on the register deliver that word in every type. Writing it changes nothing and leaves the written buffer's references balanced; a state item's size is the product of its shape and element size.",
 ["histories", "inputs", "configurations"], "for every combination of conditions, masks, widths and rebinding histories",
 "Tests read a few bit patterns from one width.",
 [G+"status_register.h", G+"state_item_base.h", G+"state_item_base.cc", G+"state_item.h"],
 [("per-bit evaluation", "StatusRegisterBase::Read"), ("ignored writes", "StatusRegisterBase::SetDataBuffer")],
 note="8 bit registers: all condition vectors, masks and 4 binding sets; wider ones: all pairs and runs of bits; histories of 4 (5) steps.")

prop("C06", "Bit field extraction packs exactly the selected bits, in order",
 "For every 64 bit mask and value, extracting by the recipe made from the mask yields the value's bits at the mask's positions packed towards bit 0 in their order, and zero elsewhere. The source code generated for the recipe computes the same result in the variables and with the indentation asked for.",
 ["inputs"], "for every mask and value",
 "Tests try a few masks; runs ending at bit 63, several runs and gaps each take other paths.",
 [D+"extract.h", D+"extract.cc"],
 [("shift/mask recipe", "GetExtractionRecipe, ExtractValue"), ("generated code", "WriteExtraction")],
 note="Every 16 bit mask at every offset and every mask of one or two runs in 64 bits (and complements); per mask all single-bit values and 7 patterns; the generated text is run by an interpreter of a C subset.")

prop("C07", "Names in generated code are derived uniformly and reversibly",
 "Conversion to Pascal case removes underscores and capitalises the character after each (and the first), leaving all else; conversion to snake case puts an underscore before each capital that is not first and lowers it; guards replace '/' and '.' by '_' and capitalise; lowering and indentation preserve the length. For canonical names the snake and Pascal conversions are inverse to each other, so distinct names stay distinct.",
 ["inputs"], "for every name",
 "There is no test of these functions; they are only used through the generators.",
 [D+"format_name.h", D+"format_name.cc"],
 [("conversion functions", "ToPascalCase, ToSnakeCase, ToHeaderGuard, ToLowerCase, Indent")],
 note="All strings of up to 6 (7) characters over 11 character classes, all ASCII pairs, all subviews of a path.")

prop("C08", "The decoder resource registry: one resource per name, attributes kept",
 "Creating a resource whose name exists is refused with an already-exists error and changes nothing; looking up or inserting a name always returns the one resource of that name. Attributes keep the values last set, a new resource is simple, not multi-valued and no array, and the registry lists exactly the resources made, ordered by name, with their names in both spellings.",
 ["histories"], "for every history of create, look up and attribute changes over any set of names",
 "Tests make one or two resources.",
 [D+"resource.h", D+"resource.cc"],
 [("name map", "ResourceFactory::CreateResource/GetOrInsertResource")],
 note="All histories of 4 (5) operations over 6 names and of 6 (8) over 2 names, leak accounting on.")

prop("C09", "Template expressions: instantiation is substitution, errors propagate",
 "A template expression without parameters has the value integer arithmetic gives it, or an error if a division by zero or a failing function is involved; one with parameters has no value and is not constant. Instantiating an expression with argument expressions gives a new expression equal to the original with the arguments substituted, also in several levels, fails if an argument is missing, and never changes or shares structure with the expression, its copies or the arguments. Errors are returned as errors, never as values, crashes or leaks.",
 ["programs", "inputs"], "for every expression tree and argument list",
 "Tests evaluate one operator at a time with constants; nested errors, two-level instantiation and ownership are not reached.",
 [D+"template_expression.h", D+"template_expression.cc"],
 [("recursive evaluation with constant folding", "TemplateExpression::Evaluate/GetValue/IsConstant/DeepCopy")],
 technique="bounded exhaustive enumeration of expression trees against a substitution model, on the real code",
 note="All trees of up to 2 operators over 5 constants and 3 parameters with 6 argument lists, and of up to 3 operators with fewer leaves (more in the thorough tier), under AddressSanitizer with leak accounting. int overflow is outside the property.")

prop("C10", "FP classification and half conversion are exact for every bit pattern",
 "For half, single and double precision values, given as floating point or as integers of that size, infinity, NaN, signalling and quiet NaN and sign are recognised exactly by the IEEE 754 bit pattern, and the format constants agree with it. Converting a half precision value to single precision preserves the numeric value exactly, including subnormals, signed zeros, infinities and NaN-ness with sign. The wide, narrow, signed and unsigned companion types have the width and signedness their name says.",
 ["inputs"], "for every bit pattern of each format",
 "Tests check a few values; subnormals and NaN encodings are sparse in the input space.",
 [G+"type_helpers.h", G+"signed_type.h"],
 [("bit masks per format", "FPTypeInfo"), ("conversion", "ConvertHalfToSingle")],
 technique="exhaustive enumeration of bit patterns against IEEE 754 arithmetic, on the real code",
 note="All 65536 halves; singles: all sign/exponents with 12288 significands (thorough: all 2^32); doubles: all sign/exponents with all significands of up to two set or clear bits and all runs.")

prop("C11", "Socket streams pass every character once, in order, under I/O faults",
 "Characters written to a socket stream reach the peer once and in order, a line feed as carriage return plus line feed, even if the system accepts only part of a write; a failed write is reported by the stream and nothing after it is claimed to be written. Reading delivers the peer's bytes in order, dropping each carriage return in favour of the byte after it, and reports the end of the stream at close or error without inventing characters. The descriptor is closed exactly once.",
 ["inputs", "fault_sequences"], "for every byte sequence, access style and position of a failing or short system call",
 "The only tests of this code are compile checks; real sockets do not fail on demand.",
 ["mpact/sim/util/renode/socket_streambuf.h"],
 [("unbuffered underflow/overflow", "SocketStreambuf")],
 technique="exhaustive enumeration of inputs and system call answers (link-time fault injection) on the real code",
 note="All byte strings of up to 4 written / 5 read bytes over 5 byte classes, 3 access styles, every position of one failing or short call; all interleavings of 6 reads and writes.")

prop("C12", "Simple resources are free exactly when not acquired, in sets and pools",
 "A resource bit set contains exactly the members set and not cleared, through union, intersection, difference, copying and resizing, for any number of resources, and enumerates them in order. Acquiring a single resource, a resource set or an operand reserves exactly its members and releasing frees exactly them: at any time a resource or set is free if and only if none of its members is reserved. A pool hands out one resource per name and refuses more resources than its width. An operand acquires and releases its set after exactly its latencies; nothing is read or written out of bounds.",
 ["histories", "configurations"], "for every history of set, clear, acquire, release and clock operations, every set of resources and every pool width",
 "Tests use a few low-numbered resources; word boundaries and overlapping holders need particular combinations.",
 [G+"resource_bitset.h", G+"resource_bitset.cc", G+"simple_resource.h", G+"simple_resource.cc", G+"simple_resource_operand.h", G+"simple_resource_operand.cc"],
 [("word array", "ResourceBitSet"), ("bit set of reserved resources", "SimpleResourcePool, SimpleResourceSet"), ("delayed release", "SimpleResourceDestinationOperand, SimpleResourceSourceOperand")],
 note="All histories of 4 (5) bit set and 5 (6) pool operations around word boundaries, all pairs of sets over 4 resources in pools wider than a word, 6 (7) operand and cycle steps, against sets of integers, under AddressSanitizer.")

prop("C13", "Complex resources reserve exactly the requested future cycles",
 "A complex resource tracks reservations per cycle in a window that moves with the simulation's clock: a request for a mask of cycles is free exactly when none of them, counted from the current cycle, is reserved; acquiring reserves exactly the mask and releasing frees exactly the mask, and as the clock advances reservations come nearer and expire, whatever the steps. A complex resource operand accepts every mask within the window and uses exactly that mask; one reaching beyond it is refused and leaves the operand as it was.",
 ["histories", "configurations"], "for every history of acquire, release and clock steps, every depth and mask",
 "Tests use one or two masks and distances; carries between words need masks across word boundaries.",
 [G+"complex_resource.h", G+"complex_resource.cc", G+"complex_resource_operand.h", G+"complex_resource_operand.cc"],
 [("shifting window", "ComplexResource::Advance"), ("masks", "ComplexResourceOperand::SetCycleMask")],
 note="All histories of 4 (5) steps in windows of 1-3 words, every depth to 140 (260), every single advance in windows of 1-4 words, all pairs of mask settings. Two known findings (depth not a multiple of 64; advance of 64 or more) are enshrined in the repository's tests and recorded, not repaired.")

prop("C14", "Registers and their operands: every write lands once, on time, exactly",
 "A register delivers through its source operand, in every type and at every index, the value last written, extended from the register's own element type. A destination operand's buffer has the register's size, a copy has its present contents, and submitting it makes its contents the register's value after exactly the operand's latency, writes with equal due time in submit order. A reserved register holds its resource exactly from acquisition to the write; a control register calls its update function with exactly the written buffer instead of storing it. Buffers moved between registers keep exact reference counts, and writes to the null operand vanish without effect.",
 ["histories", "inputs", "configurations"], "for every register type and shape, value, and history of writes, clock steps and updates",
 "Tests read a few values from a few types.",
 [G+"register.h", G+"register.cc", G+"control_register.h", G+"control_register.cc", G+"devnull_operand.h", G+"arch_state.h", G+"state_item.h"],
 [("typed access", "RegisterSourceOperand"), ("buffer replacement", "RegisterBase::SetDataBuffer"), ("delay line write-back", "DataBuffer::Submit, ArchState::AdvanceDelayLines")],
 note="12 register types with 1024 values per element through all accessors; all histories of 5 (6) steps on a plain, a reserved and a control register; all ways to move 3 buffers among 3 registers in 4 (5) writes; leak accounting on.")

prop("C15", "Fifos keep order and capacity; tokens and notifications are exact",
 "A fifo delivers elements in the order pushed, each once. A push is accepted exactly while elements and reserved slots are below the capacity, uses up a reservation if there is one, and otherwise raises the overflow error and changes no reference; reading or popping an empty fifo raises the underflow error and changes nothing. Size, fullness and oversubscription are always exact. Fifos sharing a token store together never hold more elements than it has tokens; each element holds one token until popped. Callbacks on becoming empty and not empty are made exactly at those changes. The depth can be configured by import.",
 ["histories", "configurations"], "for every history of pushes, pops, reservations, delayed writes and clock steps, every capacity and number of tokens",
 "Tests fill and empty a fifo once; refused operations mixed with reservations and shared tokens are not reached.",
 [G+"fifo.h", G+"fifo.cc", G+"token_fifo.h", G+"token_fifo.cc", G+"fifo_with_notify.h"],
 [("bounded queue", "FifoBase::Push/Pop/Reserve"), ("token counting", "FifoTokenStore, TokenFifo"), ("callbacks", "FifoWithNotify")],
 note="Capacities 0-3: all histories of 6 (7) steps; two fifos on 1-3 tokens: 7 (8) steps; notification with callbacks that push or pop: 8 (9) steps. Callbacks while slots are reserved are not judged.")

prop("C16", "Instructions: ownership tree, operands, execution and helpers are exact",
 "An instruction lives exactly as long as something refers to it: the user, the instruction it follows or its parent; when it goes its operands, predicate and attributes are destroyed once and its followers and children are released, none of which still points to it. Lists keep the order of appending. Execution calls the semantic function with the instruction and gives it the context only for that call. The semantic helpers read each source in its declared type and element, apply the function and write the result to the destination, for scalars and for every element of vectors.",
 ["histories", "inputs"], "for every way of linking, referencing and releasing instructions, every operand count and every operand type and value",
 "Tests build one small tree and release it in one order.",
 [G+"instruction.h", G+"instruction.cc", G+"instruction_helpers.h"],
 [("reference counted list and tree", "Instruction::Append/AppendChild/~Instruction"), ("typed helpers", "UnaryOp, BinaryOp, *VectorOp")],
 note="Five instructions: all sequences of 6 (7) link, reference and release steps with state matching, then released in both orders; all operand counts up to 3; 13 helpers over 10 types with all combinations of 7-8 values.")

prop("C17", "The decode cache returns the current instruction for every address",
 "Asking the decode cache for an address always returns the instruction decoded for exactly that address, decoding it at most once until it is invalidated or displaced, and never one decoded before an invalidation of the address. Invalidating an address, a range or everything affects exactly the instructions there, including ranges that are unaligned, empty, larger than the cache or at the ends of the address space. Instructions the cache no longer holds are released exactly once, held ones stay alive. A cache has the number of entries asked for, rounded up to a power of two, and an invalid pc increment is refused.",
 ["histories", "configurations", "inputs"], "for every history of lookups and invalidations, every cache geometry and all addresses",
 "Tests look up one page of addresses in order.",
 [G+"decode_cache.h", G+"decode_cache.cc"],
 [("direct mapped entries", "DecodeCache::GetDecodedInstruction"), ("invalidation", "Invalidate, InvalidateRange, InvalidateAll")],
 note="5 geometries: all histories of 3 (4) operations over 4-6 addresses and 4-8 range bounds; 2 entries: 5 (6) operations; every range of 20 (34) bounds for 4 increments and 4 sizes; 135 geometries.")

prop("C18", "Breakpoints are in memory exactly while an enabled action wants them",
 "A breakpoint instruction is in memory at an address exactly while at least one enabled action exists there, through every history of setting, clearing, enabling and disabling actions, and a change that memory refuses is reported and leaves everything as it was. Performing an address runs exactly its enabled actions, once each and in the order set, also if an action clears or disables itself or others meanwhile. Existence and enabled state are always reported exactly; ids are never reused while alive. A breakpoint halts exactly when reached while enabled, and setting one twice or changing one that does not exist is refused.",
 ["histories", "fault_sequences"], "for every history of action and breakpoint operations, every behaviour of actions and every refused memory write",
 "Tests use a memory that never fails and actions that do nothing.",
 [G+"action_point_manager_base.h", G+"action_point_manager_base.cc", G+"breakpoint_manager.h", G+"breakpoint_manager.cc"],
 [("per-address action list and enabled count", "ActionPointManagerBase"), ("halt action", "BreakpointManager")],
 note="All histories of the bounded number of operations over 3 addresses (including the ends of the address space), every combination of refused writes, 7 behaviours of an action.")

prop("C19", "Component tree, configuration, counters and their transfer are exact",
 "A component finds by name exactly the children, counters and configuration entries added and not removed; duplicate names are refused without effect, and a removed component has no parent. A configuration entry holds the last value set or imported, in its own type, says whether it has a value and calls its listeners on each write; counters count every increment while enabled and none while disabled, with listeners called with the current value. Exporting writes every named counter and entry once, with its type and value, and importing gives each entry the value addressed to it and leaves the others; both descend the tree. Architectural state returns for each name the register or fifo added under it.",
 ["histories", "inputs", "configurations"], "for every history of add, remove, set, count, export and import operations and all value types",
 "Tests build one tree of each kind and transfer it once.",
 [G+"component.h", G+"component.cc", G+"config.h", G+"counters.h", G+"counters_base.h", G+"arch_state.h", G+"arch_state.cc"],
 [("name maps", "Component::Add*/Remove*/Get*"), ("typed values", "Config, SimpleCounter, FunctionCounter"), ("proto transfer", "Component::Export/Import"), ("registers by name", "ArchState")],
 note="All tree histories over 2 roots, 4 components, 5 counters and 4 entries up to the bound; all pairs of type and imported type; all histories of counter operations; trees with duplicates and unknown names transferred both ways.")

prop("C20", "Flat and demand memories: every access reads and writes exactly its bytes",
 "A load delivers the bytes last stored at its addresses, or the fill value, and a store changes exactly the bytes addressed, for every size, position, base and unit of the memory; vector loads and stores do so for each element that is not masked off, with one address per element or consecutive elements from one address, and leave masked elements alone. The memory is there for exactly the range given: accesses beyond it are fatal in a flat memory, also far beyond. The instruction of a load is executed once, with its context, after exactly the latency of the buffer, and it, the context and the buffer are kept alive until then and released after.",
 ["inputs", "histories", "configurations"], "for every address, size, mask, unit, range and history of loads and stores",
 "Tests use a handful of sizes at aligned addresses of byte addressed memories.",
 [M+"flat_memory.h", M+"flat_memory.cc", M+"flat_demand_memory.h", M+"flat_demand_memory.cc", M+"memory_interface.h"],
 [("range checks", "FlatMemory::Load/Store"), ("lazily allocated blocks", "FlatDemandMemory::LoadStoreHelper"), ("load completion", "FinishLoad")],
 note="Memories with units of 1, 2, 4 and 8 bytes at several bases, across block bounds and at the end of the address space: every single access of every size, gather, scatter and unit stride vectors with all masks; all histories of 3 (4) accesses; every access around the ends; all histories of loads in flight. Demand memory: accesses are multiples of the unit; out of range scalar loads are not judged.")

prop("C21", "Tagged memory: tags follow their granules exactly",
 "Each granule has a tag, zero at first. A tagged store sets data and tags, a tag only store only tags; a tagged load returns both, a tag only load the tags. Any store without tags clears the tags of exactly the granules it touches, and leaves all others, also for vector stores with masks. Untagged accesses see the same data. A tagged store that is not aligned to the granule, or whose number of tags does not fit its data, is refused without effect. Through the transactor to untagged memory the data pass unchanged and tags read as zero. Instructions of loads are executed once, after the latency.",
 ["inputs", "histories", "configurations"], "for every address, size, mask, granule, unit and history of tagged and untagged accesses",
 "Tests set and read the tags of one aligned block.",
 [M+"tagged_flat_demand_memory.h", M+"tagged_flat_demand_memory.cc", M+"tagged_to_untagged_memory_transactor.h", M+"tagged_to_untagged_memory_transactor.cc", M+"tagged_memory_interface.h"],
 [("tag memory", "TaggedFlatDemandMemory::ClearTags, Load, Store"), ("adapter", "TaggedToUntaggedMemoryTransactor")],
 note="Granules of 4 to 32 bytes, units of 1 to 4: every single tagged, tag only, plain and vector access over 4 granules; memories ending in the middle of a granule; all histories of 3 (4) accesses, direct and through the transactor; loads in flight.")

prop("C22", "Atomic memory: read-modify-write and load links are exact",
 "An atomic operation returns the old value and stores the result of its operation on the old value and the operand, in the access's size, signed or unsigned as named, and nothing else changes. A conditional store succeeds, reported as 0, exactly if the granule was linked by a load link and nothing was stored to any byte of it since, by a plain, vector, tagged, conditional or atomic store; otherwise it reports failure and changes nothing. Links of other granules are unaffected. Plain and tagged accesses pass through unchanged. Operations of unsupported sizes are refused without effect.",
 ["inputs", "histories"], "for every operation, size, position and value, and every history of links, conditional stores and other accesses",
 "Tests link one address and store to it once.",
 [M+"atomic_memory.h", M+"atomic_memory.cc", M+"atomic_tagged_memory.h", M+"atomic_tagged_memory.cc"],
 [("link set", "AtomicMemory::ll_tag_set_"), ("operations", "PerformMemoryOp")],
 note="Both atomic memories: 10 operations x 4 sizes x every position in 16 bytes x all pairs of 16 values; illegal sizes; all histories of 4 (5) of 15-17 operations over three granules. Linked accesses are naturally aligned.")

prop("C23", "The router delivers each access to exactly the one target that covers it",
 "An access whose bytes all lie in the range of one target reaches exactly that target, once and with unchanged arguments; one that only partly lies in a range reaches none; one that touches no range goes to the default target, if there is one. Plain and vector accesses are served by plain and tagged targets (plain first), tagged accesses, with or without data, by tagged targets only, atomic operations by atomic targets only, whose status is returned, or not found. A vector access reaches a target exactly if all its elements that are not masked off do. Ranges that are reversed or overlap another of the same kind are refused. The named router gives each name one initiator, refuses duplicate target names and mappings of unknown names, and frees what it made.",
 ["configurations", "inputs", "histories"], "for every set of ranges and defaults, every access and every history of naming and mapping",
 "Tests map a few distant ranges and access their middles.",
 [M+"single_initiator_router.h", M+"single_initiator_router.cc", M+"memory_router.h", M+"memory_router.cc"],
 [("range maps", "SingleInitiatorRouter::AddTarget, Load, Store, PerformMemoryOp"), ("named routing", "MemoryRouter::AddMapping")],
 note="All sequences of up to 3 targets of every kind on every union of adjacent 4-byte blocks of 12-20 bytes, at the start, middle and end of the address space, with sets of default targets; each with all accesses of all kinds and sizes at all addresses; all histories of 4 (5), and 7 (9) with state matching, of the named router.")

prop("C24", "Memory watchers call exactly the watches an access touches",
 "Each load, and each element of a vector load that is not masked off, calls the callback of every load watch whose range it overlaps, once, with its address and size, before it is passed on; each store those of the store watches, after it was passed on. No other callbacks are called, and every access reaches the memory once with unchanged arguments; accesses of only tags call none. A watch that is reversed or overlaps one of its kind is refused; clearing removes exactly the watch that contains the address, or is refused.",
 ["histories", "inputs"], "for every set of watched ranges and every access",
 "Tests watch one range and access inside and outside of it.",
 [M+"memory_watcher.h", M+"memory_watcher.cc", M+"tagged_memory_watcher.h", M+"tagged_memory_watcher.cc"],
 [("range multimap", "ld_watch_actions_, st_watch_actions_"), ("calls around the access", "MemoryWatcher::Load/Store")],
 note="Both watchers: all histories of 2 (3) settings and clearings over all ranges of 6 bounds, at the ends and the middle of the address space, with all accesses at all addresses; all sets of disjoint ranges in 5 (6) bytes with all sequences of clearings.")

prop("C25", "The cache is transparent and its counters are exact",
 "Every access through the cache reaches the memory once with unchanged arguments, so that data and tags are those of the memory, and the instruction of a load is executed once, with its context, the buffer's latency after the memory has answered; nothing is leaked and the buffer keeps its latency. The counters tell exactly, block by block, the hits, misses, write-arounds, non-cacheable accesses and replaced dirty lines of a cache with the configured size, line size, associativity, write allocation and ranges that replaces the least recently used line. A configuration that is not valid is refused and leaves the cache as it was.",
 ["histories", "configurations", "inputs"], "for every configuration, history of accesses, and order in which memory answers",
 "Tests count hits of a few sequential sweeps.",
 [M+"cache.h", M+"cache.cc"],
 [("lookup and replacement", "Cache::CacheLookup, ReplaceBlock"), ("load completion", "Cache::LoadChild"), ("configuration string", "Cache::Configure")],
 note="7 geometries: all histories of 5 (6) of 12 accesses; with ties in age; all pairs of accesses of 8 kinds over 6 geometries and 5 ways of attaching memory; all pairs (triples) of 44 configurations; all histories with loads in flight answered in any order.")

prop("C26", "The memory use profile lists exactly the words that were accessed",
 "While enabled, a profiler records every word touched by an access of up to 8 bytes, including elements of vectors that are not masked off and words reached by unaligned accesses; while disabled it records nothing. The profile lists the recorded words as maximal ranges in ascending order, each once with its size, wherever they lie. Every access is passed on once with unchanged arguments, if there is a memory.",
 ["histories", "inputs"], "for every set of accessed words and every access",
 "The profilers have no tests.",
 [M+"memory_use_profiler.h", M+"memory_use_profiler.cc"],
 [("bit map per segment", "MemoryUseTracker::MarkUsed"), ("ranges", "MemoryUseTracker::WriteUseProfile")],
 note="Both profilers: all pairs of accesses around four bounds of segments; all histories of 5 (6) of 10 steps; all sets of used words among 17 (20) in a row at 4 places.")

prop("C27", "Generated binary decoders decode every word to the matching encoding",
 "The decoder the generator emits for a valid .bin_fmt description maps every instruction word to an encoding of the group all of whose constraints hold for the word (a specialization if one holds, otherwise its parent), reporting the format that encoding was declared with, and to the 'none' opcode exactly if no encoding matches. This holds for all constraint kinds (==, !=, <, <=, >, >=, field against field), on fields, signed fields and overlays with constant bits, for any number of groups, merged groups, derived formats, GENERATE loops and field widths up to 64 bits. Descriptions that contradict themselves are refused with an error rather than accepted, and valid ones are not refused.",
 ["programs", "inputs"], "for every valid description and every instruction word",
 "The decoders the upstream tests generate are a handful, and the generator's output for other combinations of constraints is never compiled or run.",
 [D+f for f in ("bin_format_visitor.h", "bin_format_visitor.cc", "bin_encoding_info.h", "bin_encoding_info.cc", "encoding_group.h", "encoding_group.cc", "instruction_encoding.h", "instruction_encoding.cc", "instruction_group.h", "instruction_group.cc", "bin_decoder.h", "bin_decoder.cc", "format.h", "format.cc", "overlay.h", "overlay.cc", "extract.h", "extract.cc", "BinFormat.g4")],
 [("grouping by discriminator bits and table/if decoders", "EncodingGroup::AddSubGroups/EmitDecoders"), ("constraints", "InstructionEncoding::AddEqualConstraint/AddOtherConstraint"), ("groups and merging", "BinFormatVisitor/InstructionGroup")],
 technique="bounded exhaustive enumeration of decoder descriptions; the real generator's output is compiled and run on every word against a reference model",
 note="About 14000 (thorough 54000) descriptions in 7 families; every 8-bit word, and for wide formats all words made of boundary values of the fields. The generator runs through a small ANTLR runtime written for this work (see DESIGN.md).")

prop("C28", "Generated extractors and inserters are exact inverses on their bits",
 "For every field and overlay of a format, the extractor the generator emits returns exactly the bits the description assigns to it, sign-extended if it is signed, from an integer word and from a byte array alike, including constant bits of overlays, fields of base formats and each instance of replicated formats; the inserter changes exactly the bits of its field to those of the value, ignoring excess bits of the value, and leaves all others. Extracting what was inserted gives the value back.",
 ["programs", "inputs"], "for every format description, every word and every value",
 "The upstream tests compare small parts of the generated text and never run it.",
 [D+f for f in ("format.h", "format.cc", "overlay.h", "overlay.cc", "extract.h", "extract.cc", "bin_format_visitor.h", "bin_format_visitor.cc", "bin_encoding_info.h", "bin_encoding_info.cc", "BinFormat.g4")] + ["mpact/sim/generic/type_helpers.h"],
 [("field access", "Format::GenerateFieldExtractor/GenerateFieldInserter"), ("overlays", "Overlay::WriteSimpleValueExtractor/WriteComplexValueExtractor, Format::GenerateOverlayInserter"), ("promotion to base formats", "Format::PropagateExtractorsUp")],
 technique="bounded exhaustive enumeration of format descriptions; the real generator's output is compiled and run on every word or boundary words against a reference model",
 note="All splits of small formats into fields, formats up to 128 bits with fields at boundary positions, overlays over up to 3 parts, nested, replicated and derived formats; packed_struct layouts and overlays of formats wider than 64 bits are outside.")

RN = "mpact/sim/util/renode/"
prop("C29", "ReNode and a command line share the simulator: exact control and steps",
 "When a ReNode thread and a command line thread drive one simulator through RenodeCLITop, under every schedule: at most one of them uses the simulator at a time; the command line uses it, and instructions are executed, only while ReNode waits for steps it requested; while the command line is connected and has the simulator halted nothing executes except what it steps or runs. RenodeStep(n) returns the exact number of instructions executed by both during the call, which is n unless the program ends; CLIStep(n) returns the number it executed, n unless something halted the program; CLIRun returns when something did. A breakpoint hands control to the command line and a later run or step gives it back. After the program has ended nothing executes and no call hangs. Nobody deadlocks while ReNode keeps asking for steps and the command line does not stay halted. Requests are forwarded unchanged, with their answers.",
 ["schedules", "histories"], "for every interleaving of the threads, every script of commands and every program that halts or ends anywhere",
 "The class has no tests; its defects need a halt or the end of the program at a particular point of a quantum, or a particular interleaving.",
 [RN+"renode_cli_top.h", RN+"renode_cli_top.cc", RN+"cli_forwarder.h", RN+"cli_forwarder.cc"],
 [("who has control", "RenodeCLITop::DoWhenInControl, conditions in RenodeStep/CLIStep/CLIRun"), ("step accounting", "RenodeCLITop::RenodeStep/CLIStep"), ("connection", "RenodeCLITop::SetConnected")],
 technique="exhaustive exploration of thread schedules of the real code under a controlled scheduler, with data race detection",
 note="Two or three threads as fibers under a controlled scheduler with a stand-in for absl::Mutex: all scripts of 2, 3 and 4 commands with at most 3, 2 and 1 preemptions (thorough: unbounded, 3, 2), 1-3 step quanta, programs with up to two breakpoints, halts from inside, failing steps and ends at every position; a third thread requesting halts. Data races on the object are violations.")

prop("C30", "The C interface to ReNode: instances, stepping, images and bus are exact",
 "Construct returns an unused non-negative id, connect the id given; a simulator is made exactly when the id has none, and lives until destruct of that id. A request for an id reaches exactly the simulator living under it, with unchanged arguments, results and the name length given when it was made; requests for other ids fail, as do refused ones, without other effect. A bus access of the simulator goes to the callbacks its instance has (a later connect only fills in missing ones): a store passes its bytes once, a load gets the callback's bytes (zeros without one) and executes its instruction once, after the latency. step(n) returns exactly the number of instructions executed, for every 64 bit n, never more than n, and fewer only if the simulator stopped; the status is that of the reason it stopped for; after a stop or a semihosting exit nothing is executed. load_image writes exactly the bytes of the file at its address, and fails if it cannot be read or written. Optional out parameters may be null.",
 ["histories", "inputs"], "for every history of constructions, connections and destructions and every answer of the simulator and the bus",
 "The C interface has no tests; its defects need a reused id, a count beyond 32 bits, a stop in a later part of a step, or a short write.",
 [RN+"renode_mpact.h", RN+"renode_mpact.cc", RN+"renode_memory_access.h", RN+"renode_memory_access.cc", RN+"renode_debug_interface.h"],
 [("instances", "RenodeAgent::Construct/Connect/Destroy"), ("stepping", "RenodeAgent::Step"), ("images", "RenodeAgent::LoadImage"), ("bus", "RenodeMemoryAccess::Load/Store/FinishLoad")],
 note="All histories of 4 (thorough 5) constructions, connections and destructions with every subset of callbacks and failing factories over at least 3 ids, everything the interface says about every id checked after each; 2 (3) step calls of 12 sizes up to 2^33 with every outcome of every part; every forwarded request granted and refused; images of 11 sizes around the buffer size with every write failing or short; 3 (4) bus accesses and changes of callbacks.")

L = "mpact/sim/util/program_loader/"
prop("C31", "The ELF loader: segments, entry, stack size and symbols as in the file",
 "LoadProgram writes exactly the file bytes of every loadable segment, once, at its physical address (the virtual one if that is 0): executable segments to the code memory, others to the data memory; with descriptors to the first memory whose predicate accepts the segment, at the address its function gives; or through the debug interface, whose failed or short writes fail the load. LoadSymbols writes nothing. Both return the entry point. After a load, a symbol is found by name exactly if the file has it, with its value and size; a function by its start address exactly if a function symbol has that value; an address in the range (size divided by the text scale) of one or more functions, also overlapping ones, gives the name of one of them, any other address none. The stack size is that of the file's GNU stack segment if not 0. After another load, everything is that of the new file. Missing and malformed files are errors and write nothing.",
 ["inputs", "histories"], "for every arrangement of segments and symbols and every history of loads",
 "The tests load two fixed executables; the defects need overlapping, nested or sizeless functions, or a second load.",
 [L+"elf_program_loader.h", L+"elf_program_loader.cc", L+"program_loader_interface.h"],
 [("segments", "ElfProgramLoader::LoadProgram"), ("symbols", "ElfProgramLoader::LoadSymbols/GetSymbol/GetFcnSymbolName/GetFunctionName")],
 note="Generated ELF files, 32 and 64 bit: 1-2 (thorough 3) segments of 4 types, 3 protections, 3 sizes with and without bss and 3 kinds of addresses, into 8 kinds of destinations including failing ones; all symbol tables of up to 3 (4) symbols over 4 values and 4 sizes, every address around them queried; all sequences of 4 (5) loads over 5 files. ELFIO, which is not installed, is replaced by a small reader of the same files (`shim/elfio`); the upstream loader test passes with it on its real executables (`tools/upstream_tests.sh`).")
prop("C32", "The instruction profiler counts exactly the executed addresses",
 "The profile written lists exactly the addresses (rounded down to the granularity) in executable loaded segments of the program that were sampled, in ascending order, each once with the number of its samples, for every arrangement of segments; samples outside the program, or made before the program is known, are not listed and disturb nothing.",
 ["inputs", "histories"], "for every arrangement of segments and sequence of samples",
 "The class has no tests; its defects sit at the ends of ranges, between coalesced segments and in programs with several ranges.",
 ["mpact/sim/util/other/instruction_profiler.h", "mpact/sim/util/other/instruction_profiler.cc"],
 [("ranges", "InstructionProfiler::SetElfLoader"), ("counting", "InstructionProfiler::SetValue/AddSampleInternal"), ("output", "InstructionProfiler::WriteProfile")],
 note="Generated programs of 1-3 segments (code, writable code, data, not loaded), 3 sizes, 6 gaps around the distance at which ranges are coalesced, 3 starts, granularities 1, 2, 4, program known before or after the profiler is made; all sequences of 4, 2, 1 (thorough 6, 4, 3) samples over all boundaries of the segments.")

GD = "mpact/sim/util/gdbserver/"
prop("C33", "The gdb server: every packet is answered exactly once, with exactly its effect",
 "In a session with a gdb client, in every mode, every packet with a right checksum is acknowledged once (unless acknowledgements are off) and answered by exactly one well-formed packet, whose special characters are escaped; a corrupted one is rejected (a minus, or an error without acknowledgements) and has no effect. A reply that the client rejects is repeated unchanged, up to five times in all. Memory and register commands read and write exactly the bytes named, in any mode, with or without thread suffix; malformed, incomplete or out of range ones are errors without effect; commands that are not supported get an empty reply. Continue and step run or step the core exactly once, the leftmost matching action of vCont applying, and report the reason for the halt and the pc; after the program is done they report W00. Breakpoints are set and cleared exactly. The target description can be read in any pieces. A connection that ends, fails or sends something else anywhere ends the session, without effect of the incomplete packet; every descriptor is closed exactly once and further connections start afresh. No input makes the server crash, hang or touch other memory.",
 ["inputs", "histories", "fault_sequences"], "for every packet, also malformed ones, every history of packets and every point where the connection breaks",
 "The tests send twelve well-formed packets; clients, and networks, send others: gdb's own vCont for a step was rejected, and a long or malformed packet corrupted memory.",
 [GD+"gdbserver.h", GD+"gdbserver.cc"],
 [("framing", "GdbServer::Connect/Respond/AcceptGdbCommand, GdbSocketStreambuf"), ("commands", "GdbServer::ParseGdbCommand"), ("run control", "GdbServer::GdbContinue/GdbStep/GdbVContinue/GetHaltReason"), ("life of the connection", "GdbServer::Connect/Terminate")],
 note="Virtual sockets; the server runs on a fiber and the explorer is the client: all sequences of 2 (thorough 3) of 92 commands in every mode, all sequences of 2 (3) run control commands for all reasons to halt, every single-character edit of 21 packets, every packet of 1-4 (6) characters over 8 characters, 8 kinds of corruption and 0-5 rejections of the reply, the end of the connection at every byte, packets up to 128 KiB, up to 3 connections with every set-up call failing, every call of the core failing. Watchpoints cannot be set through this server. RE2, which is not installed, is replaced by a backtracking matcher (`shim/re2`); the upstream test passes with it.")

AS = "mpact/sim/util/asm/"
prop("C34", "The assembler: bytes, symbols and relocations of the source, or an error",
 "A program of labels, instructions and the documented directives is assembled into a relocatable file or an executable, 32 or 64 bit, whose .text and .data hold exactly the bytes of its statements in order, at the addresses that labels before them and instructions referring to these labels (before or after, in any section) get; .bss has the size reserved; alignment holds for the addresses. In an executable text starts at the base address, data at the page after it or the address set, bss aligned after data, each symbol has its final address and the entry point is the one asked for; in a relocatable file each has its offset, and the relocations of the instructions are listed, in order, with offset, symbol, type and addend, in the relocation section of their section. Each label, each section and each symbol used but not defined is one symbol; exactly those declared .global are global, after the local ones. Offsets of labels in data and bss are in units of the data address unit. Comments end where the line does and do not start inside quotes; escaped newlines continue a statement. Malformed statements and operands, values that do not fit, labels defined twice, statements outside of a section, instructions the encoder refuses in either pass, executables with undefined symbols or entry point, and failures of the streams are errors. No input crashes it.",
 ["inputs"], "for every program and every operand list",
 "The one test assembles a single program; alignment and space inside data, escaped quotes, line continuation and errors found in the second pass had never worked.",
 [AS+"simple_assembler.h", AS+"simple_assembler.cc", AS+"resolver.h", AS+"resolver.cc"],
 [("first pass", "SimpleAssembler::Parse/ParseAsmDirective"), ("operands", "GetValues, GetLabels, ExpandEscapes, SimpleTextToInt"), ("layout", "SimpleAssembler::CreateExecutable/CreateRelocatable/UpdateSymbols*"), ("second pass", "SimpleAssembler::ParsePassTwo"), ("symbols", "ZeroResolver, SymbolResolver, AddSymbol")],
 technique="bounded exhaustive enumeration of programs run through the real assembler against a reference assembler",
 note="All programs of up to 4 (thorough 5) statements out of 16 and 3 (4) out of 23 after .text, 3 (4) out of 23 from nothing or with filled sections, 4 (5) out of 12 in .bss, each as four kinds of file; all lists of 1-2 (3) numbers out of 19 boundary values and 9 malformed ones for 8 directives; all quoted texts of up to 5 (7) characters; comments of 10 comment strings; 41 single statements; data address units 1, 2, 4. ELFIO and RE2, which are not installed, are replaced by stand-ins (`shim/elfio`, `shim/re2`); the layout of the file by ELFIO is not judged.")
