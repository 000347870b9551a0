P('P14', 'Bit-field extraction recipes extract exactly the masked bits',
  'For every bit mask, the computed extraction recipe, the value extracted with it and the C++ expression text generated from it all '
  'yield exactly the bits of the word selected by the mask, compacted to the right in order, for every word.',
  'inputs', 'all 64-bit words, and the mask families of one run, two runs and every window of bits',
  'Tests check a few masks and words; an error shows only for particular gap widths and positions.',
  [D + 'extract.h', D + 'extract.cc'], [('GetExtractionRecipe/ExtractValue/WriteExtraction', D + 'extract.cc')],
  T_BIT, 'the word is symbolic (each result bit must be the right bit of the word); masks are enumerated by family.',
  observe=['extracted value', 'generated expression text'])

P('P15', 'Identifier formatting is total and follows its documented form',
  'Turning any name into Pascal case, snake case, lower case, a header guard or an indentation string gives the documented result for every ASCII input, including empty strings, leading, '
  'trailing and repeated underscores, digits and path separators. No input makes it read outside the string.',
  'inputs', 'all ASCII strings up to length 5 by character class, indentation widths',
  'Tests use a few well-formed names; edge cases such as empty, trailing or doubled separators are not covered.',
  [D + 'format_name.h', D + 'format_name.cc'], [('ToPascalCase/ToSnakeCase/ToHeaderGuard/ToLowerCase/Indent', D + 'format_name.cc')],
  T_BIT, 'characters are symbolic within their class; string length is enumerated.',
  observe=['returned string'])

P('P16', 'The resource registry returns one stable object per name and owns it',
  'Inserting a resource name twice fails with an already-exists error and leaves the first resource in place; asking for or inserting a name makes exactly one resource that every later request for that name returns. '
  'A resource is simple and not multi-valued or array-like until something marks it otherwise, keeps its name and Pascal-case name, and is freed exactly once with its registry.',
  'histories', 'all bounded histories of insert, get-or-insert and marking over several names',
  'Tests insert a few resources; the guarantee is over all orders of calls.',
  [D + 'resource.h', D + 'resource.cc'], [('ResourceFactory, Resource', D + 'resource.cc')],
  T_OWN, 'all bounded operation histories; heap ownership tracked.',
  observe=['GetOrInsertResource()', 'resource_map()'])

P('P17', 'Floating point classification agrees with the encoding of every format',
  'For each supported format (half, single, double and the integer types standing for them) the layout constants are those of the IEEE-754 style format of that width, '
  'and infinity, NaN, quiet NaN, signalling NaN and sign classification are right for every bit pattern.',
  'inputs', 'all encodings of nine types (symbolic bit patterns)',
  'Classification differs only on particular patterns (sign set, payload bits, quiet bit); tests sample few.',
  [G + 'type_helpers.h'], [('FPTypeInfo', G + 'type_helpers.h')],
  T_BIT, 'the encoding is symbolic; each classification is compared bit for bit with the definition.',
  observe=['FPTypeInfo<T> members'])

P('P18', 'Half to single precision conversion is exact',
  'Widening a half precision number to single precision gives the same number for every encoding: normal, subnormal, zero of either sign and infinity, and a NaN stays a NaN.',
  'inputs', 'all 65536 half encodings (symbolic)', 'Tests sample values; subnormals and signed zeros are easily missed.',
  [G + 'type_helpers.h'], [('ConvertHalfToSingle', G + 'type_helpers.h')],
  T_BIT, 'the encoding is split by exponent class and leading mantissa bit, other bits symbolic.',
  observe=['converted value'])

P('P19', 'Type relation tables are exact for every supported type',
  'For every supported integer and floating point type the wider, narrower, signed, unsigned and same-width-integer companions, the floating point and variant membership predicates, '
  'and the enumeration to underlying value conversion are exactly those of the type.',
  'programs', 'all supported types', 'A wrong table entry only matters to instantiations nobody compiled in a test.',
  [G + 'type_helpers.h', G + 'signed_type.h', G + 'variant_helper.h'], [('WideType/NarrowType/SignedType/...', G + 'type_helpers.h')],
  'compile-fail witness (static_assert over the type-checked program)', 'a witness translation unit asserts every table entry; a wrong entry makes it fail to build.',
  observe=['the named types'])

P('P20', 'A register holds the last value delivered to it, on time and in every view',
  'Writing a register (directly, through an immediate or delayed destination operand, or by submitting a buffer) makes its contents those of the last write delivered, at exactly the stated latency in cycles; '
  'reading it through a source operand of any width gives the right bytes of that value. The register keeps its buffer alive, releases the previous one exactly once, and stays valid when it is updated with the buffer it already holds. A control register hands each delivered buffer to its update function, once, and stores nothing by itself. '
  'A source operand and a destination operand report the name, size, shape and object they were made for.',
  'histories inputs', 'scalar, vector and matrix registers, all integer widths, symbolic contents, several latencies, histories of updates',
  'Tests write a few values once; delayed, repeated and aliased updates and their reference balance are not covered (and the test is not part of this build).',
  [G + 'register.h', G + 'register.cc'], [('RegisterBase::SetDataBuffer, Register*Operand', G + 'register.cc')],
  T_BIT, 'contents symbolic; register kinds, latencies and update histories enumerated.', observe=['data_buffer()', 'operand AsInt*/AsUint*', 'reference counts'])

P('P21', 'Architectural state owns its parts and advances every delay line once a cycle',
  'Registers and fifos added to the architectural state are found under exactly the names they were added with (an alias finds the same object, an unknown name finds none), and each is deleted exactly once with the state. '
  'Each delay line advances once per cycle call; destroying the state with writes in flight releases every buffer and delivers nothing.',
  'histories', 'names, aliases, delay lines, cycles and destruction points', 'Tests create one register and advance once.',
  [G + 'arch_state.h', G + 'arch_state.cc', G + 'function_delay_line.h', G + 'data_buffer.h'], [('ArchState', G + 'arch_state.cc')],
  T_OWN, 'bounded histories of additions, cycles and destruction; ownership tracked.', observe=['registers()', 'fifos()', 'deletions'])

P('P22', 'A fifo is a bounded queue with exact reservations, tokens and notifications',
  'A fifo returns the buffers pushed into it in order, each exactly once, holding one reference to each while it is queued. A push on a full fifo (counting other reservations) and a pop or front on an empty one change nothing and raise the '
  'attached overflow/underflow program error; capacity, fullness, emptiness, oversubscription, reserved and available counts always agree with the history. A token fifo holds exactly one token of its store per queued element, '
  'a notifying fifo calls its not-empty callback exactly when a push makes it non-empty and its empty callback exactly when a pop empties it, and importing a depth configuration sets the capacity.',
  'histories', 'all bounded histories of push, pop and reserve for plain, notifying and token fifos',
  'Tests fill a fifo and drain it once; reservations combined with failures and shared tokens are not covered.',
  [G + 'fifo.h', G + 'fifo.cc', G + 'token_fifo.h', G + 'token_fifo.cc', G + 'fifo_with_notify.h'], [('FifoBase::Push/Pop/Reserve, TokenFifoBase, FifoWithNotify', G + 'fifo.cc')],
  T_OWN, 'all bounded histories against a queue model.', observe=['Push() result', 'Front()', 'Available()/Reserved()', 'program errors', 'tokens available'])

P('P23', 'A simple resource is busy exactly from its acquisition to its release',
  'After any history of acquisitions and releases of resources and of sets of resources, a resource is free exactly if it was not acquired since its last release, a set is free exactly if all its members are, and the list of reserved resources names exactly the busy ones. '
  'A pool holds at most its width of resources, each under one name and index, and owns them and its sets; a set accepts only resources of its own pool. '
  'A resource set acquired through an operand becomes free exactly its latency in cycles later (at once for latency zero). The bit set underneath behaves as a set of integers for every size and position.',
  'histories', 'histories of additions, acquisitions and releases for pools of 1 to 130 resources, latencies 0-16',
  'Tests use pools of a few resources in one word; word boundaries, growth and latency zero are not covered, and these tests are not part of the build.',
  [G + 'resource_bitset.h', G + 'resource_bitset.cc', G + 'simple_resource.h', G + 'simple_resource.cc', G + 'simple_resource_operand.h'],
  [('ResourceBitSet', G + 'resource_bitset.cc'), ('SimpleResourcePool/Set/Operand', G + 'simple_resource.cc')],
  T_OWN, 'all bounded histories over enumerated sizes and positions against the algebra of sets.', observe=['IsFree()', 'ReservedAsString()', 'ResourceBitSet iteration'])

P('P24', 'A complex resource is reserved for exactly the cycles asked for',
  'Acquiring a complex resource for a mask of future cycles reserves exactly those cycles (within its depth) relative to the current cycle, releasing frees exactly those, and as the cycle counter advances by any amount every reservation moves with it and expires when its cycle has passed. '
  'An operand accepts exactly the cycle masks that fit the depth of its resource and keeps its previous mask when it rejects one.',
  'histories inputs', 'all masks (symbolic words), depths of one to four words, advances within and across words',
  'Tests check all-ones masks; particular bits, partial words and word boundaries are not covered.',
  [G + 'complex_resource.h', G + 'complex_resource.cc', G + 'complex_resource_operand.h', G + 'complex_resource_operand.cc'],
  [('ComplexResource::Advance/Acquire/Release', G + 'complex_resource.cc'), ('ComplexResourceOperand::SetCycleMask', G + 'complex_resource_operand.cc')],
  T_BIT, 'masks are symbolic; depths and advances are enumerated.', observe=['IsFree()', 'bit_array()'])

M = 'mpact/sim/util/memory/'
U = 'mpact/sim/util/'

P('P25', 'A memory returns the last bytes stored at every address of its range',
  'For any history of scalar, unit stride and scatter/gather vector stores and loads, a flat or demand allocated memory returns for every byte the value last stored there (the fill value if none), and changes no other byte; masked off elements are neither read nor written. '
  'Accesses that do not fit into the range of the memory are rejected (scalar loads of a demand memory only warn). '
  'The instruction of a load is executed exactly once, with its context, exactly the latency of the data buffer later, and instruction and context stay alive until then. The memory owns its storage.',
  'histories inputs', 'all contents and all addresses outside of the range (symbolic); addresses inside enumerated around the start, end and block boundaries; element sizes 1-8, masks, units of 1-8 bytes, latencies 0-3',
  'Tests store and load a few patterns; block boundaries, masks, overlaps, delayed loads and range ends are not covered, and these tests are not part of the build.',
  [M + 'flat_memory.h', M + 'flat_memory.cc', M + 'flat_demand_memory.h', M + 'flat_demand_memory.cc', M + 'memory_interface.h'],
  [('FlatMemory::Load/Store', M + 'flat_memory.cc'), ('FlatDemandMemory::LoadStoreHelper', M + 'flat_demand_memory.cc')],
  T_BIT, 'contents are symbolic bytes, histories are enumerated and compared with a byte map; ownership of buffers, contexts and storage is tracked. Not covered: unit stride vectors of memories with multi byte units.',
  observe=['loaded bytes', 'executed instructions', 'rejected accesses'])

P('P26', 'Tags travel with tagged data and are cleared by every untagged write',
  'A tagged load returns for each granule the tag last stored with it, zero if none was or if any byte of the granule was written since by an untagged scalar or vector store; the data is that of an ordinary memory. '
  'Loads of only the tags return the same tags. Requests that are not aligned to granules or whose number of tags does not match have no effect. Instructions of loads are executed once and on time.',
  'histories inputs', 'all contents and tags (symbolic), granules of 1, 8 and 16 bytes, histories of tagged and untagged stores around granule and block boundaries and the ends of the memory',
  'Tests check a few aligned patterns; stores across granules, vector stores and partial granules are not covered.',
  [M + 'tagged_flat_demand_memory.h', M + 'tagged_flat_demand_memory.cc', M + 'tagged_memory_interface.h'],
  [('TaggedFlatDemandMemory::Load/Store/ClearTags', M + 'tagged_flat_demand_memory.cc')],
  T_BIT, 'data and tags are symbolic bytes, histories are enumerated and compared with a map of granules.', observe=['loaded data and tags'])

P('P27', 'Atomic operations are exact; a store conditional needs an unbroken link',
  'Every atomic read-modify-write of 1, 2, 4 or 8 bytes returns the previous contents and leaves exactly the result of the operation (wrap around add and subtract, bitwise operations, signed and unsigned minimum and maximum, swap) in memory, touching no other byte; other sizes are refused without a write. '
  'A store conditional succeeds (and only then writes) exactly if its 8 byte granule was load linked since the last write to any byte of it by any store, vector store, atomic operation or successful store conditional. '
  'All other accesses behave as those of the memory behind, with tags where it is tagged. The instruction of an operation is executed exactly once.',
  'histories inputs', 'all contents and operands (symbolic); histories of load linked, writes of every kind and store conditional',
  'Tests check one value per operation and one intervening store; sign and width corners and writes across granules are not covered.',
  [M + 'atomic_memory.h', M + 'atomic_memory.cc', M + 'atomic_tagged_memory.h', M + 'atomic_tagged_memory.cc'],
  [('AtomicMemory::PerformMemoryOp', M + 'atomic_memory.cc'), ('AtomicTaggedMemory::PerformMemoryOp', M + 'atomic_tagged_memory.cc')],
  T_BIT, 'contents and operands are symbolic and the terms stored are compared; link state is a typestate over enumerated histories. A single thread of control is assumed.', observe=['memory contents', 'returned value', 'status'])

P('P28', 'A watched access calls exactly the watchers it touches',
  'Every load or store is forwarded exactly once with its own arguments. The callback of every watch range that it overlaps is called with the address and size of the access (of each enabled element for vector accesses), once each, before a load and after a store, and no other callback is called. '
  'A watch is accepted exactly if its range is well formed and overlaps no range of the same kind, and stays active until it is cleared through an address inside its range.',
  'inputs histories', 'all addresses, range ends and clear addresses of scalar accesses (symbolic), vector accesses around range ends',
  'Tests use accesses that are well inside or outside of one range.',
  [M + 'memory_watcher.h', M + 'memory_watcher.cc', M + 'tagged_memory_watcher.h', M + 'tagged_memory_watcher.cc'],
  [('MemoryWatcher::Load/Store', M + 'memory_watcher.cc'), ('TaggedMemoryWatcher::Load/Store', M + 'tagged_memory_watcher.cc')],
  T_EFF, 'the addresses are symbolic 64 bit values (without wrap around); the sequence of effects is compared with interval overlap. Callbacks that change the set of watches are not covered.', observe=['callbacks', 'forwarded accesses'])

P('P29', 'Every memory access reaches exactly the target mapped at its addresses',
  'A plain, vector, tagged or atomic access is forwarded once, with unchanged arguments, to the one target whose range holds all bytes it accesses (plain accesses look at plain targets first, then at tagged ones), to the default target if no target range overlaps it, and to none otherwise; a vector access is never split and all its enabled elements have to agree. '
  'A target range is accepted exactly if it is well formed and conflicts with no other range. Initiators and targets exist once per name, mappings of unknown names are refused. '
  'Untagged memory behind a tagged interface returns zero tags and executes the instructions of tag loads.',
  'inputs histories', 'all addresses of scalar accesses and all range ends (symbolic); vector accesses around the ends of ranges; combinations of targets and defaults',
  'Tests probe the middle of ranges; the first and last bytes, partial overlaps and mixed vectors are not covered.',
  [M + 'single_initiator_router.h', M + 'single_initiator_router.cc', M + 'memory_router.h', M + 'memory_router.cc', M + 'tagged_to_untagged_memory_transactor.h', M + 'tagged_to_untagged_memory_transactor.cc'],
  [('SingleInitiatorRouter', M + 'single_initiator_router.cc'), ('MemoryRouter::AddMapping', M + 'memory_router.cc'), ('TaggedToUntaggedMemoryTransactor', M + 'tagged_to_untagged_memory_transactor.cc')],
  T_EFF, 'the addresses are symbolic 64 bit values (without wrap around); the forwarded call is compared with interval containment. Not covered: vectors with all elements masked off, targets of one byte.', observe=['forwarded accesses', 'status'])

P('P30', 'The cache counts hits and misses exactly and is transparent to accesses',
  'For every configuration and history of accesses, the hit, miss, dirty write back, around and non cacheable counters of the cache are those of a set associative cache of the configured size, line size and associativity with least recently used replacement, write allocation as configured and the configured cacheable or non cacheable ranges; every block that an access (each enabled element for vector accesses) touches is looked up once. '
  'Every access is forwarded once to the memory behind, unchanged; a load delivers the data, executes its instruction once after the latency of its buffer with its context, and releases what it holds, also without an instruction and for loads of only tags. '
  'A malformed configuration is reported as an error and changes nothing; a new configuration replaces the previous one entirely.',
  'histories configurations inputs', 'histories of up to 24 accesses over direct mapped, set and fully associative caches; all listed kinds of malformed configuration; all access kinds',
  'Tests count hits of linear sweeps over a direct mapped cache; replacement order, dirty lines, vector accesses and failed configurations are not covered.',
  [M + 'cache.h', M + 'cache.cc'], [('Cache::Configure/CacheLookup/ReplaceBlock/LoadChild', M + 'cache.cc')],
  T_EFF, 'histories and configurations are enumerated and compared with a reference model of the counters; contents are symbolic. Pinned lines, ranges that overlap each other and accesses that wrap around are not covered.', observe=['performance counters', 'forwarded accesses', 'executed instructions', 'status'])

P('P31', 'The memory use profile lists exactly the words that were accessed',
  'While it is enabled, the profiler records every word that any byte of a load or store of up to 8 bytes (each enabled element for vector accesses) belongs to, and nothing else; the profile written lists these words as maximal ranges in ascending order with their start, last word and size, also where ranges reach or cross the boundaries of its internal segments. '
  'Enabled or not, every access is forwarded once, unchanged.',
  'histories inputs', 'histories of accesses of all kinds and sizes around word, byte and segment boundaries and the ends of the address space',
  'There is no test of the profiler.',
  [M + 'memory_use_profiler.h', M + 'memory_use_profiler.cc'], [('MemoryUseTracker::MarkUsed/WriteUseProfile', M + 'memory_use_profiler.cc')],
  T_EFF, 'histories are enumerated and the text of the profile is compared with that of the set of words.', observe=['profile text', 'forwarded accesses'])

P('P32', 'The decode cache returns the right instruction and owns it exactly',
  'Every lookup returns an instruction decoded from exactly the address asked for; the decoder is called if and only if that address is not in its entry (address divided by the pc increment, modulo the number of entries, a power of two not less than asked for). Invalidating an address, a half open range (of any start and end) or everything removes exactly the instructions at those addresses. '
  'An instruction that is displaced or invalidated is released once, and stays alive while someone else references it; a failing decode changes nothing; a pc increment that is not a power of two is refused.',
  'histories inputs', 'histories of lookups and invalidations with and without retained instructions over several cache shapes; two symbolic addresses',
  'Tests look up consecutive addresses and invalidate aligned ranges, and are not built here.',
  [G + 'decode_cache.h', G + 'decode_cache.cc'], [('DecodeCache', G + 'decode_cache.cc')],
  T_EFF, 'histories are enumerated over caches of 1 to 8 entries and compared with a direct mapped model.', observe=['GetDecodedInstruction()', 'calls of the decoder', 'deletions'])

P('P33', 'Instruction trees own children and operands and never dangle',
  'An instruction lists its sources, destinations, resources, attributes, children and successors in the order they were added and owns them: operands are deleted once, with the instruction; children and successors lose one reference each and live on, without a parent, if someone else references them, in whatever order the last references go. '
  'Executing an instruction calls the semantic function set last once, with the given context visible only during the call.',
  'histories inputs', 'bundles of up to three children, two levels of nesting and successor lists, every subset of retained children and both release orders',
  'Tests release whole trees at once, and are not built here.',
  [G + 'instruction.h', G + 'instruction.cc'], [('Instruction::AppendChild/Append/~Instruction', G + 'instruction.cc'), ('Instruction::Execute', G + 'instruction.h')],
  T_OWN if 'T_OWN' in globals() else T_EFF, 'tree shapes and retained references are enumerated; values are symbolic.', observe=['child()', 'next()', 'parent()', 'deletions'])

P('P34', 'Semantic function helpers read, apply and submit exactly once per element',
  'GetInstructionSource<T>(inst, i[, element]) is the value of that element of that source operand converted to T, for every supported T. The unary, binary and ternary helpers (scalar and vector, all combinations of result and argument types) apply the operation once per element, in order, to the values of the sources of that element, write the results to those elements of one new data buffer of the destination, and submit it exactly once.',
  'inputs programs', 'all values of the operands (symbolic); all source types; 39 helper instantiations with 0, 1 and 3 elements',
  'Tests use sample values for one combination of types, and are not built here.',
  [G + 'instruction.h', G + 'instruction_helpers.h'], [('GetInstructionSource', G + 'instruction.h'), ('UnaryOp/BinaryOp/UnaryVectorOp/BinaryVectorOp/TernaryVectorOp', G + 'instruction_helpers.h')],
  T_EFF, 'the operand values and the results of the operation are symbolic; instantiations are enumerated.', observe=['values passed to the operation', 'submitted data buffers'])

P('P35', 'Components, configuration entries and counters keep and exchange their values',
  'A component finds exactly the children, counters and configuration entries registered with it by name, and refuses null, uninitialized and duplicate registrations with an error and no effect. '
  'A configuration entry holds its initial or last written value, knows whether it was written, calls every callback once per write and refuses values of another type, name or no value without effect. '
  'A counter changes by exactly the increment, decrement or value given while enabled and never while disabled, and tells every listener the new value. '
  'Export writes every value once, in name order, and import of that data (own configuration before children, unknown entries skipped, malformed ones reported) restores every configuration value and no counter.',
  'histories', 'all value types with symbolic values; histories of 2 to 3 operations; a component tree of depth three; well-formed and malformed data',
  'Tests go through one or two histories; refused operations, disabled counters and malformed data combine in many ways (and the tests are not part of this build).',
  [G + 'component.h', G + 'component.cc', G + 'config.h', G + 'counters.h'], [('Component::Import/Export, Config, SimpleCounter, FunctionCounter', G + 'component.cc')],
  T_BIT, 'values symbolic; histories enumerated; the generated proto classes are replaced by a plain model with the same interface.', observe=['GetValue()', 'returned status', 'callbacks', 'exported ComponentData'])

P('P36', 'Action points act at enabled addresses only and memory always shows it',
  'After every history of setting, clearing, enabling and disabling actions, memory at an address holds the breakpoint instruction exactly when at least one action there is enabled; '
  'reaching an address performs each enabled action once, in the order set, with its address and id, and does nothing elsewhere. Ids of an address are never reused, unknown addresses or ids are errors, '
  'an operation whose memory write fails reports it and leaves everything as it was, and everything is released with the manager. '
  'A breakpoint manager built on it requests one halt per reached enabled breakpoint, remembers the last one reached, and never disturbs other actions.',
  'histories faults', 'all histories of three operations on two addresses and four on one, with and without failing memory writes; breakpoint histories of four operations with and without other actions',
  'Tests set and clear one breakpoint; sharing an address between enabled and disabled actions and failing writes are not covered (and the tests are not part of this build).',
  [G + 'action_point_manager_base.h', G + 'action_point_manager_base.cc', G + 'breakpoint_manager.h', G + 'breakpoint_manager.cc'],
  [('ActionPointManagerBase', G + 'action_point_manager_base.cc'), ('BreakpointManager', G + 'breakpoint_manager.cc')],
  T_OWN, 'operation histories and write failures enumerated against a set model; heap ownership tracked.', observe=['memory writes', 'actions performed', 'returned status', 'halt requests'])

P('P37', 'The socket stream buffer carries every byte and owns its socket',
  'Through a SocketStreambuf every byte received reaches the reader once, unchanged and in order, except that a carriage return is dropped and the character after it delivered as it is; every character written is sent once, in order and unchanged, a newline being sent as carriage return and newline. '
  'The end of input and a failed read are reported to the reader as end of file, and a failed write to the writer; the socket is closed exactly once, at the latest with the buffer, and is never read, written or closed after that.',
  'inputs faults histories', 'all received and written bytes (symbolic), sequences of up to four reads and writes of up to several characters, end of input and errors at every point',
  'Tests would need a socket whose reads and writes fail at chosen points; none exists for this class.',
  ['mpact/sim/util/renode/socket_streambuf.h'], [('SocketStreambuf::underflow/overflow/~SocketStreambuf', 'mpact/sim/util/renode/socket_streambuf.h')],
  T_OWN, 'bytes symbolic; sequences and failures enumerated; read, write and close replaced by a model of one descriptor that rejects use after close.', observe=['characters delivered', 'bytes written to the socket', 'close()'])

P('P38', 'The bit-field helpers emitted into generated code read and write exact fields',
  'ExtractBits<T>(data, size, msb, width), which the encoding generator emits into every generated decoder, returns exactly the bits msb..msb-width+1 of the big-endian byte vector (bit 0 the last), zero extended, for every T wide enough; '
  'InsertBits puts the low width bits of its value there and changes no other bit. Neither touches a byte outside the field.',
  'inputs', 'all byte vectors and values (symbolic) of 1 to 17 bytes, all integer types, fields of every position class and width up to 64',
  'The helpers exist as text inside the generator; no test here compiles them, and only some fields and widths show a wrong shift.',
  [D + 'bin_format_visitor.cc'], [('kTemplatedExtractBits / kTemplatedInsertBits', D + 'bin_format_visitor.cc')],
  T_BIT, 'the emitted text is taken out of the generator source, type checked and interpreted with symbolic bytes; positions and widths enumerated (all of them in the thorough tier).', observe=['ExtractBits()', 'InsertBits()'])

P('P39', 'UART registers keep their values and bus accesses are forwarded as they are',
  'Every store to a SimpleUart of whole words changes exactly the registers addressed: the transmit register writes its low byte to the output once and in order, the divisor latch registers are reached only while the DLAB bit is set and hide the others without changing them, and loads return the value last stored (zero before that, and for other offsets). '
  'Accesses that are not aligned words read zero and change nothing. RenodeMemoryAccess passes every load and store to the callback set last, with address, size and bytes unchanged, reads zero without one, and both finish a load exactly once: now or after the latency of the buffer.',
  'inputs histories', 'all values (symbolic), all sequences of two stores (three in the thorough tier) over the register offsets, divisor latch sequences, sizes and alignments, callbacks present, missing, replaced and short',
  'Tests of the UART are not part of this build and store to each register once.',
  [U + 'other/simple_uart.h', U + 'other/simple_uart.cc', U + 'renode/renode_memory_access.h', U + 'renode/renode_memory_access.cc'],
  [('SimpleUart::Load/Store/Read/Write', U + 'other/simple_uart.cc'), ('RenodeMemoryAccess::Load/Store', U + 'renode/renode_memory_access.cc')],
  T_BIT, 'values symbolic; sequences enumerated; output stream and bus callbacks observed, reference counts and deferred loads tracked.', observe=['loaded data', 'characters written', 'bus callbacks', 'instruction executed'])

P('P40', 'The Renode agent keeps its instances apart and reports what they did',
  'Over every history of constructing, connecting and destroying instances the agent gives live instances different ids and different names, creates exactly one simulator per new instance and none when connecting to a live one, and deletes simulator and memory interface exactly once, when the instance is destroyed; a refused creation leaves nothing behind and returns -1. '
  'A request reaches exactly the instance addressed, with its arguments (and the name length of that instance) unchanged, and its result or failure is handed back; unknown ids are errors and reach no simulator. Callbacks given later only fill in missing ones. '
  'Step executes the number of instructions asked for, in pieces an int can hold, stops at the first error, breakpoint, program end or short piece, and returns the number executed and the status of that event, with or without a place for the status. LoadImage writes every byte of the file once, at its address.',
  'inputs histories faults', 'histories of three operations (four in the thorough tier) over ids 0, 1, 2 and 5; requests of every kind, accepted and refused; step counts around multiples of the int range up to 2^64-1, all outcomes of up to four pieces; images of sizes around the buffer size',
  'Nothing in the build exercises the agent: errors, large counts and reused ids are never tested.',
  [U + 'renode/renode_mpact.h', U + 'renode/renode_mpact.cc'], [('RenodeAgent', U + 'renode/renode_mpact.cc')],
  T_OWN, 'the simulator behind the agent is replaced by a recorder with chosen answers; histories, outcomes and sizes enumerated, values symbolic.', observe=['calls reaching the simulator', 'results', 'status', 'objects created and deleted'])

P('P41', 'Formats place fields and overlays on exactly the bits they name',
  'For every sequence of field widths and format references a format is accepted iff their widths add up to the declared width and names are used once; each field then covers, left to right, the next bits of the word with none shared or left over. An overlay is accepted iff its parts name existing fields and bits within range; '
  'its value of any word is the concatenation of its parts, leftmost highest, and its bit field places each bit of a value on the bit of the word it came from, for formats and overlays up to 64 bits.',
  'inputs', 'widths from 1 to over 128 bits, references, base formats, overlays of fields, bit ranges and constants; the word and value symbolic, every bit', 'The decoder tools are not built here; tests use one format.',
  [D + 'format.cc', D + 'overlay.cc'], [('Format', D + 'format.cc'), ('Overlay', D + 'overlay.cc')],
  T_OWN, 'layouts and overlays enumerated, instruction word and value symbolic.', observe=['status', 'high and low of fields', 'overlay values', 'bit fields'])
P('P42', 'Generated extractors return exactly the bits of their field',
  'For every format the generated extractor functions (namespace and class form, from an integer or from bytes) are valid C++ with a defined result, and return exactly the bits of the field, nested format instance or overlay, sign-extended if declared signed, in the smallest integer type that holds it. '
  'An extractor offered by a base format gives the right value for every derived format that uses the name, and a base format keeps its own. The same holds for formats laid out as packed structures.',
  'inputs programs', 'formats of 8 to 256 bits, fields and overlays up to 128 bits at every kind of position, repeated formats, derived formats; the word symbolic, every bit', 'The generators are not built here and their output is never executed by a test.',
  [D + 'format.cc', D + 'overlay.cc'], [('Format::GenerateExtractors', D + 'format.cc'), ('Overlay::WriteSimpleValueExtractor', D + 'overlay.cc')],
  T_OWN + ' The text the generator writes is parsed and interpreted the same way', 'layouts and overlays enumerated, instruction word symbolic; fields above 128 bits are outside (the generator has no type for them).', observe=['emitted text', 'values of emitted functions'])
P('P43', 'Generated inserters change exactly the bits of their field',
  'For every format the generated inserter functions are valid C++ with a defined result, and return the instruction word with exactly the bits of the field, nested format instance or overlay replaced by the low bits of the value, each bit of an overlay at the place it is extracted from, and every other bit unchanged. The same holds for packed structures.',
  'inputs programs', 'formats of 8 to 256 bits, fields and overlays up to 128 bits, repeated formats; word and value symbolic, every bit', 'The generators are not built here and their output is never executed by a test.',
  [D + 'format.cc', D + 'overlay.cc'], [('Format::GenerateInserters', D + 'format.cc')],
  T_OWN + ' The text the generator writes is parsed and interpreted the same way', 'layouts and overlays enumerated, word and value symbolic; overlays that name a bit twice are outside (insertion is ambiguous).', observe=['emitted text', 'values of emitted functions'])

P('P44', 'Encoding constraints are range checked and yield their exact mask and value',
  'A constraint of an instruction encoding is accepted exactly when its field or overlay exists, is narrower than 64 bits if it is a field, the comparison is allowed for its sign and the value is one the field or overlay can hold. The mask of the encoding then has exactly the bits of the equality constraints, its value the bits the values put there, and the combined mask the bits of all constraints, both sides of a comparison included, whatever the order in which constraints were added and masks were read, and for copies.',
  'inputs history', 'constraint value fully symbolic or around the limits of the width; fields of 1 to 64 bits, overlays of 1 to 64 bits, sequences of three constraints', 'No test of the encodings is built here.',
  [D + 'instruction_encoding.cc'], [('InstructionEncoding::CreateConstraint', D + 'instruction_encoding.cc'), ('InstructionEncoding::ComputeMaskAndValue', D + 'instruction_encoding.cc')],
  T_OWN, 'layouts and overlays enumerated, value bits symbolic.', observe=['return values'])
P('P45', 'Emitted decoders return the opcode whose constraints the word satisfies',
  'The decoder emitted for an instruction group is valid C++ with a defined result for every instruction word: the opcode it returns is one whose constraints the word satisfies (for a specialization, those of the encoding it specializes too; for an encoding, none of its specializations match), it returns kNone only for a word that satisfies the constraints of no encoding, and the decoder with format names the format of the opcode it returns.',
  'inputs programs', 'every instruction word (symbolic, every bit) of more than seventy enumerated descriptions: nested and separate groups, comparisons of fields and overlays, specializations, words of 8 to 64 bits', 'The generators are not built here and their output is never executed by a test.',
  [D + 'instruction_group.cc', D + 'encoding_group.cc'], [('EncodingGroup::EmitDecoders', D + 'encoding_group.cc'), ('InstructionGroup::EmitDecoderCode', D + 'instruction_group.cc')],
  T_OWN + ' The text the generator writes is parsed and interpreted the same way', 'descriptions enumerated, word symbolic; which of several matching encodings wins is not specified and not claimed.', observe=['emitted text', 'values of emitted functions'])

G = 'mpact/sim/util/gdbserver/'
P('P46', 'The debugger connection is framed, acknowledged and closed as the protocol says',
  'Whatever bytes a debugger sends, the GDB server takes them apart into packets as the remote protocol says: a packet with the right checksum is acknowledged and answered once, one with a wrong checksum is refused, escapes are undone, a reply is repeated when the debugger asks for it (a bounded number of times), and acknowledgements stop once the debugger asks for that. A connection that ends, or fails, at any byte, and a packet larger than the buffer, end the session without reading or writing outside the buffer, and every descriptor is closed exactly once.',
  'inputs history', 'over thirty enumerated byte streams of a debugger, the connection ending or failing after each, packets up to and past the buffer', 'The GDB server is not built here.',
  [G + 'gdbserver.cc', G + 'gdbserver.h'], [('GdbServer::Connect', G + 'gdbserver.cc'), ('GdbServer::AcceptGdbCommand', G + 'gdbserver.cc')],
  T_OWN + ' The sockets are modelled: a script of bytes to read, a record of bytes written, and the state of each descriptor', 'byte streams enumerated.', observe=['bytes sent', 'descriptors open'])
P('P47', 'Debugger commands reach the core exactly once and report its state truly',
  'Every command of a debugger has on the simulated core the effect the remote protocol gives it, and no other: reads and writes of memory and registers, breakpoints, steps and continues reach the core once with the address, length and data of the command; the reply holds the bytes, register contents or halt reason of the core; a malformed command, a thread or register that does not exist and a failure of the core are answered with an error (or, if not supported, an empty reply), without effect on the core, and no command is left without a reply.',
  'inputs history', 'over 130 enumerated commands and sequences of them, well formed and malformed, with each failure and halt reason of the core', 'The GDB server is not built here.',
  [G + 'gdbserver.cc'], [('GdbServer::ParseGdbCommand', G + 'gdbserver.cc')],
  T_OWN + ' The core and its debug information are modelled and record what they are asked', 'commands, register maps and failures enumerated.', observe=['replies', 'calls of the core'])

L = 'mpact/sim/util/program_loader/elf_program_loader.cc'
P('P48', 'A program is loaded byte for byte where it belongs, symbols are those of it',
  'Loading a program stores the file bytes of each loadable segment exactly once, at its physical address (or its virtual address if it has none), in the memory it belongs in (code, data, the first described memory that takes it, at the address it maps to, or through the debug interface, whose failures are reported), stores nothing else, and returns the entry point; a file that is missing or invalid stores nothing and is an error. Symbols, functions at or around an address and the stack size are those of the file loaded last, however often files are loaded, and everything is freed once.',
  'inputs history', 'segment tables with symbolic contents, symbol tables, failures of each write and sequences of two loads, enumerated', 'The loader is not built here.',
  [L], [('ElfProgramLoader::LoadProgram', L), ('ElfProgramLoader::LoadSymbols', L)], T_OWN + ' The ELF reader is a model that says what the file holds', 'tables enumerated, segment bytes symbolic.', observe=['stores', 'return values'])
L = 'mpact/sim/util/other/instruction_profiler.cc'
P('P49', 'The instruction profile lists each sample within the program exactly once',
  'The profile lists, in order, each unit of the executable segments of the program that was sampled, with the exact number of samples, and nothing else, whatever the layout of the segments, the granularity and the order of the samples; samples elsewhere, at any address, or without a program are dropped, no counter outside those allocated is touched, and the counters are freed.',
  'inputs history', 'ten segment layouts, three granularities, samples at and around every segment boundary in three orders', 'The profiler is not built here.',
  [L, L[:-2] + 'h'], [('InstructionProfiler::SetElfLoader', L), ('InstructionProfiler::SetValue', L[:-2] + 'h')], T_OWN, 'layouts and samples enumerated.', observe=['profile'])

VS, IE, EG = D + 'proto_constraint_value_set.cc', D + 'proto_instruction_encoding.cc', D + 'proto_encoding_group.cc'
P('P50', 'The value set of a protobuf constraint holds exactly the values that satisfy it',
  'For every integer, enumeration or boolean type, each comparison and each value, the value set built from a constraint holds exactly the values that satisfy it; the presence of a field of a choice excludes that of its other fields. Intersecting or joining sets gives exactly the common, or all, values, whatever the limits and whether they are included, and leaves no empty range, so that a set is empty exactly when its ranges are. Values of different types, and strings, are refused and leave the sets as they were. Negation negates the value and keeps its type. Copies are independent, and each limit is owned by one set.',
  'inputs history', 'all comparisons of all integer types at and next to the ends and the middle of the type; intervals in every relative position, open and closed, in both orders and three in turn; negation of every value', 'The protobuf front end is not built here.',
  [VS, D + 'proto_constraint_expression.cc', D + 'proto_constraint_expression.h'], [('ProtoConstraintValueSet::IntersectWith', VS), ('ProtoConstraintValueSet::UnionWith', VS), ('operator-', D + 'proto_constraint_expression.cc')], T_OWN,
  'limits enumerated, membership compared around each limit, where alone it can change; values are integers as such (1 < x < 2 is a range); floating point limits are not analysed.', observe=['members'])
P('P51', 'A protobuf instruction demands exactly the constraints that were added to it',
  'An instruction to which constraints have been added demands exactly those: each constraint on a field, and that the fields of choices on the way to it are present, each of the latter once. A constraint whose choices contradict those demanded before is refused, and no other. Only equalities of integers and the presence of fields of choices serve to select instructions. A copy demands and refuses the same, depends on nothing of the original, and every value is freed once.',
  'inputs history', 'sequences of two (thorough: three) out of 18 constraints on plain fields, fields of choices and fields of nested messages', 'The protobuf front end is not built here.',
  [IE, IE[:-2] + 'h'], [('ProtoInstructionEncoding::AddConstraint', IE), ('ProtoInstructionEncoding(const ProtoInstructionEncoding&)', IE)], T_OWN, 'message of seven fields, sequences enumerated; who frees the value of a refused constraint is left open.', observe=['demands'])
P('P52', 'Protobuf instructions that match the same message are reported, others are not',
  'When the decoder of an instruction group is laid out, two instructions that test the same fields and both match some message are reported as ambiguous; when no message matches two of the instructions, nothing is reported, however the constraints on a field are split into several, and whatever the fields used to select instructions. Everything made on the way is freed.',
  'inputs', 'pairs and triples of 19 instructions with up to three constraints, on plain fields and choices, against all messages over a small range of values', 'The protobuf front end is not built here.',
  [EG], [('ProtoEncodingGroup::AddEncoding', EG), ('ProtoEncodingGroup::AddSubGroups', EG), ('ProtoEncodingGroup::CheckEncodings', EG)], T_OWN, 'instructions enumerated; instructions that test different fields are taken to be distinct by design, and are not judged.', observe=['reports'])

IN, OP = D + 'instruction.cc', D + 'opcode.cc'
P('P53', 'A derived instruction has the parts of its base, with the arguments filled in',
  'An instruction derived from a template instruction has the name, opcode value, size, predicate, operands, resources, attributes, semantic function and child of its base; latencies, resource ranges and attribute values are those of the base evaluated with the template arguments. The derivation fails exactly if one of these cannot be evaluated. The base is not changed, and the derived instruction depends on neither the base nor the arguments. Parts that are overridden or cleared are those named, and no others. Each opcode name is accepted once, and opcodes have distinct positive values. On every path, failing ones included, everything made is freed once.',
  'inputs history', 'eight expressions (constants, parameters, sums, products, divisions, parameters that do not exist) at ten places of an instruction and its child, template argument symbolic; each way to override a part; sequences of opcode names', 'The front end of the instruction set language is not built here.',
  [IN, OP, D + 'instruction.h', D + 'opcode.h'], [('Instruction::CreateDerivedInstruction', IN), ('Instruction::CreateDerivedResourceRef', IN), ('OpcodeFactory::CreateDerivedOpcode', OP), ('OpcodeFactory::CreateOpcode', OP)], T_OWN,
  'one template argument symbolic, the other constant; one place varied at a time; the instruction set and the slots are replaced by recorders.', observe=['derived instruction', 'status', 'objects left behind'])

N('P80', 'The description languages are read as documented, ambiguity is refused',
  'Every instruction-set and encoding description the generators accept is read as its documentation says, into the formats, encodings and instructions it names, and a description in which two encodings match the same word is refused.',
  'programs inputs', 'all descriptions and all words', 'Tests decode a few sample encodings, and are not built here.',
  [D + 'bin_format_visitor.cc', D + 'encoding_group.cc'], [('EncodingGroup', D + 'encoding_group.cc')],
  'needs the lexer and parser that ANTLR generates from the grammars: neither ANTLR nor its output is available offline, so the code that reads descriptions cannot even be type checked; what is emitted once a description has been read is claimed by P41 to P45')
N('P81', 'Simulation control is safe across threads',
  'Halting, running and querying a simulation from the debug shell or a remote connection while the simulator thread runs never corrupts simulator state.',
  'schedules', 'all interleavings', 'No multi-threaded test exists here.',
  ['mpact/sim/util/renode/renode_debug_interface.h'], [('debug interfaces', 'mpact/sim/util/renode')],
  'the core classes are documented single threaded and the threaded front ends are interfaces implemented outside this repository; there is no locking protocol in scope to analyse')
