"""The properties, their anchors, and the method that decides each."""
T_OWN = 'ownership/typestate analysis by trace-partitioned abstract interpretation of the typed AST'
T_BIT = 'bit-provenance dataflow by trace-partitioned abstract interpretation of the typed AST'
T_EFF = 'effect-sequence (typestate) analysis by trace-partitioned abstract interpretation of the typed AST'
NOTE = ('Source-level static analysis of the current tree: %s Nothing is executed and no solver is used; '
        'trusts the clang front end and the modelled standard-library/absl operations; a partition the abstract '
        'domain cannot decide is counted as undecided in the evidence and raises no alarm.')
PROPS = []
NA = {}


def P(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier={'over': over.split(), 'text': text}, why_tests_cant=why,
        anchors={'files': files, 'state': [{'name': a, 'meaning': b, 'where': w} for a, b, w in state],
                 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                 'observe_at': list(observe), 'hook_needed': None},
        technique=technique, note=NOTE % note if technique else ''))


def N(id, title, statement, over, text, why, files, mech, reason):
    P(id, title, statement, over, text, why, files, mech, '', '')
    NA[id] = reason


G = 'mpact/sim/generic/'
D = 'mpact/sim/decoder/'

P('P01', 'Reference counts are exact and the zero notification fires exactly once',
  'A reference-counted object starts with one reference, its count is always acquisitions minus releases, and the zero '
  'notification (by default: deleting the object) happens exactly when the last reference is released, never before and '
  'never twice. Releasing an object that has no references left is rejected by a failed check.',
  'histories', 'every bounded interleaving of acquire, release and reset on one object',
  'The unit test walks one increment/decrement sequence; the guarantee is over all histories.',
  [G + 'ref_count.h'], [('ReferenceCount::IncRef/DecRef/OnRefCountIsZero', G + 'ref_count.h')],
  T_OWN, 'all acquire/release/reset histories up to length 7 (9 thorough), with the count compared at every step.',
  observe=['ref_count()', 'deletion of the object'])

P('P02', 'The data buffer factory recycles safely and never hands out a live buffer',
  'Every buffer handed out by the factory has exactly the requested size and one reference and is not any buffer that is '
  'still referenced, whatever mixture of allocations of any sizes, releases and clears came before. Clearing the factory '
  'leaves referenced buffers untouched, and storage is released exactly once: no leak, no double free, no use of freed memory.',
  'histories inputs', 'all bounded allocate/release/clear histories over short, bucketed and long (above the inline limit) sizes',
  'Tests allocate a handful of sizes once; recycling bugs need specific release/reallocate/clear orders and size classes.',
  [G + 'data_buffer.h', G + 'data_buffer.cc'],
  [('DataBufferFactory::Allocate/Recycle/Clear', G + 'data_buffer.cc')], T_OWN,
  'all histories of 4 operations (5 thorough) over three size classes; heap ownership of every object is tracked exactly.',
  state=[('free lists', 'buffers waiting for reuse, by size', G + 'data_buffer.h')], observe=['Allocate() result', 'heap'])

P('P03', 'Data buffer reads, writes and copies touch exactly the addressed bytes',
  'Reading an element of any integer width returns exactly the bytes last written there, writing an element or a span changes '
  'exactly the addressed bytes, and copies (buffer to buffer, to and from memory) reproduce every byte and are independent of their source. '
  'An element index outside the buffer (including negative ones), a span longer than the buffer, or a copy between buffers of different size is rejected by a failed check before memory is touched.',
  'inputs', 'all buffer contents (symbolic bytes), all integer element types, all in-range indices, every out-of-range index',
  'Tests check a few indices with fixed values; off-by-one bounds and width errors depend on element width, buffer size and sign of the index.',
  [G + 'data_buffer.h', G + 'data_buffer.cc'], [('DataBuffer::Get/Set/CopyFrom/CopyTo', G + 'data_buffer.h'), ('MakeCopyOf', G + 'data_buffer.cc')],
  T_BIT, 'contents and out-of-range indices are fully symbolic; buffer sizes and in-range indices are enumerated.',
  observe=['Get<T>()', 'Set<T>()', 'CopyTo()'])

P('P04', 'A submitted data buffer updates its destination exactly once, on time',
  'Submitting a data buffer delivers it to its destination exactly once, immediately for latency zero and otherwise exactly latency cycles later, '
  'whatever the latency, the delay line size and the other updates in flight; with no destination it is silently dropped. '
  'In all cases exactly the submitted reference is consumed, so that the buffer is recycled once and only when nobody holds it any more, including when the delay line is destroyed with updates pending.',
  'histories inputs', 'latencies 0-69, delay line sizes and positions, extra references, several buffers in flight',
  'Tests submit with one or two latencies on a fresh delay line; wrap-around, growth and reference balance need specific combinations.',
  [G + 'data_buffer.h', G + 'data_buffer.cc', G + 'data_buffer_delay_line.h', G + 'delay_line.h'],
  [('DataBuffer::Submit/SetSubmit', G + 'data_buffer.cc'), ('DataBufferDelayRecord::Apply/dtor', G + 'data_buffer.h')], T_EFF,
  'latencies, ring sizes and positions are enumerated; delivery events and reference counts are compared after every cycle.',
  observe=['SetDataBuffer() calls on the destination', 'ref_count()'])

P('P05', 'Delay line entries are performed exactly once, when due, in order',
  'An entry added to a delay line with latency n is performed exactly once, by the n-th following advance, and entries due in the same cycle are performed in the order they were added; '
  'this holds for every initial size, position and latency, across growth of the line, and for entries that an entry being performed adds, also when that addition makes the line grow. '
  'The reported number of pending entries and emptiness always agree with the entries not yet performed, and destroying the line frees everything.',
  'histories inputs', 'add/advance histories over sizes, ring positions and latencies including every power-of-two boundary',
  'Tests use a few latencies on one line; the ring arithmetic fails only at particular size/position/latency combinations.',
  [G + 'delay_line.h'], [('DelayLine::Add/Advance/Resize', G + 'delay_line.h')], T_EFF,
  'one, two and three entries over enumerated sizes, positions and latencies (to 65), plus chained additions.',
  state=[('ring', 'slots indexed by cycle modulo size', G + 'delay_line.h')], observe=['Apply() of the records', 'return values of Add/Advance', 'IsEmpty()'])

P('P06', 'Deferred function calls run exactly once, when due, in order',
  'A function scheduled on a function delay line with latency n is called exactly once, by the n-th following advance, in scheduling order among those due in the same cycle, for every line size, position and latency, also for functions scheduled by a function being called (even when that makes the line grow). '
  'The reported number of pending calls always agrees.',
  'histories inputs', 'as P05 with callables as entries', 'Tests cover a single fixed schedule.',
  [G + 'function_delay_line.h', G + 'delay_line.h'], [('FunctionDelayRecord::Apply', G + 'function_delay_line.h')], T_EFF,
  'two entries over enumerated sizes, positions and latencies.', observe=['calls of the scheduled functions'])

P('P07', 'Program errors are reported, masked, unmasked and cleared exactly as requested',
  'After any sequence of registering, raising, masking, unmasking and clearing program errors, the controller reports exactly the raised and not cleared errors, split into masked and unmasked by their current mask, with exactly the messages raised since they were last cleared; clearing or masking one error never affects another. '
  'Using an unknown or duplicate error name raises the internal simulator error, which cannot be masked.',
  'histories', 'all bounded operation histories over several registered and unregistered names',
  'Tests check a few sequences; stale messages, lost errors or wrong masked/unmasked moves need particular operation orders.',
  [G + 'program_error.h', G + 'program_error.cc'], [('ProgramErrorController', G + 'program_error.cc')], T_EFF,
  'all histories of two operations from eight bookkeeping states (three thorough) on symbolic distinct names.',
  observe=['HasError/HasMaskedError/HasUnmaskedError', 'GetMaskedErrorNames/GetUnmaskedErrorNames', 'GetErrorMessages'])

P('P08', 'Immediate operands read as the C++ conversion of their value in every width',
  'For an immediate operand of any integer type and any value, every typed accessor returns the C++ conversion of the value to the accessor type (sign extension for signed types, zero extension for unsigned, truncation when narrower), and the boolean accessor is true exactly for non-zero; for vector immediates this holds per element. '
  'Shape and text are those given at construction (by default shape {1} and the decimal value; a vector shows its first and last element), and a vector shape that disagrees with the number of elements is rejected.',
  'inputs', 'all values of all eight integer types and all accessors', 'Tests read a few constants; sign extension and truncation errors show only for particular bit patterns.',
  [G + 'immediate_operand.h'], [('ImmediateOperand/VectorImmediateOperand accessors', G + 'immediate_operand.h')], T_BIT,
  'the value and index are fully symbolic; vector lengths 1 to 3.', observe=['AsBool..AsUint64', 'shape()', 'AsString()'])

P('P09', 'Literal operands read as the C++ conversion of their constant in every width',
  'A literal integer or boolean operand returns the C++ conversion of its constant through every typed accessor, whatever index is used, and a literal predicate always evaluates to its constant. '
  'A text or shape given at construction is what the operand reports; without a text it reports the decimal constant.',
  'inputs configurations', 'instantiated constants covering every width boundary and sign, all accessors, any index',
  'Tests instantiate two constants and do not cover negative or wide values in all accessors.',
  [G + 'literal_operand.h'], [('IntLiteralOperand/BoolLiteralOperand', G + 'literal_operand.h')], T_BIT,
  '14 integer constants and both booleans are instantiated; indices symbolic.', observe=['AsBool..AsUint64', 'Value()', 'AsString()'])

P('P10', 'Status registers read exactly the configured conditions and ignore writes',
  'Bit i of a status register read is the current value of the condition configured for bit i, and zero when none is configured, for every register width; a masked read returns only the selected bits and evaluates only the selected conditions. '
  'The source operand returns the same value through every typed accessor, and a data buffer written to the register is consumed exactly once without changing it.',
  'inputs configurations', 'all condition values and masks for all register widths',
  'Tests use a few bits of one width; the high bits, signed widths and mask combinations are not covered.',
  [G + 'status_register.h'], [('StatusRegisterBase::Read/SetEvaluateFunction/SetDataBuffer', G + 'status_register.h')], T_BIT,
  'conditions and masks symbolic at the five boundary bits and uniform elsewhere, plus every single bit.',
  observe=['Read()', 'operand accessors', 'ref_count()'])

P('P11', 'State items report their exact name, shape and byte size',
  'A state item reports the name, shape and element size it was constructed with, and its byte size is the element size times the product of its dimensions. '
  'Wrapper operands return exactly the wrapped object, its name and shape, and never take ownership of it.',
  'inputs configurations', 'all dimensions (no overflow) and element sizes', 'Tests construct one item.',
  [G + 'state_item_base.h', G + 'state_item_base.cc', G + 'wrapper_operand.h'], [('StateItemBase ctor', G + 'state_item_base.cc')], T_BIT,
  'dimensions and element size symbolic up to two dimensions, enumerated for three.', observe=['size()', 'shape()', 'name()'])

P('P12', 'Template expressions evaluate to their arithmetic value or report an error',
  'Evaluating an instruction-set template expression yields exactly the 32-bit signed arithmetic value of the expression with its parameters substituted, for every operand value and nesting; constants are folded, and expressions still containing parameters stay symbolic and evaluate correctly once bound. '
  'A division by zero, an unbound parameter or a failing function is reported as an error status from every enclosing expression, never as a value and never as a crash.',
  'inputs programs', 'all expression trees to depth 3 with symbolic constants, parameters, functions and argument lists',
  'Tests evaluate a few small trees; error propagation through each operator and operand position is not covered.',
  [D + 'template_expression.h', D + 'template_expression.cc'], [('TemplateExpression::Evaluate/GetValue/IsConstant', D + 'template_expression.cc')], T_BIT,
  'trees up to depth 3 with symbolic constants are compared with a reference semantics.', observe=['GetValue()', 'Evaluate()', 'IsConstant()'])

P('P13', 'Template expression trees, results and copies are freed exactly once',
  'Every template expression owns its operands: destroying it frees the whole tree exactly once and nothing else. '
  'Evaluation results and deep copies are independent of the original and of the arguments - each may be destroyed first and the others stay usable - and no path, including every error path, leaks or frees twice.',
  'histories programs', 'all expression shapes to depth 3, success and error paths, either destruction order',
  'Tests do not run under a leak checker and do not cover error paths in each operand position.',
  [D + 'template_expression.h', D + 'template_expression.cc'], [('TemplateExpression destructors, DeepCopy, Evaluate', D + 'template_expression.cc')], T_OWN,
  'exact heap ownership along every partition of evaluation, copying and destruction.', observe=['heap'])

exec(open(__file__.replace('props.py', 'props_more.py')).read())
