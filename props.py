# ---------------------------------------------------------------- software decoders
P('P01', 'Decoders never write outside the output capacity',
  'Whatever bytes a decompressor is given, in any alignment and with any lengths, every byte it stores lies inside the output buffer of the capacity the caller announced, is contiguous with what was produced before, or lies inside its own working storage. A decoder that would run out of room reports an error instead.',
  ['inputs'], 'all compressed inputs (valid or hostile), all input lengths, all output capacities, all buffer alignments',
  'The tests feed a few dozen hand-made streams; the space of hostile bit streams, capacities and alignments is unbounded and an overrun by a few bytes is usually silent.',
  [SWD, OPD], [('capacity tests before each template, repeat and zero run', SWD + ':do_op'), ('error-handling checks in read_bits / do_data / do_index', OPD)],
  state=[('p.out / p.olen', 'next output byte and remaining capacity')], observe=['bytes stored through the output pointer'],
  level='proof', technique=AI + ', store bounds obligations', note='Every store of both software decoders is proved inside its object for all inputs up to 2^47 bytes; fixpoint, no bounds on loop iterations.')
P('P02', 'Decoders read only the given input and bytes already decoded',
  'While decoding any byte string, a decompressor reads only bytes inside the input of the announced length, constant tables, and output bytes it has itself already produced in this call; back references never reach before the start of the output or ahead of what was produced. The input is never modified.',
  ['inputs'], 'all compressed inputs, input lengths (also lengths that are not a multiple of 8), capacities and alignments',
  'Over-reads of a few bytes and references to not-yet-written output give no visible failure in ordinary tests; hostile indices and truncation points are too many to sample.',
  [SWD, OPD], [('truncation tests while fetching bits', SWD + ':next_bits'), ('offset-in-window test of index templates', SWD + ':__do_index'), ('read_word / error path', OPD)],
  observe=['loads through the input and output pointers'],
  level='proof', technique=AI + ', load bounds and produced-prefix obligations', note='Every load of both software decoders is proved inside its object and, for the output, inside the produced prefix.')
P('P03', 'Decoder result contract: success length, errors leave length zero',
  'A decompression call either returns 0 and reports as output length exactly the number of bytes it produced, or returns a negative error code and reports the output length 0; it never leaves by another route. Callers can therefore trust the length without inspecting partial output.',
  ['inputs'], 'all inputs, all lengths, all exits of the decoder',
  'Error exits are many (each bit fetch, index, capacity and checksum test) and tests look at the return code of a handful.',
  [SWD, OPD], [('*olen is cleared on entry and set once at the end', SWD + ':sw842_decompress'), ('same', OPD + ':optsw842_decompress')],
  observe=['return value and *olen'],
  level='proof', technique=AI + ', exit-state obligations', note='All abstract exit states are checked; the produced prefix is a ghost variable updated by every store.')
P('P04', 'Decoders are free of undefined operations and failing assertions',
  'For every input a decompressor performs no shift by the operand width or more, no division by zero, no access through a null or misaligned pointer where alignment is required, no bad free, and no assertion in it can fail. A corrupt stream can only lead to an error return, never to an abort.',
  ['inputs'], 'all compressed inputs, lengths, capacities and alignments',
  'Bit positions, templates and lengths combine into states the tests do not reach, and undefined shifts are silent on the test machine.',
  [SWD, OPD], [('bit position arithmetic', SWD + ':next_bits'), ('alignment fallback at entry', OPD)],
  level='proof', technique=AI + ', shift/division/alignment/assert obligations', note='All such operations on all abstract paths are proved defined.')

P('P05', 'Compressors stay inside their buffers and report errors with length 0',
  'Whatever the input, its length and the output capacity, a compressor reads only bytes of the input, writes only inside the announced output capacity and inside its own tables, and never reports more output than the capacity. When the output does not fit, it returns an error and reports the output length 0; a failed compression never looks like a successful one.',
  ['inputs'], 'all inputs and input lengths, all capacities (none, too small anywhere in the stream, exact), all bit positions at which room runs out',
  'Running out of room at each bit position of each template, or reading a word past a short tail, is hit only by particular sizes; an overrun by a few bytes is usually silent.',
  [SWC, OPC, 'src/serial_optimized/bitstream.cpp'],
  [('room tests of the bit writer', SWC + ':add_bits'), ('padding of the output', SWC + ':sw842_compress'), ('end-of-buffer test of the bit buffer', 'src/serial_optimized/bitstream.cpp:stream_write_word'), ('error translation', OPC + ':optsw842_compress')],
  state=[('p->olen / stream->end', 'remaining capacity')], observe=['bytes stored through the output pointer', 'return value and *olen'],
  level='other', technique=BP, note='Every reachable bit position with and without pending repeats, with 0 to 39 bytes of capacity left (more capacity is never reached within one block), each template length, all ends of the input; plus inputs of 0-8 and 15 bytes with every capacity below 40. Stores and loads are compared with the symbolic bounds. Capacities of 2^47 bytes or more and allocation failure inside the hash tables are outside the claim.')

# ---------------------------------------------------------------- the format
P('P15', 'Decoders implement the 842 format for every template and history',
  'From every point of any 842 stream, a decompressor decodes the next template exactly as the format defines it: literal fields are the stream bits most significant first; an index of a 2-, 4- or 8-byte field (8, 9, 8 bits) names that slot of the last 512, 2048 or 2048 bytes of output before the current 8-byte group; REPEAT copies the previous group count+1 times; ZEROS yields eight zero bytes; SHORT_DATA (reference decoder) yields its bytes; END stops and reports the number of bytes. Every such template is accepted when the input it needs and the output room it needs are present, even with nothing to spare, independent of the bit position at which it starts; opcodes that do not exist are rejected.',
  ['inputs', 'histories'], 'all streams: all templates and field values, all bit positions, all positions of the output within the reference windows, all histories, exact-fit input lengths and capacities',
  'There are 26 templates, 64 bit positions and 256 window positions, each with arbitrary fields: the six test patterns reach a tiny part, and a wrong corner (window wrap, fetch that straddles words, exact capacity) decodes most data correctly.',
  [SWD, OPD, 'src/common/842.h', 'src/common/opcodes.h'],
  [('template table and field walk', SWD + ':do_op'), ('bit fetch', SWD + ':next_bits'), ('window arithmetic', SWD + ':__do_index'), ('template switch', OPD), ('bit buffer', OPD + ':read_bits'), ('window arithmetic', OPD + ':do_index')],
  state=[('bit position and buffered bits', 'next unread stream bit'), ('output position modulo the windows', 'what indices refer to')], observe=['output bytes, *olen and return value'],
  level='other', technique=BP, note='Bit-provenance fixpoint over all loop-header states with symbolic positions; window arithmetic is enumerated for all 256 output positions modulo 2048 and the first 2048 bytes. Values the domain cannot express are reported as imprecise, not as violations.')
P('P06', 'Success is reported only if the trailing CRC matches the output',
  'A decompressor returns success only if the 32 bits after the END opcode equal the CRC-32 (polynomial 0x04c11db7, most significant bit first, initial value 0) of exactly the bytes it wrote; a stream whose checksum matches is not rejected for its checksum and one that differs never passes. The checksum routine computes that CRC for any data, length and alignment, in compressors and decompressors alike.',
  ['inputs'], 'all streams, output lengths, bit positions of the checksum; all data, alignments and lengths up to the bound for the routine itself',
  'Corruption that must be caught by the CRC is arbitrary; a test with one corrupted stream cannot show that no corruption passes, for instance for empty output or a comparison of fewer bits.',
  [SWD, OPD, 'src/common/crc32.h', 'src/common/crc32table.h'],
  [('comparison after END', SWD + ':sw842_decompress'), ('comparison after END', OPD + ':optsw842_decompress'), ('slice-by-8 checksum', 'src/common/crc32.h:crc32_body')],
  observe=['return value against the 32 bits after END'],
  level='other', technique=BP + '; GF(2) linear forms for the checksum', note='Every return after END carries the comparison of all 32 bits with crc32_be(0, out, bytes written) on its path, from every bit position. The routine is shown equal to the polynomial remainder, for symbolic data, for lengths up to 67 (199 in the thorough tier) and all alignments.')

P('P23', 'Compressed output decodes, by the 842 format, to exactly the input',
  'Whatever the input, when a compressor returns success its output is a well-formed 842 stream that describes exactly the input: for every 8-byte block the emitted template (literal, index, REPEAT or ZEROS) decodes by the format definition to that block, whatever the bit position, the pending repeats and the history of earlier blocks; indices name the slot of the reference window that holds the data they stand for; trailing bytes (reference compressor) are emitted as SHORT_DATA; END, the CRC of the input and zero padding close the stream, and the output length counts exactly these bytes. Together with P15 and P06 this is the round trip.',
  ['inputs', 'histories'], 'all block contents and histories of blocks, all bit positions and repeat counts, all positions of a block within the reference windows, all tails of 0 to 7 bytes',
  'The templates, bit positions, repeat counts and the contents of the look-up tables combine into far more cases than six test patterns; an encoder corner (unit straddling, a repeat flushed before another template, a history slot written late) corrupts only unusual data.',
  [SWC, OPC, 'src/serial_optimized/bitstream.cpp', 'src/common/842.h', 'src/common/opcodes.h'],
  [('template choice and emission', SWC + ':process_next'), ('bit writer', SWC + ':add_bits'), ('history and hash tables', SWC + ':update_hashtables'), ('template choice and emission', OPC), ('bit buffer', 'src/serial_optimized/bitstream.cpp')],
  state=[('bit position and buffered bits', 'next bit to be written'), ('repeat count', 'blocks equal to the previous one that are not emitted yet'), ('history tables', 'data an index of the format stands for')],
  observe=['bytes written, *olen and return value'],
  level='other', technique=BP, note='All header states (bit position x pending repeats) of both compressors, all paths of one block from a general state, and 256 positions of a block for the tables. The contents of dynamically allocated look-up nodes are unknown (any outcome possible), so removal of outdated nodes of the reference compressor is outside the claim; allocation failures may end in any error.')

# ---------------------------------------------------------------- all C entry points
P('P07', 'Compression and decompression calls are reentrant',
  'Calls of the compression and decompression functions may run concurrently in any number of threads on different buffers: no call, in any back end, reads or writes mutable state shared with other calls. Tables are constant, working memory is per call or per thread, and no non-reentrant library function is used.',
  ['schedules', 'histories'], 'all interleavings of calls from any number of threads, and all call histories within a thread',
  'Shared scratch state corrupts data only in rare interleavings; tests call the codecs from one thread at a time or do not compare results under contention.',
  [SWC, SWD, OPC, OPD, 'src/common/crc32.h', 'src/common/crc32table.h', 'src/common/opcodes.h', 'src/ocl/842_interface.cpp'],
  [('constant opcode and CRC tables', 'src/common'), ('per-call working memory', SWC), ('thread-local scratch', OPC)],
  observe=['writes to objects with static storage reachable from the exported functions'],
  level='other', technique='interprocedural effect analysis over LLVM IR (writes to static storage, non-reentrant callees)', note='Every store, atomic operation and call reachable from every exported C function and implementation table is classified by the object it may reach.')
P('P08', 'C entry points never let a C++ exception escape',
  'Functions callable from C report failures through their return value: no C++ exception raised anywhere below them, for any input, leaves a function with C linkage, and no exception of the project is thrown through a function declared not to throw, which would terminate the process.',
  ['inputs', 'fault_sequences'], 'all inputs, all failures of allocation and of the OpenCL runtime',
  'Exceptions on error paths (truncated input in the optimised decoder, failing OpenCL calls, memory exhaustion) are rarely or never raised in tests and then terminate the calling C program.',
  [OPD, OPC, 'src/ocl/842_interface.cpp', 'src/ocl/cl.cpp'], [('error-code translation of exceptions', 'src/ocl/842_interface.cpp'), ('ERROR handling mode', OPD)],
  observe=['exception types leaving exported functions'],
  level='other', technique='interprocedural exception-type flow over LLVM IR (throws, invokes, landing pads, noexcept)', note='All throw sites and throwing library calls reachable from each C function are propagated through landing-pad clauses.')

P('P09', 'Chunked calls are equivalent to one call per chunk',
  'A call of a chunked compression or decompression function has, for every chunk that is not marked as skipped (length SIZE_MAX), exactly the effect of one single-chunk call on the input at start + i*istride and the output at start + i*ostride with the length and capacity of that chunk; its result and output length are stored for that chunk, and failures of one chunk do not influence the others. Skipped chunks are not touched. The combined result is 0 if every chunk succeeded or only ran out of output space, and otherwise an error that a chunk reported.',
  ['inputs', 'configurations'], 'all numbers of chunks, strides, lengths, capacities and all combinations of chunk results',
  'Tests use few small chunks of one size that all succeed; mixed results, skipped chunks and offsets beyond 32 bits are not sampled.',
  ['src/common/trivial_chunked.h', SWC, OPC, 'include/lib842/common.h'], [('loop over the chunks', 'src/common/trivial_chunked.h')],
  observe=['calls of the single-chunk functions and the arrays rets and olens'],
  level='other', technique='scalar-evolution (affine recurrence) analysis of the chunk loop plus product-automaton fixpoint over chunk result classes', note='All numbers of chunks and all strides (symbolic), all sequences of result classes.')
P('P21', 'Implementation tables bind each operation to its own function',
  'The implementation description returned for a back end contains for each operation (single and chunked, compression and decompression) the function of that back end and operation, is never modified, and announces alignments that are powers of two with required not above preferred.',
  ['configurations', 'histories'], 'all operations through the table, at any time',
  'Tests call the functions directly; the tables are only used by streams and samples.',
  [SWC, OPC, 'include/lib842/common.h'], [('static table', SWC + ':get_sw842_implementation')],
  level='other', technique='constant-initialiser analysis of the returned object over LLVM IR, with who-writes query', note='Every slot of every table that builds here.')

# ---------------------------------------------------------------- streams
P('P10', 'Stream state shared between threads is always protected',
  'In the compression and decompression streams every piece of mutable state that more than one thread can touch is accessed only under one common lock, as an atomic, or in phases that cannot overlap (construction, joined destruction, barrier-separated phases). No schedule can produce a data race.',
  ['schedules'], 'all interleavings of API calls and worker threads',
  'A data race shows up in rare interleavings and often has no visible effect on the test machine.',
  STF, [('mutex taken by API calls and worker loops', CS), ('atomic offset counter', CS)],
  level='other', technique='lockset dataflow over LLVM IR with phase (barrier/join) reasoning', note='All field accesses of both stream classes, including through lambdas and inlined helpers, are classified; sound for the lock discipline the analysis models.')
P('P11', 'A stream worker never sleeps through work or shutdown',
  'Whenever an API call or another worker makes a condition true on which stream threads may be blocked, it does so under the lock of that wait and afterwards wakes enough of the waiting threads. Waits are re-evaluated in a loop, so no wakeup can be lost and no spurious wakeup is misread.',
  ['schedules', 'histories'], 'all interleavings of start, push, finalize, destruction and the worker threads',
  'A lost wakeup needs a narrow interleaving between testing the condition and blocking; tests pass almost always.',
  STF, [('condition variables with predicates', CS), ('notify after each change', DS), ('barrier and latch', 'include/lib842/detail/barrier.h')],
  level='other', technique='wait-predicate extraction and enabling-write/notify must-analysis over LLVM IR', note='Every wait is paired with every write that can enable its predicate.')
P('P12', 'Destroying a stream always terminates its threads and joins them',
  'Destroying a stream at any moment makes every worker thread leave its loop without waiting again for work, and the destructor waits for all threads before the state they use goes away. No thread outlives the stream and destruction cannot hang.',
  ['schedules', 'histories'], 'destruction at any point of any history of operations',
  'Tests destroy streams only after finished operations; destruction during waiting, processing or finalising needs specific timing.',
  STF, [('quit flag set under lock, all waiters notified, threads joined', CS), ('same', DS)],
  level='other', technique='path exploration over LLVM IR with sticky quit flag, join and member-order analysis', note='Every wait point of the worker loops is explored with the quit flag set.')
P('P13', 'A finished stream operation calls back exactly once with the right status',
  'After finalisation is requested, the callback is invoked exactly once, after all workers have stopped processing the operation, with success exactly if no compression or decompression step failed; a failed block is never delivered as data and remaining work of a failed or cancelled operation is dropped. The stream is then ready for the next operation.',
  ['schedules', 'histories', 'fault_sequences'], 'all interleavings of workers, all sequences of operations, failures of any chunk, cancellation',
  'The status depends on which worker fails when; tests only finish good operations.',
  STF, [('finalize barrier and worker 0', CS), ('error flag under lock', DS)],
  level='other', technique='interprocedural path exploration over LLVM IR of the completion protocol', note='All paths of one full worker iteration, under all combinations of the protocol flags.')
P('P14', 'Locks are ordered and no user callback runs under a stream lock',
  'Stream and synchronisation-helper locks are never acquired in a cyclic order or twice by the same thread, are released on every path including exceptional ones, and user callbacks are not called while holding a lock that the callback may need. Therefore no interleaving can deadlock on the locks themselves.',
  ['schedules'], 'all interleavings, all call paths including exception edges',
  'Deadlock needs two threads at particular points; callbacks in tests do not call back into the stream.',
  STF, [('scoped locks', CS), ('callbacks are moved out and called after unlocking', DS)],
  level='other', technique='lock-order graph and lock-balance dataflow over LLVM IR', note='All lock sites and call paths of the stream units.')

# ---------------------------------------------------------------- not addressed
P('P91', 'Compression chooses a template whose cost is minimal',
  'For each 8-byte block the encoders select a representation whose bit cost is minimal among those permitted by the current history, so compressible data shrinks.',
  ['inputs'], 'all inputs', 'Tests only bound the ratio for six patterns.', [SWC, OPC], [('template table ordered by cost', SWC)],
  na='Optimality depends on run-time hash-table contents and is a quantitative property over histories; no sound static argument in reach.')
P('P92', 'Hardware and GPU back ends agree with the reference decoder',
  'Hardware-assisted and GPU back ends produce the same bytes and error results as the reference software decoder.',
  ['inputs', 'configurations'], 'all inputs on all back ends', 'The build machine has no such hardware; only the CPU OpenCL path runs.',
  ['src/cryptodev/842_interface.c', 'src/aix/aix.c', 'src/cuda/842_decompress.cu', 'src/hls/842_decomp.cpp'], [('separate implementations', 'src/cuda/842_decompress.cu')],
  na='AIX, cryptodev, CUDA and HLS sources do not compile here (missing vendor headers and toolchains) and functional equality is not a static property in reach.')
