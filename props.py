"""The single table behind properties.jsonl and MANIFEST.json."""
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique=None, level_note=None, level='other', na=None, **kw):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
         'anchors': dict({'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}, **kw),
         'technique': technique, 'level_note': level_note, 'level': level}
    if na:
        d['na'] = na
    PROPS.append(d)


P('M01', 'Memory accounting balances on every path, including failures',
  'Obtaining memory through the library\'s allocation functions or its standard-container allocator raises the reported memory usage by exactly the size of what is handed out, and releasing it lowers the usage by the same amount and releases the storage exactly once. If the allocation, the element constructor or the accounting itself fails with an exception, neither usage nor storage remains behind. A per-owner memory bucket, when attached, changes by exactly the same amounts.',
  ['inputs', 'fault_sequences'], 'every element type, element count and allocation API, and every point at which an allocation or constructor can throw',
  'Unit tests allocate a few types successfully; they do not make constructors, operator new or the accounting throw at each point, and Release builds do not report a drifting counter.',
  ['tpie/memory.h', 'tpie/memory.cpp'],
  [('tpie_new / tpie_delete / arrays', 'tpie/memory.h'), ('allocator', 'tpie/memory.h')],
  'balance/typestate dataflow over normalised LLVM IR of all allocation entry points',
  'All paths incl. exceptional edges of the instantiated entry points (trivial, class, array, polymorphic, derived); amounts compared as linear forms in the element count. Trusts clang\'s lowering and that logging does not throw.')

P('M02', 'Resource limits: refused requests throw and leave usage unchanged',
  'A request to increase the usage of a limited resource is refused with an exception exactly when the policy says to throw, a limit is set, and the usage including the request would exceed it; under every other policy it is granted. A granted request raises the usage by exactly the amount, a refused one leaves it unchanged, and giving back lowers it by exactly the amount, with no update lost when threads do this concurrently. The reported available amount is the limit minus the usage, or zero if the usage is not below the limit.',
  ['inputs', 'schedules', 'configurations'], 'all policies, limits, usages and request sizes, and all interleavings of concurrent requests',
  'Tests exercise the warn policy with a handful of sizes on one thread; lost updates and the state after a refusal are not observed.',
  ['tpie/resource_manager.cpp', 'tpie/resource_manager.h'],
  [('increase / decrease / available', 'tpie/resource_manager.cpp')],
  'decision-table exploration of the CFG with abstracted conditions; atomicity effect rule',
  'Complete over policy x (usage>limit) x (limit set); counter updates must be atomic read-modify-writes. Trusts std::atomic.')


P('M03', 'Arrays own exactly their elements, also when an operation fails',
  'After every construction, resize, assignment, move, swap or destruction of a tpie::array, and also after one that ends in an exception, each array involved either has size zero and no storage or owns storage for exactly its size with every element constructed once; no storage or element is leaked, released twice or shared. Afterwards the elements are what the operation says: copies of every element of the other array or of the given value, or the elements moved or exchanged, with the size requested. An attached memory bucket counts exactly the bytes of the elements of the arrays attached to it.',
  ['inputs', 'fault_sequences', 'histories'], 'every size, every state of the arrays involved (empty, default constructed or filled storage, same array on both sides, array views), with and without bucket, both kinds of allocator, and every point at which obtaining memory or copying an element can throw',
  'Tests resize and copy arrays of integers successfully; they do not let the k-th element copy or an allocation inside resize fail and then destroy the array.',
  ['tpie/array.h', 'tpie/memory.h'],
  [('tpie::array and bits::allocator_usage', 'tpie/array.h')],
  'ownership typestate over all paths with induction over the element loops (value flow on normalised LLVM IR)',
  'Instantiated with an element class whose every operation may throw and with TPIE\'s and a foreign allocator; loops are followed from generalised states for any number of elements. The allocation functions are taken to behave as M01 checks and std::uninitialized_copy/fill as the standard says; destructors do not throw; the value passed to resize is not an element of the array itself.')

P('M04', 'Moving or swapping an object carries every one of its parts over',
  'After a move construction, move assignment or swap, every member of the target (of all its bases, with members that are themselves objects) holds what the same member of the source held before, in both directions for a swap, and an assignment returns its target. What the source owned and the target now owns is given up by the source. References other objects keep to the moved object (the node map of a pipeline, the ends of a virtual chunk) name the moved-to object afterwards.',
  ['inputs', 'histories'], 'every state of the two objects, for pipelining nodes and factories, virtual chunk ends, progress indicators, packed arrays, tiny containers, B-tree stores, memory bucket references, allocators and uncompressed streams',
  'Tests move freshly made objects and look at one or two members afterwards; a member left behind (a dirty flag, metadata, registered data structures) shows only for particular states of the source.',
  ['tpie/pipelining/node.cpp', 'tpie/pipelining/virtual.h', 'tpie/pipelining/pair_factory.h', 'tpie/progress_indicator_base.cpp', 'tpie/progress_indicator_subindicator.cpp', 'tpie/file_stream_base.h', 'tpie/packed_array.h', 'tpie/tiny.h', 'tpie/btree/internal_store.h', 'tpie/btree/serialized_store.h', 'tpie/btree/external_store_base.cpp'],
  [('move constructors, move assignments and swap members', 'tpie')],
  'member-wise value flow: layouts from debug information, contents of every member traced through the operation on all paths (normalised LLVM IR)',
  'Standard library members are taken to move and swap as the standard says. m_piProxy and m_resourceBeingAssigned of nodes are excepted: nodes move only before their pipeline is run, when both hold their defaults. Classes are instantiated with representative template arguments; tpie::array is covered by M03.')



FA = ['tpie/file_accessor/posix.inl', 'tpie/file_accessor/posix.h']
SA = ['tpie/file_accessor/stream_accessor_base.inl', 'tpie/file_accessor/stream_accessor_base.h']

P('F01', 'File descriptors are opened, counted and closed exactly once on every path',
  'A raw file accessor holds either no file or exactly one open descriptor which is counted once in the open file limit: a successful open ends with one open and counted descriptor, a failed open leaves none open and none counted, and close releases it and its count exactly once, also when the close itself reports an error. Opening a stream first closes the one already open, and when opening a stream fails for any reason (missing file, invalid header, I/O error, open file limit) no descriptor and no count is left behind.',
  ['fault_sequences', 'inputs', 'configurations'], 'every open mode, every failing system call or refused limit, every order of open and close',
  'Leaks and double closes are invisible to tests that only open valid files successfully; they matter after many failures in a long running process.',
  FA + SA, [('open_ro/open_wo/try_open_rw/open_rw_new/close_i', 'tpie/file_accessor/posix.inl'), ('stream_accessor_base::open/close', 'tpie/file_accessor/stream_accessor_base.inl')],
  'typestate (descriptor, count) over all paths of the IR including exceptional edges',
  'All paths of every raw open/close method and of stream open/close with the raw layer summarised. Trusts that decreasing a resource count does not throw and POSIX open/close semantics.')

P('F02', 'Short transfers are continued and failing system calls are reported',
  'Reading or writing a given number of bytes of a file either transfers exactly those bytes, continuing after short transfers at the position reached, or ends in an exception; it neither returns early, nor repeats or skips bytes, nor loops without progress. Every failing system call of the file layer ends in an exception, which is the out-of-space exception when the device is full and an I/O exception otherwise; only try-open-for-update reports a missing file through its result.',
  ['fault_sequences', 'inputs'], 'every transfer length, every sequence of short transfers and every failing call',
  'Kernels rarely return short counts or errors for files in a test directory, so the continuation and error branches are never executed by the tests.',
  FA, [('read_i/write_i/throw_errno', 'tpie/file_accessor/posix.inl')],
  'loop-invariant value flow (affine forms) over the transfer loops; error-result dataflow for each system call',
  'All paths; positions and lengths are affine in the bytes already transferred. Trusts that write() of a positive number of bytes does not return 0.')

P('F03', 'Opening validates the file header and refuses bad files untouched',
  'Opening an existing stream file for reading throws an invalid-file exception when its magic number, version, item size, block size, user data size (greater than its maximum) or clean-close mark is wrong, before anything is written to the file. A file with a correct header is accepted in every mode, and one with less room for user data than requested is refused when opened for writing. The magic number and version checked are those that new files are given.',
  ['inputs', 'configurations'], 'every header content and access mode',
  'Tests open files that were just written by the same code; they do not enumerate each way a header can be wrong.',
  SA, [('validate_header, read_header, open', 'tpie/file_accessor/stream_accessor_base.inl')],
  'path-sensitive value flow of header fields from the bytes read to the comparisons, one exploration per mismatch',
  'Complete over access mode x {correct, each field wrong}. The raw file operations are assumed to behave as F01 and F02 check.')

P('F04', 'Stream files are marked dirty while writable and clean only by close',
  'When opening a stream for writing has returned, the header on disk carries the not-closed-properly mark, and a header with the clean mark is written only by close, after everything else and immediately before the file is closed. A stream that is open read-only, or not open, has nothing written to its file by open or close.',
  ['crash_points', 'histories'], 'every point at which the process may stop, every access mode',
  'Tests always close streams; the mark matters only when the process stops at an arbitrary point while the stream is open.',
  SA, [('open, close, write_header, fill_header', 'tpie/file_accessor/stream_accessor_base.inl')],
  'path-sensitive value flow of the header image written, compared at each exit and crash-ordering rule',
  'All paths of open and close; ordering is that of the write calls issued (the kernel keeps the order for process crashes; power failures are out of scope, as the library never syncs).')

P('F05', 'What closing a stream records in the header is what the next open restores',
  'Every header written holds the current size, user data size, maximum user data size, last block position and compression mark, as well as the item and block size, of the stream; opening an existing file restores exactly these from the corresponding fields. A new file starts with size zero, no user data and the requested sizes.',
  ['inputs', 'histories'], 'all values of all fields and every access mode',
  'Tests compare a few values that are often zero or equal, so swapped, missing or stale fields go unnoticed.',
  SA, [('fill_header, read_header, open', 'tpie/file_accessor/stream_accessor_base.inl')],
  'value-flow agreement between the header writer and reader (symbolic field identity)',
  'All fields and all paths of open and close with member values symbolic.')

P('F10', 'Blocks, bytes and user data are written and read at the same, disjoint places',
  'Reading block or byte number n of a stream file uses exactly the file position at which writing it puts it, returns the items of the request that exist and no more, and truncation cuts the file exactly behind the items or bytes kept. Writing grows the recorded size to the end of what was written and never shrinks it; header, user data and data area never overlap, and user data larger than the maximum is refused.',
  ['inputs'], 'all block numbers, byte positions, counts, item and block sizes, and amounts of user data',
  'Tests use a few sizes and always round trip through the same functions, so overlap at particular user data sizes or off-by-one positions at the end of file are not sampled.',
  SA + ['tpie/file_accessor/stream_accessor.h', 'tpie/file_accessor/byte_stream_accessor.h'],
  [('read_block/write_block', 'tpie/file_accessor/stream_accessor.h'), ('read/write/append', 'tpie/file_accessor/byte_stream_accessor.h'), ('header_size, truncate', 'tpie/file_accessor/stream_accessor_base.h')],
  'value flow: file positions and lengths as affine forms over arguments and members, compared between sibling operations',
  'Exact over symbolic arguments, ignoring integer overflow; a stream wider than 2^63 bytes is out of scope.')

P('F09', 'Temporary files disappear with their last reference, persistent ones never',
  'When the last reference to a temporary file goes away, exactly its own path is removed if it has one, is not persistent and exists; nothing is removed earlier, nor for a persistent or pathless file. Its name is generated once, when first asked for, and does not change. Recording a size changes the reported temporary file usage by the difference to the size recorded before, and removal gives back what was recorded.',
  ['histories', 'inputs'], 'every order of taking and releasing references, all paths and persistence settings, existing and missing files',
  'A file that is leaked, removed too early or miscounted shows up long after the operation that caused it, or only in the disk usage of a long running process.',
  ['tpie/tempname.cpp', 'tpie/tempname.h'], [('temp_file_inner', 'tpie/tempname.cpp'), ('intrusive_ptr_add_ref/release', 'tpie/tempname.cpp')],
  'path-sensitive value flow with symbolic paths and counts over constructor, destructor, counting and size recording',
  'Complete over path empty/set x persistent x existing x references left. Trusts boost::intrusive_ptr and std::filesystem.')

P('F11', 'Temporary files go to the right directory under fresh names and are cleaned up',
  'Temporary files are placed in the configured default path if set, else in AMI_SINGLE_DEVICE, else TMPDIR, else the system directory; set_default_path falls back to the parent directory when the subdirectory cannot be used. A generated name lies in the directory given or in the current temporary directory (created when there is none), carries the base name, given part, random characters and extension, and an already existing name in a given directory is refused. Finishing removes every temporary directory that was created, once, and nothing else.',
  ['configurations', 'histories'], 'every combination of configured path, environment variables, existing directories and failing directory operations, every order of changing the default path and creating files',
  'Tests run with one environment and one directory; they neither see what is left on disk at exit nor the fallback branches.',
  ['tpie/tempname.cpp', 'tpie/tempname.h'], [('get_actual_path, set_default_path, tpie_name', 'tpie/tempname.cpp'), ('finish_tempfile', 'tpie/tempname.cpp')],
  'symbolic string/path value flow over every combination of configuration and file system answers',
  'Complete over the listed configurations for stacks of up to four remembered directories; the randomness of std::random_device is trusted.')

P('T01', 'Statistics count every transferred byte exactly once',
  'Every successful read or write of a raw file counts exactly the bytes moved in the bytes-read or bytes-written statistics, once, and a failing one counts nothing, whatever sequence of short transfers occurs. Changing a statistics counter is one atomic addition of exactly the amount given, so that concurrent updates are not lost, and each getter returns its own counter. User counters with an index out of range read as zero and are not changed.',
  ['schedules', 'fault_sequences', 'inputs'], 'all transfer lengths and sequences of short or failing transfers, all interleavings of updates, all indices',
  'Tests do not compare the counters with what was transferred under short or failing transfers, and cannot observe lost updates or out-of-range writes reliably.',
  ['tpie/stats.cpp', 'tpie/stats.h', 'tpie/file_accessor/posix.inl'], [('increment_* / get_*', 'tpie/stats.cpp'), ('read_i/write_i', 'tpie/file_accessor/posix.inl')],
  'atomic-effect rule and affine value flow (bytes moved minus bytes counted is zero at every exit)',
  'All paths of the transfer loops and the statistics functions. Trusts std::atomic; a temporary file usage that is already negative may be reset.')

P('G01', 'Initialisation and shutdown treat exactly the same subsystems, in safe order',
  'For every combination of subsystem flags, tpie_init initialises exactly the subsystems asked for, once each, and tpie_finish with the same flags finishes exactly those (and the temporary files if asked to). A subsystem is initialised after and finished before the ones it uses: the memory manager outlives everything that allocates tracked memory and the buffer pool and job threads end before what they use.',
  ['configurations'], 'all 256 combinations of the eight subsystem flags',
  'Tests initialise with the default flags only; a subsystem left initialised or finished in the wrong order is not visible in them.',
  ['tpie/tpie.cpp', 'tpie/tpie.h'], [('tpie_init, tpie_finish', 'tpie/tpie.cpp')],
  'exhaustive path exploration of the flag conditions to the calls made, with an order rule',
  'Complete over the flag combinations; what each init/finish function does is not part of this property. Initialisers are assumed not to throw.')

P('F06', 'An uncompressed stream reads, writes and seeks as an array of items of its size',
  'Reading or writing at position p of an uncompressed stream (single items, arrays, peek and read_back) touches exactly item p, advances or steps back by the items transferred, and a stream ends exactly where the last item written or the last truncation put its end. Reading beyond the end throws end_of_stream_exception and seeking outside the stream throws, in both cases leaving position and size alone; offset, size, can_read and can_read_back agree with that. Modified blocks are written, with their own number and as many items as they hold, before the buffer is used for another block or the file is truncated or closed, and a failed read or write leaves the stream in a consistent state.',
  ['histories', 'inputs', 'fault_sequences'], 'every sequence of operations (by induction over the states of a stream), all positions, sizes and block sizes, all failures of block transfers',
  'A stream has position, buffer, pending block and unwritten data; tests sample short sequences of operations, and never failing transfers in the middle.',
  ['tpie/uncompressed_stream.h', 'tpie/file_stream_base.h', 'tpie/stream_crtp.h', 'tpie/stream_crtp.inl', 'tpie/file_base_crtp.h', 'tpie/file_base_crtp.inl'],
  [('read, write, peek, skip', 'tpie/uncompressed_stream.h'), ('seek, offset, read_array, write_array', 'tpie/stream_crtp.h'), ('get_block, flush_block, truncate, close', 'tpie/file_stream_base.h'), ('read_block', 'tpie/file_base_crtp.inl')],
  'inductive invariant check: affine value flow with products of block number and block size, from every state the representation invariant allows',
  'Complete for one item type and the pointer iterators over symbolic block size, position and size; loops of the array operations are cut at their heads with the same invariant. Ignores integer overflow; the file accessor behaves as F10 checks.')


P('F07', 'Streams of one tpie::file share its blocks and act as arrays of items',
  'Reading or writing at position p of a stream of a tpie::file touches exactly item p of the file, whichever streams are attached; position, size and ends behave as specified for file streams, also when reading or writing a block fails. Two streams on the same block share one buffer, which is read once, counted once per stream and written back when the last of them lets go of it; a stream gives back exactly the blocks and buffers it was given, and truncation is refused while blocks are in use. Truncating sets the size of the file and of its temporary-file record, and closing or destroying a file or stream releases its accessor and buffers exactly once.',
  ['histories', 'inputs', 'fault_sequences'], 'every sequence of operations of any number of attached streams (by induction over the states of a stream), all positions, sizes and block sizes, all failures of block transfers and allocations',
  'Streams interact through blocks shared by number and usage count; tests attach one or two streams and never fail a transfer or an allocation.',
  ['tpie/file.h', 'tpie/file_base.h', 'tpie/file_base.cpp', 'tpie/stream_crtp.h', 'tpie/stream_crtp.inl', 'tpie/file_base_crtp.inl'],
  [('read, write', 'tpie/file.h'), ('get_block, free_block, attach, detach', 'tpie/file_base.cpp'), ('truncate, write_update', 'tpie/file_base.h')],
  'inductive invariant check: affine value flow over stream states, blocks by contract; get_block and free_block compared with the contract over opaque lists',
  'Complete for one item type over symbolic block size, position and size, with the intrusive lists as opaque sequences. Ignores integer overflow and races between threads; the file accessor behaves as F10 checks.')

P('F08', 'A file_stream, compressed or not, reads and writes as an array of items',
  'Each read, peek, skip, read_back, skip_back and write of an open file_stream touches exactly the item its position calls for and moves by one; seek, set_position, truncate, offset, size, can_read, can_read_back, get_position and the user data operations act and answer as specified, in whatever order they are called, and what they refuse leaves position and size alone. Each modified block is written, with its number, item count and place in the file, before its buffer is given up, the file is truncated behind it or the stream is closed, blocks of a compressed file are rewritten or appended only at its end, and a block is read only from where it is. Positions reported by get_position name the block that holds them, closing records size and last block, and no operation waits for something that does not come.',
  ['histories', 'inputs', 'schedules'], 'every sequence of operations (by induction over the states of a stream), all positions, sizes and block sizes, every progress the compressor thread may have made',
  'What an operation does depends on buffer, pending seek, unwritten block, cached counts, known read offsets and how far the compressor thread has come; tests sample a few sequences over a few blocks.',
  ['tpie/compressed/stream.h', 'tpie/compressed/stream_base.cpp', 'tpie/compressed/buffer.h'],
  [('read, read_back, peek, write', 'tpie/compressed/stream.h'), ('perform_seek, flush_block, read_next_block, read_previous_block, truncate_*', 'tpie/compressed/stream_base.cpp'), ('get_position, set_position, seek, close, open', 'tpie/compressed/stream_base.cpp')],
  'inductive invariant check: affine value flow from every state the representation invariant allows (blocks ordered symbolically), compressor thread, buffers and file by contract',
  'Complete for one item type over symbolic block size, position and size. Positions passed in come from get_position of the same stream and are still valid; I/O errors and integer overflow are outside; buffer manager, thread and file behave as their contracts (C01-C03, F09-F11).')

P('F12', 'A compressed block read back is the block that was written, wherever it lies',
  'A block goes to a compressed file as its contents compressed with its scheme, between a header and an equal trailer that hold the compressed size and the scheme, at the end of the file or where the request cuts it; place and size of the block and the place of the next one are reported as they are. A block is read from the place requested, forward or backward, with the size and scheme its header holds, into a buffer it fits in; a damaged, short or oversized block is refused with an exception. An uncompressed block is read and written at its own place with the size of its buffer, and the recorded size of a temporary file follows the file.',
  ['inputs', 'histories', 'fault_sequences'], 'every block size, compressed size, place in the file, scheme and read direction; every truncated or altered header',
  'Blocks in the tests are intact and compress well within the limits; a wrong offset or bound shows only for particular sizes, damaged files or backward reads after other blocks.',
  ['tpie/compressed/thread.cpp', 'tpie/compressed/scheme.h', 'tpie/compressed/scheme_snappy.cpp', 'tpie/compressed/scheme_none.cpp', 'tpie/compressed/request.h'],
  [('process_read_request', 'tpie/compressed/thread.cpp'), ('process_write_request', 'tpie/compressed/thread.cpp'), ('block_header', 'tpie/compressed/thread.cpp'), ('get_compression_scheme', 'tpie/compressed/scheme.h')],
  'affine and bit-level value flow over all paths of the request processing, I/O sequence compared with the block format',
  'All paths, symbolic sizes and places. Trusts snappy to be its own inverse and to bound its output by its header; file accessor by contract (F10); backward reads rely on the preceding block being there.')

P('F13', 'The layout of files is that of their format version',
  'A stream file starts with the magic number, version 4, item size, block size, user data size and maximum, size, flags (1 clean, 2 compressed) and place of the last block as 64-bit words, followed at byte 72 by the user data; its blocks lie one behind the other from the end of the room for user data, rounded up to 4096. Serialization streams have a header of 4096 bytes with magic number, version 1, size, clean and reverse marks, followed by the data, and in compressed blocks scheme 0 is none and 1 is snappy. So files can be exchanged between all programs built with a library of this version.',
  ['inputs', 'histories'], 'every item size, block size, user data size and maximum, compression setting; new and reopened files',
  'Tests read files with the library that wrote them; a layout that reader and writer change together, or that differs only for some user data sizes, passes.',
  ['tpie/stream_header.h', 'tpie/file_accessor/stream_accessor_base.inl', 'tpie/file_accessor/stream_accessor_base.h', 'tpie/serialization_stream.cpp', 'tpie/compressed/scheme.h'],
  [('stream_header_t', 'tpie/stream_header.h'), ('write_header, header_size', 'tpie/file_accessor/stream_accessor_base.inl'), ('serialization_header', 'tpie/serialization_stream.cpp'), ('compression_scheme::type', 'tpie/compressed/scheme.h')],
  'value flow of header contents and file positions, compared by byte offset with the table of the format',
  'Writers, all paths, symbolic sizes; that readers agree with writers is F03, F10, F12 and S01. In the byte order of the machine.')

CO = ['tpie/compressed/thread.cpp', 'tpie/compressed/stream_base.cpp', 'tpie/compressed/buffer.cpp', 'tpie/compressed/request.cpp', 'tpie/job.cpp', 'tpie/pipelining/parallel/base.h']

P('C01', 'State shared between threads is touched only under its lock',
  'The request queue, the response and buffer states of compressed streams and the shared buffer pool, the queue, states and dependency counts of jobs, and the worker states, worker count and stored exception of parallel pipelines are read and written only while the one lock that protects them is held. No thread takes a lock it holds or a second lock while holding one, and every operation leaves the lock as it found it, also when it ends by an exception.',
  ['schedules', 'fault_sequences'], 'every interleaving of user threads, the compressor thread, job workers and pipeline workers; every path including exceptional ones',
  'A missing lock shows up only in rare interleavings; the tests pass with most locks removed.',
  CO, [('compressor_thread::run, request', 'tpie/compressed/thread.cpp'), ('compressed_stream_base', 'tpie/compressed/stream_base.cpp'), ('job::enqueue/run/done/join', 'tpie/job.cpp'), ('producer, before, after', 'tpie/pipelining/parallel/base.h')],
  'lock-set dataflow over all paths (locks by address value, guarded members by type), inlined per entry point',
  'Every access in the three components on every path incl. exceptional edges. A response object is exempt while no request of its stream is pending; constructors and destructors of the shared objects, and the job state is_done/get_state reads the code documents, are not exempt. Trusts std::mutex.')

P('C02', 'No lost wake-ups: waits re-check, changes notify, nothing blocks under the lock',
  'A thread of the compressor, job or parallel component waits only with the lock held after evaluating its condition in the same critical section, and evaluates it again after waking up before it acts. Every change another thread waits for is followed by a notification of the right condition variable, of all waiters where several may wait, before the changing thread blocks, returns or takes further work. No thread is joined and no user code (a job, the pushing of items inside a worker) runs with the lock held.',
  ['schedules'], 'every interleaving, including spurious wake-ups',
  'A lost wake-up hangs one run in many thousands; spurious wake-ups practically never happen in a test.',
  CO, [('compressor_thread::run', 'tpie/compressed/thread.cpp'), ('job_manager::worker, job::join', 'tpie/job.cpp'), ('worker, empty_input_buffer, flush_buffer_impl', 'tpie/pipelining/parallel/base.h')],
  'typestate of condition-variable use (checked / woken / owed notifications) over all paths of every entry point',
  'Complete over the paths of the entry points; which change needs which notification is a table in the rule. Termination of the code between waits is not shown.')

P('C03', 'Blocks are handed to and from the compressor thread exactly once',
  'A request is queued in the same critical section in which its buffer is marked busy and its response reset, and a stream whose read request was queued goes on only after that read was completed. The compressor thread answers every request it takes exactly once: it publishes the result, then marks response and buffer done, under the lock, after its work on the file and the buffer is over, and uses neither afterwards; it ends only when told to and with no request left, and can be started again. A stream itself uses the file only while none of its requests are pending.',
  ['schedules', 'histories'], 'every interleaving of stream operations with the compressor thread, every order of reads and writes pending',
  'The window between a request being queued and answered is microseconds; tests do not place an operation on the same stream into it.',
  CO[:4], [('process_read/write_request', 'tpie/compressed/thread.cpp'), ('read_block, flush_block, close, truncate', 'tpie/compressed/stream_base.cpp')],
  'ownership typestate of requests, buffers and the file over the paths of stream operations and of the compressor thread',
  'All paths of the stream operations and the thread loop; an exception in the compressor thread itself is outside (it ends the process). stream_buffers::count/empty tell whether requests hold buffers.')

P('J01', 'A job runs once, reports to its parent, and join waits for the whole tree',
  'Enqueueing a job that is not idle throws and changes nothing; otherwise it counts as one dependency of itself and of its parent before any thread can run it, and it is queued once, or run once by the caller when the queue is full or there are no workers. A job that runs calls operator() exactly once without the lock and then reports completion once. Only the last completion among a job and its children makes it idle, wakes everybody joining it, calls on_done once and reports to its parent; a worker ends only when the pool is shut down. Setting the number of workers leaves the pool accepting jobs.',
  ['schedules', 'histories'], 'every tree of jobs, every interleaving of workers, enqueueing and joining threads, every queue state',
  'Double or missing execution needs a full queue or a completion racing with enqueue; tests run a fixed small tree.',
  ['tpie/job.cpp', 'tpie/job.h'], [('job::enqueue', 'tpie/job.cpp'), ('job::run, job::done', 'tpie/job.cpp'), ('job_manager::worker', 'tpie/job.cpp')],
  'path-sensitive effect counting of the transitions of a job (state, dependency count, queue, calls) under the lock discipline',
  'Each function against the transition it has to make, for every state it can be called in; composition over the tree is by induction on parents. Exceptions thrown by operator() are outside.')

P('P01', 'A parallel pipeline handles each item once, in order if asked, and stops cleanly',
  'Every item pushed into a parallel section is sent to one idle worker exactly once, and everything a worker outputs is passed on exactly once, by the main thread, before the worker may overwrite it; in maintain-order mode in the order in which the buffers were sent. Worker states change only along the documented protocol. If a worker throws, its exception is stored and thrown again in the main thread; ending, failing or destroying the pipeline at any time stops all workers before it goes on, and the main thread never waits while no worker has anything left to do.',
  ['schedules', 'inputs', 'fault_sequences'], 'every number of workers, buffer size, number of items per buffer, interleaving and place at which a worker throws',
  'Loss or duplication at buffer boundaries, with partial output, out-of-order completion or exceptions in flight depends on timing the tests do not control.',
  ['tpie/pipelining/parallel/base.h'], [('producer::push/empty_input_buffer/end/stop_workers', 'tpie/pipelining/parallel/base.h'), ('before::worker', 'tpie/pipelining/parallel/base.h'), ('after::push/flush_buffer_impl', 'tpie/pipelining/parallel/base.h')],
  'protocol typestate and value flow (states by worker index, buffer contents as affine ranges) over all paths of the main-thread and worker entry points',
  'All paths of each entry point with everything protected by the lock unknown at each critical section, for one item type. Assumes items are copied without exceptions; ordering uses the contract of internal_queue.')

P('P02', 'A pipeline drives every node through its phases in the promised order',
  'Every phase runs after the phases before it are finished, and in it every node gets propagate, its files and memory, its progress indicator, begin and end exactly once and, if it is an initiator, go exactly once, in that sequence over the whole phase and in the order of the item flow graph (propagate) or the actor graph (begin from its leaves, end from its root); all nodes are prepared before resources are assigned. Nodes of the previous phase are evacuated where that is needed and possible before anything else happens, data structures are freed and the progress of a phase is finished only after all its nodes have ended. After an exception no node is called any more, and a pipeline paused at a node stops between begin and go of that phase and goes on with end, once.',
  ['inputs', 'histories', 'fault_sequences'], 'every number of phases and nodes, every pipeline graph, every node throwing anywhere, every pause and resumption',
  'Tests run a few small pipelines whose nodes do not notice the order; a missed or doubled call shows only for graphs, pauses or failures they do not contain.',
  ['tpie/pipelining/runtime.cpp'], [('runtime::go_until', 'tpie/pipelining/runtime.cpp'), ('runtime::go_init', 'tpie/pipelining/runtime.cpp'), ('begin_end, propagate_all, go_initiators, evacuate_all, reassign_files, reassign_memory', 'tpie/pipelining/runtime.cpp')],
  'typestate over symbolic phases and nodes, nested loops by induction with inferred loop variables, on the inlined IR of the runtime',
  'Unbounded in phases and nodes. The graphs, their topological orders and the partition into phases are taken as given; the amounts assigned are not looked at. At least one node per phase.')

P('P04', 'Files and memory given to the nodes of a phase respect limits and the total',
  'In every phase each node is given, exactly once, its declared minimum and maximum amount of a resource clamped to factor times fraction, is marked as being assigned that resource exactly while this happens, and finds the amount recorded when it is told about it. The factor is 0, so that every node gets its minimum, or one for which the amounts of all nodes of the phase plus all data structures that live in the phase were added up and found not to exceed what is available; it is 0 although more could be given only if the search for a larger factor found none, and no sum of fractions that may be zero is divided by. Data structures get the least factor of the phases they live in, fixed before any node is given memory.',
  ['inputs'], 'every number of phases, nodes and data structures, all minima, maxima, fractions and amounts available',
  'Tests assign to two or three nodes with round numbers; a total that leaves out a node or a data structure, or a limit that is not kept, shows only for particular numbers.',
  ['tpie/pipelining/runtime.cpp', 'tpie/pipelining/node.cpp', 'tpie/pipelining/node.h'], [('get_files_factor, get_memory_factor', 'tpie/pipelining/runtime.cpp'), ('resource_runtime, datastructure_runtime', 'tpie/pipelining/runtime.cpp'), ('assign_files, assign_memory, reassign_files, reassign_memory', 'tpie/pipelining/runtime.cpp'), ('_internal_set_available_of_resource', 'tpie/pipelining/node.cpp')],
  'value flow with the checked totals as ghost state through the search loops; sums over nodes and data structures by loop induction; typestate per phase',
  'Unbounded in phases, nodes and data structures. Amounts are compared as computed: rounding of doubles and overflow of sums of declared maxima are not modelled, NaN fractions are excluded. Termination of the search is not shown. Which phases a data structure lives in, and limits merged from several nodes, are taken from datastructure_runtime.')

P('P03', 'Phases of a pipeline follow exactly the declared relations between nodes',
  'Declaring that a node pushes to, pulls from, depends on or shares memory with another one records exactly that relation once, under both nodes, in the node map that holds both, also after node maps have been merged, in whatever order that is done; pushes and pulls declared after the pipeline has been started are refused. Nodes that push or pull are in the same phase and nodes that only depend are not joined by that; phases are ordered after the phases they depend on, and the graph of a phase has exactly its pushes and pulls, with pulls turned round for item flow. Exactly the nodes nobody pushes to or pulls from are started as initiators, and values are forwarded to exactly the nodes reachable within the distance, each once.',
  ['inputs', 'histories'], 'every set of nodes and relations, every order in which relations are declared and node maps are merged',
  'Tests connect a handful of nodes in a few shapes; a relation lost in a merge, or a kind of relation treated like another, shows only in particular graphs and orders of declaration.',
  ['tpie/pipelining/tokens.cpp', 'tpie/pipelining/tokens.h', 'tpie/pipelining/node.cpp', 'tpie/pipelining/runtime.cpp'], [('link, find_authority, add_relation, get_successors', 'tpie/pipelining/tokens.cpp'), ('add_push_destination, add_pull_source, add_dependency, add_memory_share_dependency', 'tpie/pipelining/node.cpp'), ('get_phase_map, get_phase_graph, get_graph, is_initiator', 'tpie/pipelining/runtime.cpp')],
  'value flow over the tables of the node map, one symbolic relation of each kind per loop; ghost reference counts for path compression',
  'Unbounded in nodes and relations: each loop over a table is decided for an arbitrary element. Trusts the standard containers, disjoint_sets and the topological sort; which of the possible phase orders is taken, the numbering of phases, nodes owned by the map and the hints kept with data structures are not decided.')

P('E01', 'External stacks are last-in first-out and external queues first-in first-out',
  'pop and top of a tpie::stack return exactly the item pushed last that has not been popped, and pop, front of a tpie::queue the one pushed first, for any mixture of operations, however the items are spread over the streams and the memory in between; size and empty are exact at all times, and an operation on an empty container throws end_of_stream_exception and changes nothing. A stack leaves in its file exactly its items, in order, when it is destroyed. The internal queue, stack and vector they are built on store, return and count exactly their items within their capacity.',
  ['histories', 'inputs'], 'every sequence of operations (by induction over the states of a container), every number of items on disk and in memory',
  'Which of the two streams and the memory holds the first and the last item depends on the whole history of pushes and pops across block boundaries; tests fill and drain the containers a few times.',
  ['tpie/stack.h', 'tpie/queue.h', 'tpie/internal_queue.h', 'tpie/internal_stack.h', 'tpie/internal_vector.h', 'tpie/internal_stack_vector_base.h'],
  [('push, pop, top, size, ~stack, empty_buffer', 'tpie/stack.h'), ('push, pop, front, swap_file_streams', 'tpie/queue.h'), ('push, pop, front, full', 'tpie/internal_queue.h'), ('push, pop, resize', 'tpie/internal_stack_vector_base.h')],
  'induction over public operations: the contents as a sequence of symbolic segments of streams and memory, affine value flow over every path',
  'Unbounded in items and operations. Uses file_stream by its contract (F08), array by its layout; assumes no I/O error within an operation and room for at least one item in memory.')

P('S02', 'unserialize restores what serialize wrote, for values of every supported type',
  'serialize transfers each byte or element of a value exactly once, in order and preceded by the number of elements where the type does not fix it, and unserialize takes exactly the same bytes in the same order to the same places after making room for exactly that number of elements, whatever the target held before. This holds for plain types, flags, arrays, vectors, strings, pairs, tuples and ranges of any length, whose elements may have functions of their own. serialized_size is the number of bytes serialize writes, and serialize and unserialize of a serialization stream do this once for that stream.',
  ['inputs'], 'every number of elements, every element type with functions of its own, every former content of the target',
  'A mismatch shows only for particular lengths (empty, longer or shorter target) and combinations of types; tests serialize one value of each of a few types into fresh targets.',
  ['tpie/serialization2.h', 'tpie/serialization_stream.h', 'tpie/flags.h', 'tpie/tuple_utils.h', 'tpie/is_simple_iterator.h', 'tpie/array.h'],
  [('serialize, unserialize', 'tpie/serialization2.h'), ('array_encode_magic, array_decode_magic', 'tpie/serialization2.h'), ('serialized_size', 'tpie/serialization2.h'), ('tuple_for_each', 'tpie/tuple_utils.h')],
  'instantiation of every overload with opaque element types; sequence of transfers by value flow, loops by induction with inferred loop variables',
  'Unbounded in the number of elements; nested types by composition. Trusts the standard containers to hold the elements between begin and end. What is written to a file for these bytes is S01.')

P('S01', 'Serialization streams return exactly the bytes written, forward or reversed',
  'The bytes serialized to a stream are, in order and each exactly once, the data of its file, and reading returns them in that order, or item by item from the last to the first for reverse streams, however the items lie across blocks; end_of_stream_exception is thrown exactly when fewer bytes are left than asked for. A file is marked unclean from its opening until closing has written all data and its true size, and readers accept exactly clean files of their format and direction. An operation that fails leaves the stream where it was or closed, and position, size and the recorded size of a temporary file are always right.',
  ['inputs', 'histories', 'fault_sequences'], 'every sequence of opens, writes, reads and closes, items of every length at every offset in a block, any I/O call or allocation failing',
  'Blocks are 2 MiB; the tests use few item sizes and do not fail I/O, so boundary coincidences and error recovery are never reached.',
  ['tpie/serialization_stream.h', 'tpie/serialization_stream.cpp'], [('serializer::write, ~serializer', 'tpie/serialization_stream.h'), ('serialization_reader_base::read', 'tpie/serialization_stream.h'), ('open, close, write_block, next_block, read_block', 'tpie/serialization_stream.cpp')],
  'induction over public operations: affine value flow from every state of the representation invariant, loops cut at their heads with inferred loop variables',
  'Unbounded in sizes, positions and history. Byte-string level: what serialize() of a type emits is not looked at. Trusts std::copy/std::reverse and the raw accessor (F01); I/O errors inside destructors terminate the program and are outside.')

# ---- properties no static argument in reach decides
P('A01', 'Sorting returns a sorted permutation of the items put in',
  'A sort or merge sort, internal, external, pipelined or with serialized items, yields exactly the items it was given, each as often as it was given, in non-descending order of the predicate, for every number of items and every amount of memory, fan-out and number of runs.',
  ['inputs'], 'every input sequence, strict weak order and resource limits', 'Tests sort a few distributions of a few sizes.',
  ['tpie/pipelining/merge_sorter.h', 'tpie/pipelining/merger.h', 'tpie/internal_priority_queue.h', 'tpie/parallel_sort.h'], [('merge sort', 'tpie/pipelining/merge_sorter.h')],
  na='Sortedness quantifies over results of an opaque comparison on run-time data and over loop invariants of heaps and partitions whose index arithmetic is data dependent; a static argument would need a functional proof of the heap and of quicksort. What can be decided statically about sorting is: every run is a file of its own with a single owner (G01, M03), the runs and their files are read back as written (F08, S01), resources are split as computed (P04) and the worker threads synchronise (J01, C01, C03).')
P('A02', 'Priority queues always return the smallest item',
  'top and pop of the internal, external and hierarchical priority queues return a smallest item of those pushed and not yet popped, and size is exact, for any mixture of operations.',
  ['histories', 'inputs'], 'every sequence of operations and every strict weak order', 'Tests compare with std::priority_queue on some random sequences.',
  ['tpie/priority_queue.h', 'tpie/priority_queue.inl', 'tpie/internal_priority_queue.h'], [('push, pop, top, fill_buffer, empty_group', 'tpie/priority_queue.inl')],
  na='The order among insertion heap, buffers, groups and slots is an invariant over run-time keys compared by an opaque predicate in data-dependent loops over several arrays; none of the abstractions built here (affine forms, typestates, symbolic segments) can express that every key of one structure precedes every key of another.')
P('A03', 'A B-tree finds exactly what was inserted and not erased, in key order',
  'Lookups, bounds, iteration and augmentations of internal, external and serialized B-trees agree with the set of values inserted and not erased, however nodes are split, merged and rebalanced, and whatever is built by a builder.',
  ['histories', 'inputs'], 'every history of insertions and erasures', 'Tests compare with std::set on some histories.',
  ['tpie/btree/btree.h', 'tpie/btree/btree_builder.h', 'tpie/btree/internal_store.h', 'tpie/btree/external_store_base.cpp'], [('insert, erase, find, lower_bound', 'tpie/btree/btree.h')],
  na='The search tree invariant relates run-time keys across an unbounded, recursively shared structure; deciding it statically needs shape analysis with data (separation logic with ordering), which is beyond what the installed static tools or affine value flow decide.')
P('A04', 'Progress indicators end at their range and predicted times are consistent',
  'Progress reported by a pipeline, a sort or a stream operation reaches exactly the announced range when the work is done and never runs backwards, and the fractions learned for one execution are those used by the next.',
  ['histories', 'inputs'], 'every pipeline, data size and stored time fraction', 'Tests print progress; nothing compares steps with the range for every item count.',
  ['tpie/progress_indicator_base.h', 'tpie/fractional_progress.cpp', 'tpie/execution_time_predictor.cpp'], [('set_range, step, done', 'tpie/progress_indicator_base.h')],
  na='How often step is called is up to the number of run-time items each user-written node pushes, set against an estimate the node announced beforehand; the relation is a convention between user code and node, not a property of any code in the repository, and the predictions are floating point regressions over measured times.')
