"""What each property says. gen.py writes properties.jsonl and MANIFEST.json from this."""
S, B, L, D, C, T, PL, Z, SH = ("stenos/internal/stenos.cpp", "stenos/internal/block_compress.h", "stenos/internal/lz_compress.h", "stenos/internal/delta.cpp",
                               "stenos/cvector.hpp", "stenos/timer.hpp", "stenos/internal/tiny_pool.h", "stenos/internal/zstd_wrapper.h", "stenos/internal/shuffle.h")
TEXTS = {}
def text(pid, title, statement, over, qtext, why, files, mech, technique="symbolic execution of the real code (LLVM IR), SAT/SMT-decided assertions, native replay of counterexamples", note=None):
    TEXTS[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note)

text("P01", "Compression is lossless",
     "For every input, element size from 1 to 65534, level, superblock size and thread count, compressing into a buffer of the documented bound succeeds, and decompressing the frame with the same element size gives back exactly the original bytes and the original length. The input is not modified.",
     ["inputs", "configurations"], "every byte sequence of every length, every element size, level, custom block size and number of threads",
     "The tests round-trip a few generated tables (sorted, random, constant) at each level; the block and LZ coders choose among many encodings per 16-byte row and per plane, and a defect needs a particular mix of rows, run lengths, offsets or a short last block.",
     [S, B, L, Z], [("superblock codes and their fallbacks", S + " compress_generic_superblock"), ("block coder and decoder", B + " block_compress_generic, block_decompress_generic"), ("LZ coder", L), ("transposition and delta", "stenos/internal/shuffle*.cpp, delta.cpp")])
text("P02", "Compression stays within the destination and the bound suffices",
     "Whatever the size of the destination, compression writes nothing outside of it, and returns either an error or the length, at most the destination size, of a complete frame that decompresses to the input. A destination of the documented bound is always enough.",
     ["inputs", "configurations"], "every input with every destination size, level, block size and entropy coder outcome",
     "Tests always pass a destination of the full bound; an overrun or a truncated frame needs a destination that ends at a particular byte of a particular encoding.",
     [S, B, L], [("stenos_bound", S), ("capacity checks of every writer", B + " and " + L), ("superblock header and stored form", S + " compress_memcpy")])
text("P03", "Decoding arbitrary bytes is memory safe and terminates",
     "Decompressing any byte sequence, of any length, into a destination of any size never reads outside the input, never writes outside the destination, never uses memory that does not exist, and terminates.",
     ["inputs"], "every byte sequence, element size and destination size",
     "The tests decode only frames made by the compressor; unsafe accesses need hostile headers, sizes, offsets or truncated payloads.",
     [S, B, L], [("frame and superblock checks", S + " stenos_decompress_generic"), ("block decoder checks", B + " block_decompress_generic"), ("LZ decoder checks", L)])
text("P04", "A successful decode yields the announced size and defined bytes",
     "When decompression succeeds, the returned length equals the length announced by the frame metadata, which the metadata query accepts, and never exceeds the destination; every returned byte depends only on the frame, never on what memory held before.",
     ["inputs"], "every byte sequence accepted by the decoder",
     "Only well-formed frames are decoded by tests, where every byte happens to be written; a corrupted frame that skips output or returns a wrong length is not exercised.",
     [S, B, L], [("result length", S + " stenos_decompress_generic"), ("every decoder writes its whole block", B)])
text("P05", "Incomplete frames and too small destinations are reported",
     "Decompressing a frame from which any number of trailing bytes is missing returns an error, and so does decompressing a complete frame into a destination smaller than its content.",
     ["inputs", "fault_sequences"], "every proper prefix of every frame, every smaller destination",
     "No test truncates a frame or shrinks the destination.",
     [S, B, L], [("input end checks", S + ", " + B + ", " + L), ("announced size against the destination", S)])
text("P06", "Frame metadata and superblock structure are exact",
     "The metadata query accepts every complete frame header and refuses incomplete or unknown ones, reports exactly the announced size and superblock size, and every frame made by the compressor is a header followed by one superblock per part of the input, each at most its content plus its header, which decompresses alone to exactly its part.",
     ["inputs", "configurations"], "every header, every frame of the compressor",
     "Tests call the query on a handful of frames; header kinds, sizes of 7 bytes and the superblock walk used for random access are not covered for all inputs.",
     [S, "stenos/stenos.h"], [("header layout", S + " stenos_get_info, stenos_private_create_compression_header"), ("superblock layout", S + " stenos_private_block_size, stenos_private_decompress_block")])
text("P07", "Time-limited compression honours the clock and stays lossless",
     "With a time limit, compression succeeds whatever the clock reports, the frame decompresses to the input, and once the clock has been seen past the limit no expensive entropy compression is started any more (with several threads: none beyond the one each thread has in progress). The limit does not affect later calls once removed.",
     ["inputs", "schedules"], "every sequence of clock readings, inputs, limits and thread counts",
     "A test measures real time on one machine; the switch-over points between strategies depend on clock values that a run cannot choose.",
     [S, Z, T], [("remaining time to level", Z + " clevel_for_remaining"), ("switch to copies", S + " finish_memcpy")])
text("P08", "The number of threads changes nothing but speed",
     "For the same input and settings without a time limit, compression with any number of threads gives the same frame as with one thread, and decompression with any number of threads gives the same bytes.",
     ["inputs", "configurations", "schedules"], "every input with one or many superblocks and every thread count",
     "Tests compare decompressed data only, for a few sizes and thread counts; superblock counts that are not multiples of the thread count and mixed failures are not covered.",
     [S, PL], [("parallel rounds of superblocks", S + " stenos_compress_generic, stenos_decompress_generic"), ("per-thread buffers", S + " ensure_has_buffers")])
text("P09", "Frames are portable across CPU feature sets",
     "A frame made on a machine with any of the supported instruction sets decompresses to the original on a machine with any other, including none.",
     ["inputs", "configurations"], "every input and every pair of CPU feature sets",
     "The tests run on one CPU and so with one of the code paths.",
     [B, L, "stenos/internal/simd.cpp", "stenos/internal/shuffle.cpp"], [("dispatch on CPU features", B + " and stenos/internal/simd.cpp"), ("portable coders", B)])
text("P10", "Frames depend only on the input and the settings",
     "Compressing equal inputs with equal settings and no time limit gives identical frames, wherever the buffers are, whatever they contained before, and no byte of a frame comes from uninitialised or unrelated memory.",
     ["inputs"], "every input, settings and initial memory content",
     "Tests do not compare frames; leaks of uninitialised memory into a frame decompress correctly and go unnoticed.",
     [S, B, L, "stenos/internal/lz4dry.cpp"], [("every frame byte is written", B + ", " + L + ", " + S)])
text("P11", "A context can be reused after anything",
     "Whatever was done before with a context (other inputs and settings, failed calls, expired time limits, foreign frames), a later call behaves as on a new context with the same settings; resetting restores the default settings.",
     ["histories"], "every sequence of earlier operations on a context",
     "Tests use a context for one call or a plain sequence of successful calls.",
     [S], [("per-call preparation", S + " stenos_context_s::prepare"), ("buffers kept between calls", S + " clear_buffers, ensure_has_buffers")])
text("P12", "Every parameter value is handled",
     "Element sizes 1 to 65534 are accepted and all others refused with an error by compression and decompression; levels are clamped to 0-9; block shifts above 15 and superblocks the format cannot hold are refused without effect; any thread count and any time limit works. The size bound covers input, header and superblock headers for every size.",
     ["configurations", "inputs"], "all values of element size, level, shift, threads, time limit, byte count",
     "Tests use in-range values only.",
     [S, "stenos/stenos.h"], [("setters", S + " stenos_set_*"), ("per-call checks", S + " prepare"), ("bound", S + " stenos_bound")])
text("P13", "Running out of memory is survived",
     "If any memory allocation fails during context creation, compression or decompression, the call returns an error or a correct result, nothing is read or written through a missing buffer, nothing leaks, and the same context works again once memory is available.",
     ["fault_sequences"], "every subset of failing allocations",
     "No test makes an allocation fail.",
     [S, B, PL], [("buffer creation and fallbacks", S + " CBuffer, ensure_has_buffers"), ("thread pool push failure", PL)])
text("P14", "Entropy coder failures are contained",
     "If any call to the entropy coder fails, expands its input or fills the destination, compression still gives a frame that decompresses to the input or returns an error, and the context works normally afterwards. Without such a failure and with a sufficient destination it never returns an error.",
     ["fault_sequences"], "every sequence of entropy coder outcomes",
     "The coder never fails in tests and its results are whatever it gives for the test data.",
     [S, Z], [("error translation", Z + " zstd_compress_with_context"), ("fallback to stored superblocks", S + " compress_generic_superblock")])
text("P15", "Byte transposition is the same on every CPU and reversible",
     "The byte transposition puts byte j of element i at place i of plane j, leaves an incomplete last element at the end, and the reverse transposition restores the input, for every element size, length and supported instruction set.",
     ["inputs", "configurations"], "all byte values, element sizes, lengths, CPU feature sets",
     "Tests reach one instruction set, and lengths and element sizes of a few tables only.",
     ["stenos/internal/shuffle.cpp", "stenos/internal/shuffle_avx2.cpp", "stenos/internal/shuffle_sse2.cpp", "stenos/internal/shuffle_generic.h"], [("one implementation per instruction set", "stenos/internal/shuffle*.cpp"), ("remainder handling", SH)])
text("P16", "Byte delta is reversible on every CPU",
     "Up to 2048 bytes, the byte delta gives the first byte and then the differences of successive bytes modulo 256; above, each of the first four quarters (length divided by 4, rounded down) starts anew with its first byte, and the remaining bytes continue as differences. The result is the same for every supported instruction set, and the inverse restores the input, for every length.",
     ["inputs", "configurations"], "all byte values and lengths, CPU feature sets",
     "Tests reach one instruction set and few lengths.",
     [D], [("vector and scalar parts", D)])
text("P17", "The timer measures the time since its last reset",
     "The timer reports, in nanoseconds, exactly the clock time that passed since its last reset, for any monotonic clock, and reading it does not reset it.",
     ["inputs"], "every sequence of clock values",
     "Tests cannot choose the clock.",
     [T, S], [("nanosecond arithmetic", T), ("C wrapper", S + " stenos_tick, stenos_tock")])
CVWHY = "Tests run one history of operations on one or two element types and compare with a standard vector; block splits and merges at particular positions, caching and write-back orders are reached only by particular combinations."
text("P19", "A compressed vector behaves like a sequence: structure",
     "After any history of insertions, removals, resizes, assignments and clears, at any positions, the compressed vector holds exactly the elements a plain sequence would hold, in the same order, and the operations return the documented positions.",
     ["histories", "inputs"], "every history of operations, positions, counts and element values", CVWHY,
     [C], [("insertion, removal, resize", C + " detail::CompressedVectorInternal"), ("block cache and write-back", C)])
text("P20", "Deserializing any bytes is safe; serializing respects the destination",
     "Deserializing arbitrary, damaged or cut bytes, from memory or from a stream, returns an error or a vector of exactly the announced number of elements: nothing outside the input is read, nothing is lost, no cut input is accepted, and the vector can be used and destroyed. Serializing into any capacity writes nothing beyond it: it gives the same bytes whenever they fit, an error otherwise, and never changes the vector.",
     ["inputs"], "every value of windows of a serialized vector, every cut and every destination capacity",
     "Tests only deserialize what they serialized, into destinations of ample size.",
     [C], [("serialize and deserialize", C), ("block header and size", S + " stenos_private_block_size, stenos_private_decompress_block")])
text("P21", "A compressed vector behaves like a sequence: element access",
     "Reading through any access path (indexing, checked access, references, iterators in both directions, visits of a range) gives the elements of the equivalent plain sequence, and modifications made through any of them persist; checked access throws exactly outside the vector and visits stop when told to.",
     ["histories", "inputs"], "every mix of access paths, positions and values", CVWHY,
     [C], [("element references", C), ("for_each and iterators", C), ("dirty block write-back", C)])
text("P22", "Compressed vectors copy, move, swap and serialize as values",
     "Copies are independent of their source, moves and swaps transfer the elements and leave usable vectors, and deserializing a serialized vector gives the same elements.",
     ["histories", "inputs"], "every vector content and later history", CVWHY,
     [C, S], [("copy, move, swap", C), ("serialize and deserialize", C)])
text("P23", "Elements of a compressed vector live exactly once and leak nothing",
     "Every element of a compressed vector is an object that is constructed once and destroyed once, whatever the history of operations, block compressions, moves in and out of the vector and between vectors; no destroyed object is read, no memory is lost, and element types that own memory or can only be moved keep their content.",
     ["histories", "inputs"], "every history of operations, positions and element values",
     "Tests look at values, not at the number of live objects, and use a few fixed histories.",
     [C], [("relocation of elements", C + " RawBuffer"), ("compression and release of blocks", C)])
text("P24", "Failing allocations and constructors leave a compressed vector valid",
     "When an allocation or the construction of an element fails during an operation on a compressed vector, the operation throws (the process does not end), no element or memory is lost or destroyed twice, and the vector stays usable; single element appends and removals at the end, element access, swap and visits leave the content as it was. (The first compression of a newly made vector ends the process by design when it cannot allocate its compressor.)",
     ["faults", "histories"], "every place where one or two allocations, or one constructor, can fail during an operation",
     "Tests never make an allocation or a constructor fail.",
     [C], [("exception paths", C + " detail::CompressedVectorInternal"), ("block locking", C + " detail::BlockLocker"), ("contexts", C)])
text("P26", "The thread pool runs every task once and waiting always ends",
     "Whatever the interleaving of the workers and of the threads that use the pool: every task that push() accepts runs exactly once, wait() returns, and only when every task pushed before it by the caller has run and its effects are visible; a failed allocation makes push() return false and nothing else; destroying the pool joins its workers; nothing is accessed by two threads without ordering, freed twice or used after being freed.",
     ["schedules", "faults"], "every schedule with a bounded number of preemptions, and every failing task allocation",
     "Tests run the few schedules the machine happens to produce.",
     ["stenos/internal/tiny_pool.h"], [("queue, workers, wait", "stenos/internal/tiny_pool.h tiny_pool"), ("task memory", "stenos/internal/tiny_pool.h detail::TaskAllocation")])
text("P18", "Multithreaded use gives the one-thread result under every schedule",
     "Compressing or decompressing with several threads, and using different contexts from several threads at once, gives exactly the frame and the data that one thread gives, or an error when the destination is too small or memory is missing, whatever the interleaving; every call returns; no two threads access the same memory without ordering, and the context can be used afterwards.",
     ["schedules", "faults", "inputs"], "every schedule with a bounded number of preemptions, every failing allocation, data that does and does not compress",
     "Tests run the few schedules the machine happens to produce.",
     [S, "stenos/internal/tiny_pool.h"], [("parallel compression and decompression", S + " stenos_compress_generic, stenos_decompress_generic"), ("tasks", "stenos/internal/tiny_pool.h tiny_pool"), ("per thread buffers", "stenos/internal/block_compress.h")])
text("P25", "One compressed vector can be read, and visited to modify, by several threads",
     "Read-only access to one compressed vector from several threads (indexing, references, iterators, copies, visits) gives the elements, as with a standard vector; the for_each family may be used concurrently even to modify: no modification is lost, every read gives a value the element had, and the vector is as after one of the sequential orders. Every call returns, and no two threads access the same memory without ordering. (Memory statistics and operations that change the size are excluded.)",
     ["schedules", "faults"], "every schedule with a bounded number of preemptions of two threads, over all pairs of operations",
     "Tests use a vector from one thread.",
     [C], [("block locks", C + " detail::SharedSpinner"), ("on-demand decompression and reuse of contexts", C + " decompress_bucket, find_free_context"), ("visits", C + " for_each, const_for_each")])

text("P27", "A compressed vector gives its memory back to the allocator it came from",
     "All the memory of a compressed vector comes from its allocator and goes back, with its size, to an equal allocator, whatever is done with the vector: copies and moves with or without another allocator, assignments, swaps, serialization and failing allocations included. Copies select their allocator, and assignments and swaps hand allocators over, as the traits of the allocator say; the elements arrive whatever the allocators are.",
     ["histories", "faults", "inputs"], "every history of one to three operations over two vectors with equal or different allocators, for the possible allocator traits, and every failing allocation",
     "Tests use the default allocator only.",
     [C], [("construction and assignment", C + " cvector"), ("blocks and contexts", C + " detail::CompressedVectorInternal")])

text("P28", "Reported memory footprints are the memory that is held",
     "stenos_memory_footprint() of a context and memory_footprint() of a compressed vector report the memory that the context or vector holds (what destroying it gives back), up to 16 bytes of alignment per work buffer, whatever was done before, and never more; the current compression ratio is the size of the elements divided by the footprint, and the compression ratio relates compressed blocks only to their own elements.",
     ["histories", "inputs"], "every history of one to six operations on a vector, one to two calls on a context, with all combinations of threads, levels and superblock sizes of a list",
     "Tests print the ratios and check nothing.",
     [S, C], [("context footprint", S + " stenos_memory_footprint"), ("vector footprint and ratios", C + " memory_footprint, compression_ratio")])
text("P29", "Bit and byte order helpers are right for every value",
     "The bit count, bit scan, byte swap and byte order functions of bits.hpp give their defined result for every 8, 16, 32 and 64 bit value (scans of 0 excluded, as documented) at every alignment and touch no other byte; aligned allocations have the alignment and can be freed.",
     ["inputs"], "all values of all functions, all alignments",
     "Tests do not call them; the compression calls them with few values.",
     ["stenos/bits.hpp"], [("bit functions", "stenos/bits.hpp popcnt8, bit_scan_reverse_64, ..."), ("byte order", "stenos/bits.hpp read_LE_32, write_BE_64, ...")])
