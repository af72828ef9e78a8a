#!/usr/bin/env python3
"""writes the fixed entries of known-findings.jsonl (commits are looked up by their subject)"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ("P01", "decompress frames whose size is a multiple of the superblock size", "a frame whose content is a multiple of the superblock size did not decompress"),
 ("P06", "write the superblock size exactly when the header shift announces it", "header with shift 255 without the superblock size, or the reverse"),
 ("P12", "stenos_get_info rejects an invalid bytesoftype instead of dividing by zero", "stenos_get_info with element size 0"),
 ("P03", "reject frames announcing a null superblock size", "division by zero on a frame announcing superblock size 0"),
 ("P11", "stenos_reset_context resets the custom block size", "a reset context kept the custom block size"),
 ("P12", "limit the default superblock size for big types", "compression of big elements refused: the superblock size did not fit"),
 ("P13", "stenos_make_context returns NULL when the allocation fails", "null pointer write when the context allocation fails"),
 ("P13", "report the failure to allocate a pool task", "a task that could not be queued was ignored"),
 ("P03", "check the source size before decoding a copied block", "read past the input when decoding a copied block"),
 ("P03", "do not read one byte past the source when decoding a RLE row", "read of one byte past the input"),
 ("P03", "check for the source end in the generic row decoder", "read past the input in the portable row decoder"),
 ("P03", "validate match offsets in the LZ decoder", "LZ match before the start of the output"),
 ("P02", "size of the partial block compression buffer", "write past the buffer of a partial block"),
 ("P04", "an empty block stream is an error when bytes are expected", "success without writing the output"),
 ("P04", "reject zstd superblocks that do not decompress to the expected size", "success with undefined bytes when zstd gives fewer bytes"),
 ("P16", "inverse delta of less than a vector of bytes", "inverse delta of short inputs"),
 ("P10", "initialize the LZ hash table", "the frame depended on uninitialised memory"),
 ("P11", "an expired time limit must not affect later compressions with the same context", "a context stayed in copy mode after an expired limit"),
 ("P12", "integer overflow for a high thread count and a time limit", "division by zero for a thread count of 2^27 or more with a time limit"),
 ("P13", "keep the context consistent when the allocation of its buffers fails", "null buffers used after a failed allocation"),
 ("P13", "no exception leaves stenos_decompress_generic", "std::bad_alloc left a C function"),
 ("P26", "wait for queued tasks before returning an error", "tasks still running on dead stack variables after an error"),
 ("P26", "lost wake up with several threads waiting for the pool", "a waiting thread was never woken"),
 ("P26", "do not read the pool state without lock", "data race on the pool state"),
 ("P13", "retry the allocation of the thread local compression buffer after a failure", "a thread could not compress any more after one failed allocation"),
 ("P12", "start one thread when the hardware concurrency is unknown", "a pool without threads never finished"),
 ("P26", "use after free and ABA in the pool task allocator", "two threads popping the lock-free task list"),
 ("P22", "cvector copy assignment to an empty vector and exception propagation", "copy assignment to an empty vector"),
 ("P23", "cvector releases its compression context", "leak of the context of every vector"),
 ("P22", "cvector serialization of a full last block", "a vector of full blocks did not deserialize"),
 ("P21", "keep modifications of cvector::for_each when it stops early or throws", "modifications lost when the functor stops or throws"),
 ("P21", "cvector unused decompression contexts do not reference any block", "stale block reference of an unused decompression context"),
 ("P21", "dereferencing a cvector reverse iterator returned a dangling reference", "reverse iteration"),
 ("P22", "cvector::compression_ratio does not compile", "cvector::compression_ratio did not compile"),
 ("P24", "cvector constructors release their memory when an element or an allocation throws", "leak when a constructor throws"),
 ("P19", "cvector::insert at a position does not compile", "cvector::insert did not compile"),
 ("P02", "stenos_bound covers custom block sizes", "the documented bound was too small for small custom superblocks"),
 ("P15", "SSE2 unshuffle of 12 byte elements stored bytes 4..15 of every 16th element", "wrong bytes for 12 byte elements without SSE4.1"),
 ("P21", "for_each with a functor that takes a reference and returns a value", "for_each with a bool functor did not compile"),
 ("P24", "cvector removed a block and corrupted its state when a compressed buffer could not be allocated", "erase or pop_back with a failing allocation lost a block and its elements"),
 ("P24", "cvector left a block locked forever when freeing an additional context failed", "a block stayed locked after a failed allocation: the next access never returned"),
 ("P24", "cvector::shrink_to_fit lost contexts when an allocation failed", "leak and stale contexts after shrink_to_fit with a failing allocation"),
 ("P24", "cvector::resize leaked the elements of a block when a constructor threw", "resize(n, value) with a throwing copy constructor leaked elements"),
 ("P24", "element access of cvector that has to allocate was declared noexcept", "v[i] with a failing allocation terminated the process"),
 ("P24", "inserting or assigning n copies terminated when copying the value threw", "insert(pos, n, value) with a throwing copy constructor terminated the process"),
 ("P23", "cvector::push_back of an element of the vector itself when its last block is full", "v.push_back(v[0]) with 256 elements constructed the new element from itself"),
 ("P23", "cvector::insert of n copies of an element of the vector itself never returned", "v.insert(pos, 3, v[k]) waited for itself"),
 ("P21", "std::copy of a cvector range did not compile", "std::copy(v.begin(), v.end(), out) did not compile"),
 ("P21", "assigning an element of a cvector from another one emptied the latter", "v[i] = w[j] moved the element out of w"),
 ("P18", "data race between the copy tasks when the destination is too small", "unsynchronised write of the result code by several copy tasks"),
 ("P18", "zstd was never used again in a thread where its context could once not be allocated", "one failed allocation changed the frames of every later compression in the thread"),
 ("P25", "const element accessors of cvector locked the block twice and could deadlock with for_each", "v[i] const in one thread and for_each in another one waited for each other forever"),
 ("P05", "an empty frame with an incomplete header was decompressed", "frame ff0000000000000000 cut after 8 bytes decompressed to nothing"),
    ("P27", "move assignment of cvector released memory through a different allocator", "v = std::move(w) with unequal allocators freed the memory of w through the allocator of v"),
    ("P03", "superblock sizes no frame can have were accepted, sizes over 2 GB overflowed in the transposition", "hostile frame announcing 2^31+5 bytes in one superblock of 0x90000001 bytes, transposed zstd payload, destination of 2^31+5 bytes: crash in the transposition"),
    ("P28", "cvector::compression_ratio counted blocks that are not compressed", "compression_ratio of a vector with blocks not yet compressed was too high"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
by = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log}
known = []
p = os.path.join(V, "known-findings.jsonl")
if os.path.exists(p):
    known = [l for l in open(p) if json.loads(l).get("status") == "known"]
with open(p, "w") as f:
    f.writelines(known)
    for pid, sub, what in F:
        h = by.pop("fix: " + sub)
        f.write(json.dumps({"status": "fixed", "property": pid, "commit": h, "what": what, "record": "fixed: property=%s %s %s" % (pid, h, what)}) + "\n")
left = [s for s in by if s.startswith("fix:")]
if left: print("not listed:", left)
