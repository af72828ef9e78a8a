"""Configurations of every property's check. One entry is one run of the symbolic executor on a harness; everything not
given here (input bytes, capacities, clock readings, failing calls, schedules) is symbolic or forked inside the harness."""

def P(h, t=10, src="core", defs=(), **p):
    return {"h": h, "t": t, "src": src, "defs": list(defs), "p": p}

PROPS = {}
CPUS = ("avx2", "sse41", "sse2", "none")
KINDS = range(10)

def prop(pid, bounds, quick, thorough, assumptions=(), **kw):
    PROPS[pid] = dict(bounds=bounds, quick=quick, thorough=quick and [dict(c, t=c["t"] * kw.get("tf", 6)) for c in quick] + thorough,
                      assumptions=list(ASSUME) + list(assumptions), **{k: v for k, v in kw.items() if k != "tf"})

ASSUME = [
    "clang 18 -O1 bitcode of /repo's sources (built with -march=haswell) has the meaning of the source; counterexamples and samples are replayed on a g++ build",
    "libzstd is replaced by its contract (harness/stub_env.cpp): an error or a frame of a chosen size that gives the source back; anything else decompresses to an error or arbitrary bytes",
    "the clock, the allocator, threads and the CPU feature test are modelled by the executor",
]
LZ4 = "the LZ4 size estimate is replaced by arbitrary answers except where a configuration says src=full"

# ---------------------------------------------------------------- round trip
rt_q = [P("h_roundtrip", 3, bpp=b, n=n, extra=(b - 1 if n == 300 else 0), level=l, nsym=2, kind=k, pos=b * 35)
        for b in (1, 2, 3, 4, 8) for (l, n) in ((1, 256), (1, 300), (2, 256), (3, 600)) for k in KINDS]
rt_q += [P("h_roundtrip", 3, bpp=b, n=256, level=2, nsym=2, kind=k, pos=p, guess=1) for b in (4, 8, 12) for k in (6, 7, 8) for p in (0, 517)]
rt_q += [P("h_roundtrip", 3, bpp=b, n=n, level=1, nsym=2, kind=k, pos=b * n // 2) for b, n in ((5, 257), (7, 256), (16, 270), (33, 260), (100, 256), (2, 2), (2, 17), (4, 63), (3, 43), (300, 20)) for k in (5, 8, 9)]
rt_q += [P("h_roundtrip", 3, bpp=b, n=n, level=l, nsym=99, kind=1, simple=1) for b, n in ((1, 0), (1, 1), (1, 127), (1, 128), (3, 5), (2, 64), (65534, 0)) for l in (0, 1, 9)]
rt_q += [P("h_roundtrip", 3, bpp=b, n=n, level=l, shift=s, kind=k, nsym=2, pos=p, threads=t) for b, n in ((1, 1000), (2, 900), (4, 530)) for l in (1, 2) for s, t in ((0, 1), (1, 3)) for k, p in ((8, 600), (5, 0))]
rt_q += [P("h_roundtrip", 3, src="full", bpp=b, n=n, level=l, kind=k, nsym=1, pos=70) for l in (2, 3, 5) for b, n, k in ((1, 300, 2), (2, 300, 5), (4, 300, 8), (3, 200, 9), (4, 256, 7))]
# blocks that the LZ coder takes: repeats at every interesting distance, wide elements
rt_q += [P("h_roundtrip", 5, bpp=b, n=n, level=1, kind=10, dist=d, nsym=1, pos=p) for b, n, p in ((4, 768, 700), (8, 512, 1700)) for d in (1, 2, 7, 63, 126, 127, 128, 129, 200)]
rt_q += [P("h_roundtrip", 5, bpp=b, n=600, level=l, kind=10, dist=d, nsym=2, pos=p, zmodes=4) for b in (4, 8, 12, 16, 20, 24) for d, p in ((64, 300), (128, 900), (129, 1300)) for l in (1, 2)]
rt_q += [P("h_roundtrip", 10, bpp=b, n=1024, level=1, kind=11, nsym=1, pos=255 * b - 1) for b in (64, 252, 512, 516, 1020, 1024)]
rt_t = [P("h_roundtrip", 60, bpp=b, n=n, extra=e, level=l, nsym=ns, kind=k, pos=p, stride=st, guess=1)
        for b in (1, 2, 3, 4, 8) for (l, n, e) in ((1, 272, 0), (2, 300, 1)) for k in KINDS for (ns, p, st) in ((3, 0, 1), (3, b * 100 + 1, b), (2, b * 200, b * 17))]
prop("P01", "inputs: 10 concrete backgrounds (constant, noise, ramps, runs, repeats, mixed) with 1-3 fully symbolic bytes at given positions, or all bytes symbolic below 128 bytes; element sizes 1-300, up to 1000 elements, levels 0-5 and 9, custom superblocks, 1-3 threads; every branch the symbolic bytes can take, within the time limit of each configuration",
     rt_q, rt_t, [LZ4], tf=5)

# ---------------------------------------------------------------- destination capacity
cap_q = [P("h_bound", 6, bpp=b, n=256, level=l, kind=k, nsym=1, lo=0, hi=h[0], step=h[1]) for b in (1, 2, 3) for l in (0, 1, 2, 5) for k in (0, 2, 1) for h in ((40, 1), (256 * b + 40, 53))]
cap_q += [P("h_bound", 6, bpp=b, n=600, level=l, kind=k, nsym=1, lo=256 * b * 2, hi=600 * b + 60, step=37) for b in (1, 2) for l in (1, 2) for k in (1, 5)]
cap_q += [P("h_bound", 6, bpp=2, n=900, level=1, shift=s, kind=k, nsym=1, lo=600, hi=900 * 2 + 60, step=41, threads=t) for s in (0, 1) for k in (1, 5) for t in (1, 2)]
cap_q += [P("h_bound", 6, bpp=b, n=n, level=l, kind=1, nsym=1, zmodes=z, lo=n * b - 30, hi=n * b + 40, step=1) for b, n, l in ((1, 256, 1), (2, 256, 1), (4, 256, 2), (1, 100, 1), (3, 300, 3)) for z in (2, 8, 16, 4)]
# every capacity around the size of the frame, and every one within a margin of it
cap_q += [P("h_bound", 10, bpp=b, n=n, level=1, kind=k, dist=d, nsym=1, pos=200, around=1, lo=b * 10, hi=b * 10, step=1) for b, n in ((4, 256), (8, 256), (4, 512), (12, 300)) for k, d in ((12, 300), (12, 600), (10, 128))]
cap_q += [P("h_bound", 10, bpp=b, n=n, level=l, kind=k, nsym=1, pos=p, around=1, lo=40, hi=40, zmodes=z) for b, n in ((1, 256), (2, 256), (3, 300), (2, 600)) for l, z in ((1, 2), (2, 4), (3, 4)) for k, p in ((5, 3), (8, 100), (2, 0))]
cap_t = [P("h_bound", 60, bpp=b, n=n, level=l, kind=k, nsym=1, lo=0, hi=n * b + 40, step=1) for b, n in ((1, 256), (2, 256), (3, 256), (4, 256), (2, 300)) for l in (1, 2) for k in (0, 1, 2, 5, 8)]
prop("P02", "destination capacities forked one by one in the given ranges (0-40, the whole range in steps, every byte around the stored size); inputs with one symbolic byte on concrete backgrounds; entropy coder results of several sizes",
     cap_q, cap_t, [LZ4])

# ---------------------------------------------------------------- decoder on arbitrary bytes
def dec(chk, t):
    q = [P("h_decode", t, mode=0, chk=chk, len=l, cap=c, dmodes=15, custom=u) for l in (0, 1, 7, 8, 12, 16, 20, 24) for c in (0, 100, 600) for u in (0, 1)]
    q += [P("h_decode", t, mode=1, chk=chk, bpp=b, code=c, plen=p, dmodes=15, n=256) for b in (1, 2, 4) for c in (1, 2, 3, 4, 5, 6, 0, 9) for p in (0, 1, 12, 24)]
    q += [P("h_decode", t, mode=2, chk=chk, bpp=b, n=n, kind=k, level=l, pos=p, nsym=2, dmodes=15) for b, n in ((2, 256), (4, 256), (3, 300)) for l in (1, 2) for k in (2, 5, 7, 8) for p in (0, 8, 12, 14, 16, 40)]
    q += [P("h_decode", t, mode=2, chk=chk, bpp=2, n=900, kind=k, level=1, shift=0, pos=p, nsym=2, dmodes=15, threads=th) for k in (2, 5) for p in (0, 8, 12, 16) for th in (1, 3)]
    # partial blocks: 1 to 15 rows of 16 elements and a rest; after a complete block too
    q += [P("h_decode", t, mode=1, chk=chk, bpp=b, n=n, code=1, plen=p, dmodes=15) for b, n in ((2, 80), (3, 48), (4, 33), (1, 144), (1, 255), (5, 70)) for p in (b // 2 + 2, 5, 9, 14, 22, 30)]
    q += [P("h_decode", t, mode=1, chk=chk, bpp=b, n=n, code=1, plen=p, npfx=k, pfx=x, dmodes=15) for b, n, k, x in ((1, 300, 3, 0xfe0701), (2, 300, 4, 0xfe070711), (1, 256, 1, 0), (1, 256, 1, 2), (1, 256, 1, 3), (2, 256, 1, 0x22), (2, 256, 1, 0x32), (4, 256, 2, 0x3222)) for p in (6, 13, 27, 40)]
    if chk == 0:
        q += [P("h_decode", 6, mode=5, chk=0, bpp=b, code=c, dmodes=13, bigmem=1) for b in (2, 3, 4) for c in (1, 2, 3, 6)]
    return q
prop("P03", "frames: up to 24 arbitrary bytes; a valid header with one superblock of any code and up to 24 arbitrary payload bytes; compressed frames with 2 arbitrary bytes at several places; destinations of 0, 100, 512-1024 bytes; entropy decoder answers error, nothing, a full or almost full destination of arbitrary bytes; announced sizes and superblocks from 2^31 to 2^32-1",
     dec(0, 3), [P("h_decode", 60, mode=1, chk=0, bpp=b, code=c, plen=p, dmodes=15, n=n) for b in (1, 2, 3, 4, 8) for c in (1, 5, 2, 4) for p in (40, 64) for n in (256, 300)])
prop("P04", "as P03; in addition every output byte is checked to be a function of the frame alone",
     [dict(c) for c in dec(1, 3)], [P("h_decode", 60, mode=1, chk=1, bpp=b, code=c, plen=p, dmodes=15, n=n) for b in (1, 2, 3, 4, 8) for c in (1, 5) for p in (40, 64) for n in (256, 300)])
tr_q = [P("h_decode", 8, mode=3, chk=2, bpp=b, n=n, level=l, kind=k, nsym=1, pos=9) for b, n in ((1, 100), (1, 300), (2, 256), (3, 256), (4, 300)) for l in (0, 1, 2, 3) for k in (0, 2, 5, 8)]
tr_q += [P("h_decode", 8, mode=4, chk=2, bpp=b, n=n, level=l, kind=k, nsym=1, pos=9, step=s) for b, n, s in ((1, 100, 1), (1, 300, 7), (2, 256, 11), (3, 256, 13), (4, 300, 19)) for l in (0, 1, 2, 3) for k in (0, 5, 8)]
tr_q += [P("h_decode", 8, mode=m, chk=2, bpp=2, n=900, level=1, shift=s, kind=k, nsym=1, step=23, threads=t) for m in (3, 4) for s in (0, 1) for k in (2, 5) for t in (1, 3)]
prop("P05", "every proper prefix of frames of inputs with one symbolic byte (all lengths forked); destinations of every size (steps of 1-23 bytes); levels 0-3, one to four superblocks, 1-3 threads",
     tr_q, [P("h_decode", 60, mode=4, chk=2, bpp=b, n=n, level=l, kind=k, nsym=2, pos=9, step=1) for b, n in ((1, 300), (2, 256), (3, 256), (4, 300)) for l in (1, 2) for k in (2, 5, 8)], [LZ4])
mt_q = [P("h_meta", 8, mode=0, len=14), P("h_meta", 8, mode=2)] + [P("h_meta", 6, mode=1, bpp=b, n=n, level=l, shift=s, kind=k, nsym=2) for b in (1, 2, 7) for n in (300, 1100) for l in (0, 1, 2) for s in (255, 0) for k in (0, 5)]
mt_q += [P("h_meta", 6, mode=1, bpp=2, n=70000, level=0, kind=5, nsym=2), P("h_meta", 6, mode=1, bpp=1, n=1100, level=1, kind=8, nsym=2, ns=1000000), P("h_meta", 6, mode=1, bpp=2, n=1500, level=1, kind=8, nsym=2, shift=0, threads=3)]
prop("P06", "arbitrary headers up to 14 bytes with any element size; frames of inputs up to 7700 bytes (one of 140000) with two symbolic bytes; header writing for any size below 2^56, any superblock size below 2^24 and capacities 0-16",
     mt_q, [P("h_meta", 60, mode=1, bpp=b, n=2000, level=l, shift=s, kind=k, nsym=3, threads=t) for b in (1, 3, 4) for l in (1, 2, 4) for s in (0, 1) for k in (2, 8) for t in (1, 2)], [LZ4])
tm_q = [P("h_timed", 5, bpp=b, n=n, kind=k, nsym=1, ns=1000000, clocks=c, guess=g, zmodes=z) for b, n, k in ((1, 300, 5), (2, 900, 1), (4, 600, 8), (1, 70000, 3)) for c in (5, 7) for g, z in ((0, 2), (1, 2), (0, 4))]
tm_q += [P("h_timed", 5, bpp=b, n=n, kind=k, nsym=1, ns=ns, clocks=c, threads=t) for b, n in ((1, 300), (2, 900), (4, 300), (2, 70000)) for k in (0, 5, 8) for ns in (1, 1000000) for c in (3, 5) for t in (1, 3)]
prop("P07", "the first 3 to 7 clock readings each advance by one of three amounts around the limit (all combinations forked), later ones by a fixed step; limits of 1 ns and 1 ms; up to 140000 bytes, 1-3 threads",
     tm_q, [P("h_timed", 60, bpp=b, n=n, kind=k, nsym=1, ns=1000000, clocks=8, threads=t, nsteps=4, zmodes=6) for b, n in ((1, 300), (2, 900), (2, 140000)) for k in (5, 8) for t in (1, 4)], [LZ4])
th_q = [P("h_same", 6, bpp=b, n=n, level=l, shift=s, kind=k, nsym=2, pos=p, threads=t) for b, n in ((1, 1100), (2, 900), (4, 600)) for l in (0, 1, 2) for s in (0, 1) for k, p in ((5, 3), (8, 601)) for t in (2, 4, 64)]
th_q += [P("h_same", 6, bpp=b, n=900, level=l, shift=s, kind=k, nsym=1, pos=3, threads=t, zmodes=z) for b in (1, 2, 4) for l, z in ((1, 2), (2, 4), (3, 30)) for s in (0, 1) for k in (1, 9, 0) for t in (2, 3)]
prop("P08", "inputs of 1 to 5 superblocks with two symbolic bytes; 2, 4 and 64 threads against one thread, for compression and decompression; worker schedules are fixed",
     th_q, [P("h_same", 60, bpp=b, n=2100, level=l, shift=s, kind=k, nsym=2, pos=p, threads=t) for b in (1, 2) for l in (1, 2) for s in (0, 1) for k, p in ((5, 3), (8, 601)) for t in (2, 7)], [LZ4])
cp_q = [P("h_cpu", 6, bpp=b, n=256, level=l, kind=k, nsym=2, pos=b * 35, ccpu=c) for b in (1, 2, 3, 4) for l in (1, 2) for k in (2, 5, 8) for c in (0, 1, 2, 3, 4)]
cp_q += [P("h_roundtrip", 5, cpu=c, bpp=b, n=n, level=l, kind=k, nsym=2, pos=b * 35) for c in CPUS for b, n in ((2, 256), (3, 300), (4, 256), (12, 256)) for l in (1, 2) for k in (5, 8)]
prop("P09", "frames made with each of five CPU feature sets and decoded with every one of them; inputs of 256 elements with two symbolic bytes; the byte transposition for every feature set is P15",
     cp_q, [P("h_cpu", 60, bpp=b, n=300, level=l, kind=k, nsym=3, pos=b * 35, ccpu=c, zmodes=6) for b in (2, 3, 4) for l in (1, 2) for k in (2, 5, 8) for c in (0, 2, 4)], [LZ4])
de_q = [P("h_same", 6, bpp=b, n=n, level=l, kind=k, nsym=2, pos=p, off=o) for b, n, o in ((1, 300, 1), (2, 256, 1), (3, 300, 2), (4, 256, 1), (8, 270, 3)) for l in (0, 1, 2, 3) for k, p in ((5, 3), (8, 600), (7, 100))]
de_q += [P("h_same", 6, src="full", bpp=b, n=n, level=l, kind=k, nsym=1, pos=p) for b, n in ((2, 256), (4, 300)) for l in (2, 3) for k, p in ((5, 3), (2, 200))]
de_q += [P("h_same", 6, bpp=b, n=n, level=l, kind=k, nsym=1, pos=p, prime=1, pbpp=pb) for b, n in ((1, 300), (1, 200), (2, 300), (4, 300), (3, 80)) for l in (1, 2) for k, p in ((0, 3), (2, 100), (5, 3), (8, 70)) for pb in (4, 1)]
prop("P10", "inputs up to 2160 bytes with two symbolic bytes compressed twice from different addresses into differently filled buffers; every byte of the frame is also checked to be independent of uninitialised memory",
     de_q, [P("h_same", 60, bpp=b, n=n, level=l, kind=k, nsym=3, pos=p, guess=1, zmodes=6) for b, n in ((2, 256), (4, 300)) for l in (1, 2) for k, p in ((5, 3), (8, 600), (2, 0))], [LZ4])
hs_q = [P("h_same", 8, bpp=b, n=n, level=l, shift=s, kind=k, nsym=1, pos=p, history=h, reset=r) for b, n in ((1, 300), (2, 256), (4, 300)) for l in (1, 2) for s in (255, 0) for k, p in ((8, 100),) for h in (1, 2, 3, 4, 5) for r in (0, 1)]
hs_q += [P("h_same", 8, bpp=b, n=n, level=1, kind=k, nsym=1, pos=100, history=h, reset=r, ns=ns, tick=t) for b, n, k in ((1, 40000, 3), (2, 900, 8), (1, 150000, 3), (2, 100000, 5)) for h, r in ((6, 0), (6, 1), (3, 0)) for ns, t in ((1000000, 1000), (100000000, 100000), (1000000, 20000))]
prop("P11", "five histories (other parameters and threads, failed calls, an expired time limit, foreign frames, a single block) before the call, with and without a reset of the context; inputs with one symbolic byte",
     hs_q, [P("h_same", 90, bpp=b, n=n, level=l, shift=s, kind=k, nsym=2, pos=100, history=99, reset=r) for b, n in ((1, 300), (2, 256), (4, 300)) for l in (1, 2) for s in (255, 0) for k in (5, 8) for r in (0, 1)], [LZ4])
pa_q = [P("h_params", 10, mode=0, level=l, n=n) for l in (0, 1, 2, 9) for n in (0, 1, 24, 60)] + [P("h_params", 10, mode=1, bpp=b) for b in (1, 2, 4)] + [P("h_params", 10, mode=2, bpp=b, n=300, kind=5, nsym=1) for b in (1, 2, 4, 65534 // 300)]
pa_q += [P("h_params", 10, mode=3, bpp=b) for b in (1, 4)] + [P("h_params", 10, mode=4)]
prop("P12", "all 2^64 element sizes, all 2^32 levels and thread counts, all 2^64 block shifts and time limits as symbolic values on small inputs; the bound formula for all sizes up to 2^50",
     pa_q, [P("h_params", 60, mode=2, bpp=b, n=n, kind=5, nsym=1) for b in (3, 7, 100) for n in (300, 600)], [LZ4])
al_q = [P("h_alloc", 8, bpp=b, n=n, level=l, kind=k, nsym=1, shift=s, threads=t, fails=f) for b, n in ((1, 300), (2, 256), (4, 300)) for l in (1, 2, 3) for k in (5,) for s, t in ((255, 1), (0, 1), (0, 3)) for f in (1, 3)]
al_q += [P("h_alloc", 8, bpp=2, n=n, level=l, kind=8, nsym=1, warm=0, fails=f, ns=ns) for n in (40, 300) for l in (1, 2) for f in (1, 2) for ns in (0, 1000000)]
prop("P13", "every subset of at most 1-3 failing allocations among those of one make/compress/decompress sequence (forked at each allocation)",
     al_q, [P("h_alloc", 60, bpp=b, n=n, level=l, kind=k, nsym=1, shift=s, threads=t, fails=9) for b, n in ((1, 600), (2, 600), (4, 600)) for l in (1, 2) for k in (5, 8) for s, t in ((0, 1), (0, 3))], [LZ4])
zf_q = [P("h_zfail", 6, bpp=b, n=n, level=l, kind=k, nsym=1, less=ls) for l in (1, 2, 3, 5, 9) for b, n, k in ((1, 300, 1), (2, 300, 5), (4, 300, 8), (3, 100, 9)) for ls in (0, 30)]
zf_q += [P("h_zfail", 6, bpp=2, n=900, level=3, shift=0, kind=8, nsym=1, threads=t) for t in (1, 3)] + [P("h_zfail", 6, bpp=1, n=100, level=3, kind=1, nsym=1), P("h_zfail", 6, bpp=2, n=900, ns=1000000, kind=8, nsym=1)]
prop("P14", "every call of the entropy coder answers, forked: error, another error, small, just below the source size, larger than the source, exactly the capacity",
     zf_q, [P("h_zfail", 60, bpp=b, n=n, level=l, kind=k, nsym=1, shift=s) for l in (2, 3) for b, n, k in ((1, 900, 1), (2, 900, 5), (4, 600, 8)) for s in (255, 0)])
prop("P15", "all byte values (every byte symbolic, the result is compared as an expression) for element sizes 2-65, every number of elements up to 67 and some more, every CPU feature set",
     [P("h_transform", 10, cpu=cpu, bpp=b, n=n, which=0) for cpu in CPUS for b in list(range(2, 20)) + [24, 32, 33, 48, 64] for n in (b * 256, b * 5 + 1, b * 37 + b - 1)] +
     [P("h_transform", 30, cpu=cpu, bpp=b, n=b, last=b * 67 + 1, step=b, which=0) for cpu in CPUS for b in range(2, 66)] +
     [P("h_transform", 10, cpu=cpu, bpp=b, n=b * 18 + 1, which=0, inj=1) for cpu in CPUS for b in (2, 3, 4, 7, 8, 12)] +
     [P("h_transform", 10, cpu=cpu, bpp=b, n=b * 256, which=0, off=o) for cpu in CPUS for b in (2, 4, 8, 16) for o in (1, 8)],
     [P("h_transform", 30, cpu=cpu, bpp=b, n=n, which=0) for cpu in CPUS for b in list(range(20, 70)) + [128, 255, 256, 300] for n in (b * 256 + 3, b * 16, b * 15 + 1, b * 129)])
LONG = list(range(2049, 2061)) + [2176, 2175, 2179, 2303, 3000, 5003]
prop("P16", "all byte values for lengths 1-300, 2047-2190 and some 80 lengths between 301 and 6000, every CPU feature set",
     [P("h_transform", 10, cpu=cpu, n=n, which=1) for cpu in CPUS for n in list(range(1, 70)) + [127, 128, 129, 255, 256, 257, 1000, 2047, 2048] + LONG] +
     [P("h_transform", 60, cpu=cpu, n=a, last=b, step=s, which=1) for cpu in CPUS for a, b, s in ((70, 300, 1), (301, 2048, 37), (2049, 2190, 1), (2191, 6000, 151))] +
     [P("h_transform", 10, cpu=cpu, n=n, which=1, inj=1) for cpu in CPUS for n in (5, 16, 17, 31)] + [P("h_transform", 10, cpu=cpu, n=n, which=1, off=o) for cpu in CPUS for n in (64, 100) for o in (1, 15)],
     [P("h_transform", 30, cpu=cpu, n=n, which=1) for cpu in CPUS for n in (4096, 9001, 20000)] + [P("h_transform", 300, cpu=cpu, n=2191, last=4600, which=1) for cpu in CPUS])
prop("P17", "any monotonic clock (seconds and nanoseconds symbolic) over two readings", [P("h_timer", 20), P("h_timer", 20, maxs=4)], [])

# ---------------------------------------------------------------- compressed vector
CV_STRUCT = (0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 24, 25, 26, 28, 30, 35, 36, 40, 41)
CV_ELEM = (8, 9, 13, 14, 15, 16, 21, 22, 23, 27, 29, 32, 33, 34, 39)
CV_WHOLE = (17, 18, 19, 20, 31, 37, 38)
def mask(*ls):
    m = 0
    for l in ls:
        for i in l: m |= 1 << i
    return m
TYPES = ((), ("CV_T=uint8_t",), ("CV_T=uint64_t",), ("CV_T=T12",), ("CV_T=T3",))
def cv(first, t1, t2, second):
    q = [P("h_cvec", t1, first=o, steps=1, defs=d) for o in first for d in TYPES]
    q += [P("h_cvec", t2, first=o, steps=2, mask=second) for o in first]
    q += [P("h_cvec", t1, first=o, steps=1, defs=("CV_LEVEL=1", "CV_T=uint16_t")) for o in first]
    q += [P("h_cvec", t2, first=o, steps=2, mask=second, defs=("CV_SHIFT=1",), n0=520) for o in first]
    return q
def cvbig(first, **kw): # several whole blocks, some compressed, some not
    return [P("h_cvec", 8, first=o, steps=2, n0=n, shrunk=sh, dirty=d, mask=mask((0, 1, 6, 7, 12, 25)), **kw) for o in first for n, sh, d in ((1024, 1, 2), (1024, 0, 0), (770, 1, 1))]
def cvt(first):
    return [P("h_cvec", 60, first=o, steps=3, n0=n, shrunk=1, dirty=2, mask=mask((0, 1, 5, 6, 7, 8, 10, 12, 25))) for o in first for n in (1024, 1300)] + [P("h_cvec", 60, first=o, steps=3) for o in first] + [P("h_cvec", 60, first=o, steps=2, defs=("CV_LEVEL=%d" % l, "CV_T=uint16_t")) for o in first for l in (1, 2)] + \
           [P("h_cvec", 40, first=o, steps=1, n0=n, allpos=1) for o in first for n in (0, 1, 255, 256, 257, 300)]
CVB = "vectors of about 550 elements (two blocks and a part; blocks of 256 or 512 elements) of 1, 2, 4, 8, 12 and 3 byte elements; every %s followed by every other operation, positions at the ends, the block borders and the middle; symbolic element values"
prop("P19", CVB % "insertion, removal and resize", cv(CV_STRUCT, 4, 5, 0x3FFFFFFFFFF) + cvbig(CV_STRUCT), cvt(CV_STRUCT))
def se(t, **kw):
    d = kw.pop("defs", ())
    return P("h_cvser", t, defs=d, **kw)
L1 = ("CV_LEVEL=1",)
se_q = [se(8, mode=0, n=n, at=a, cnt=c, stream=st) for st in (0, 1) for n, a, c in ((296, 0, 12), (40, 0, 12), (296, 12, 1), (296, 13, 1), (296, 13, 2), (296, 14, 2), (296, 1040, 1), (296, 1040, 4), (40, 12, 4), (40, 12, 1), (520, 12, 1))]
se_q += [se(6, mode=0, n=n, at=a, cnt=c, cut=k, stream=st) for st in (0, 1) for n, a, c, k in ((296, 1040, 4, 40), (296, 1040, 1, 5), (40, 12, 4, 100), (40, 0, 12, 164))]
se_q += [se(10, mode=0, n=n, nsym=0, at=a, cnt=c, stream=st, defs=d) for st in (0, 1) for d in (L1, L1 + ("CV_T=T3",), L1 + ("CV_T=uint8_t",)) for n, a, c in ((296, 0, 12), (296, 12, 1), (40, 12, 4), (40, 16, 4), (296, 20, 4))]
se_q += [se(5, mode=1, n=n, lo=a, hi=b, nsym=0, stream=st, defs=d) for st in (0, 1) for d in ((), L1, L1 + ("CV_T=T3",)) for n, a, b in ((296, 0, 60), (296, 960, 1300), (40, 0, 300))]
se_q += [se(5, mode=2, n=n, lo=0, hi=60, nsym=0, fromend=fe, stream=st, shrunk=sh, defs=d) for st in (0, 1) for d in ((), L1, L1 + ("CV_T=T12",)) for sh in (0, 1) for n in (0, 40, 256, 296, 520) for fe in (0, 1)]
prop("P20", "vectors of 0 to 520 elements at two levels, from memory and from a stream: all values of windows of 1-12 bytes over the header, the block headers and the start of compressed blocks, every cut, every destination capacity near the needed one and near 0; blocks of accepted vectors are not decompressed (they are not validated by design)",
     se_q, [se(60, mode=0, n=n, at=a, cnt=c, stream=st, used=u) for st in (0, 1) for u in (0, 1) for n, a, c in ((296, 12, 4), (520, 1038, 4), (40, 12, 8))] + [se(60, mode=m, n=n, lo=0, hi=1300, defs=d, stream=st) for m in (1, 2) for n in (296, 513) for d in ((), L1, L1 + ("CV_T=T3",)) for st in (0, 1)])
prop("P21", CVB % "element access, iteration and for_each", cv(CV_ELEM, 4, 5, 0x3FFFFFFFFFF) + cvbig(CV_ELEM), cvt(CV_ELEM))
prop("P22", CVB % "copy, move, assignment, swap and serialization", cv(CV_WHOLE, 4, 8, 0x3FFFFFFFFFF) + cvbig(CV_WHOLE), cvt(CV_WHOLE))

LIFE_MOVE = list(range(0, 19))
LIFE_COPY = LIFE_MOVE + list(range(20, 31))
def lf(life, **kw): return [P("h_cvlife", kw.get("t", 3), first=o, defs=("LIFE=%d" % life, "CV_LEVEL=%d" % kw.get("level", 0)), **{k: v for k, v in kw.items() if k not in ("t", "level")}) for o in (LIFE_COPY if life < 2 else LIFE_MOVE)]
CVL = "vectors of about 550 elements, and an object type that counts its constructions and destructions, one that can only be moved, and unique_ptr"
prop("P23", CVL + "; every operation, alone and followed by every other, at the ends, block borders and middle, on freshly filled, modified and compressed vectors",
     [c for l in (1, 2, 3) for kw in (dict(), dict(dirty=2, shrunk=1)) for c in lf(l, steps=1, **kw)] + lf(1, steps=2, t=6) + lf(2, steps=2, t=5, dirty=2) + lf(1, steps=1, level=1, shrunk=1) + lf(0, steps=1, n0=512) + lf(1, steps=1, n0=512) + lf(1, steps=1, n0=256) + lf(2, steps=1, n0=256) + lf(1, steps=1, n0=10) + lf(1, steps=1, n0=1024, dirty=2, shrunk=1),
     lf(1, steps=3, t=40) + lf(3, steps=2, t=40, shrunk=1) + lf(2, steps=2, t=40, level=1, shrunk=1))
prop("P24", CVL + "; one operation in which any one or two allocations fail (forked at each allocation), or the construction number 0, 1, 2, 4 or around the block size throws, then further operations",
     [c for l in (0, 1, 2) for f in (1, 2) for kw in (dict(), dict(dirty=2, shrunk=1)) for c in lf(l, steps=1, fails=f, **kw)] + [c for kw in (dict(), dict(dirty=2, shrunk=1), dict(n0=512)) for c in lf(1, steps=1, throws=1, **kw)] + lf(1, steps=1, fails=1, level=1, shrunk=1) + [c for kw in (dict(n0=10), dict(n0=1024, dirty=2, shrunk=1)) for c in lf(1, steps=1, fails=1, **kw)],
     [c for l in (0, 1, 3) for c in lf(l, steps=2, fails=1, t=40, dirty=1)] + lf(1, steps=2, throws=1, t=40, dirty=2) + lf(1, steps=1, throws=1, fails=1, t=20))

# ---------------------------------------------------------------- schedules
def po(t, **kw): return P("h_pool", t, "none", **kw)
po_q = [po(20, workers=w, users=u, tasks=k, rounds=r, preempt=p) for w, u, k, r, p in ((1, 1, 1, 2, 8), (1, 1, 3, 1, 8), (1, 1, 2, 2, 6), (2, 1, 2, 1, 6), (2, 1, 3, 1, 4), (2, 1, 1, 3, 3), (2, 1, 2, 2, 3), (1, 2, 1, 1, 6), (1, 2, 1, 2, 3), (1, 2, 2, 1, 4), (2, 2, 1, 1, 3), (2, 2, 2, 1, 1), (3, 1, 2, 1, 2), (1, 3, 1, 1, 2))]
po_q += [po(20, workers=w, users=u, tasks=k, optional=1, leave=1, preempt=p) for w, u, k, p in ((1, 1, 1, 6), (2, 1, 1, 4), (2, 1, 2, 3), (1, 2, 1, 3))]
po_q += [po(20, workers=w, users=u, tasks=k, fails=f, preempt=p) for f in (1, 2) for w, u, k, p in ((1, 1, 2, 5), (2, 1, 2, 3), (1, 2, 1, 3))]
po_q += [po(20, workers=w, users=u, tasks=k, rounds=2, sizes=z, preempt=p) for w, u, k, z, p in ((1, 1, 1, 16, 6), (2, 1, 1, 16, 4), (2, 1, 2, 33, 2), (2, 1, 2, 18, 2), (2, 1, 2, 256 + 18, 2), (1, 1, 2, 66, 3), (1, 1, 2, 256 + 66, 3), (1, 2, 2, 34, 1), (1, 2, 1, 16, 2))]
prop("P26", "pools of 1-3 workers, 1-2 threads that each push 1-3 tasks of one or two sizes and wait, once or twice; every schedule of lock, condition variable and atomic operations with up to 1-8 preemptions, every happens-before race between plain accesses, every failing task allocation",
     po_q, [po(250, workers=w, users=u, tasks=k, rounds=r, preempt=p) for w, u, k, r, p in ((2, 2, 2, 1, 2), (2, 1, 3, 1, 8), (2, 1, 2, 1, 20), (1, 1, 3, 2, 20), (1, 2, 1, 1, 20), (3, 2, 1, 1, 2), (1, 2, 2, 2, 3), (2, 3, 1, 1, 1), (2, 2, 1, 1, 6))])

def mt(t, **kw): return P("h_mt", t, hw=1, **kw)
mt_q = [mt(14, users=1, nsym=0, preempt=p, **kw) for kw in (dict(), dict(kind=1), dict(kind=5), dict(level=3, bpp=4, n=513), dict(level=9, bpp=4, n=513, zmodes=4), dict(level=0), dict(level=0, extra=1, n=511), dict(tight=1, kind=5), dict(small=1, kind=5), dict(small=800, kind=1), dict(small=600, kind=1, level=2), dict(n=1030), dict(warm=1, kind=5), dict(level=2, bpp=3, n=700)) for p in (0, 1)]
mt_q += [mt(30, users=1, preempt=0, kind=1, nsym=k, pos=pos, stride=512) for k, pos in ((1, 0), (1, 512), (2, 5), (3, 1100))]
mt_q += [mt(14, users=2, threads=1, nsym=0, preempt=p, **kw) for kw in (dict(), dict(kind=5), dict(kind=7, bpp=4, n=512), dict(level=2, kind=5), dict(level=0), dict(level=9, bpp=3)) for p in (1, 2)]
mt_q += [mt(14, users=3, threads=1, nsym=0, preempt=0, **kw) for kw in (dict(kind=5), dict(level=2, kind=5))]
mt_q += [mt(30, users=2, threads=2, n=300, nsym=0, preempt=0, noread=1, **kw) for kw in (dict(), dict(level=2, kind=5), dict(level=0))]
mt_q += [mt(14, users=1, nsym=0, preempt=0, fails=f, **kw) for f in (1, 2) for kw in (dict(), dict(kind=5, n=300), dict(level=3, kind=5))]
mt_q += [mt(60, users=1, nsym=0, preempt=0, n=70000, ns=1000000, noread=1, clocks=c, kind=k) for c, k in ((0, 0), (1, 1))]
prop("P18", "frames of 2-5 superblocks compressed and decompressed with 2 threads by 1 caller, or with 1 thread by 2-3 callers, or with 2 threads by 2 callers, on a pool of 2 workers; every schedule of lock, condition variable and atomic operations with up to 0-2 preemptions, every happens-before race between plain accesses at concrete addresses, too small destinations, every failing allocation",
     mt_q, [mt(300, users=1, nsym=0, preempt=2, n=512), mt(300, users=1, nsym=0, preempt=3, n=300, kind=5), mt(300, users=2, threads=2, nsym=0, preempt=0, n=300), mt(300, users=2, threads=2, nsym=0, preempt=1, n=300, noread=1), mt(300, users=2, threads=1, nsym=0, preempt=4, level=2, kind=5), mt(300, users=1, nsym=1, preempt=1, kind=1), mt(300, users=1, nsym=0, preempt=1, n=70000, ns=1000000, clocks=2, kind=5), mt(300, users=1, nsym=0, preempt=0, threads=3, n=1030), mt(300, users=3, threads=1, nsym=0, preempt=2, level=2)])

def cm(t, a, b, **kw): return P("h_cvmt", t, a=a, b=b, hw=1, **kw)
CMO = (0, 1, 2, 3, 4, 5, 6, 8, 9, 10)
cm_q = [cm(30, a, b, state=(a + b + k) % 3, range=(2 * a + b + 3 * k) % 4, preempt=2 - k) for a in CMO for b in CMO if a <= b for k in (0, 1)]
cm_q += [cm(30, a, b, state=1 + k, preempt=1, fails=1) for k in (0, 1) for a, b in ((0, 0), (0, 3), (1, 4), (3, 4), (2, 8), (9, 10))]
cm_q += [cm(30, 3, 4, state=1, range=1, n=1500, preempt=2), cm(30, 0, 4, state=1, n=5200, preempt=1), cm(30, 3, 4, state=1, rounds=2, preempt=1), cm(30, 0, 3, state=1, rounds=2, preempt=1), cm(30, 0, 3, nsym=2, preempt=2), cm(30, 3, 4, state=2, flat=0, preempt=2)]
cm_q += [cm(30, a, b, state=s, preempt=1, after=2, range=g) for a, b, s, g in ((0, 0, 1, 0), (0, 5, 1, 0), (0, 1, 1, 0), (1, 2, 1, 3), (2, 8, 1, 0), (9, 9, 1, 0), (0, 3, 2, 2), (3, 4, 2, 1), (6, 1, 1, 0), (5, 10, 1, 3))]
cm_q += [cm(30, 7, b, state=2, preempt=0) for b in (0, 2, 3, 4, 7)] + [cm(30, a, b, state=1, preempt=1, defs=("CV_LEVEL=1",)) for a, b in ((0, 5), (3, 4), (1, 3))]
prop("P25", "one vector of 3 blocks (up to 21 in a few configurations), fresh, compressed, or compressed and modified, used by 2 threads that each read (by index, iterator, reference, copy, visit) or visit and modify the same, overlapping or disjoint ranges; every schedule of lock and atomic operations with up to 2 preemptions, every happens-before race between plain accesses, one failing allocation",
     cm_q, [cm(120, a, b, state=s, range=r, preempt=2) for a in CMO for b in CMO if a <= b for s in (0, 1, 2) for r in (0, 1, 2, 3)] + [cm(120, a, b, state=1, preempt=3) for a, b in ((0, 3), (3, 4), (0, 5), (1, 2))] + [cm(120, 7, b, state=2, preempt=1) for b in (0, 2, 4, 5, 8)] + [cm(120, 1, 2, state=1, rounds=2, preempt=2), cm(120, 0, 0, state=1, fails=2, preempt=2)] + [cm(120, a, b, state=s, preempt=2, after=3) for a, b in ((0, 0), (0, 1), (1, 2), (2, 8), (9, 9), (0, 3), (3, 4), (5, 10)) for s in (1, 2)])

AL = ((), ("POCCA=1",), ("POCMA=1",), ("POCS=1",), ("POCCA=1", "POCMA=1", "POCS=1"))
def al(t, d, **kw): return P("h_cvalloc", t, defs=d, first=99, **kw)
al_q = [al(30, d, same=s) for d in AL for s in (0, 1)] + [al(30, d, same=0, steps=2) for d in AL] + [al(30, d, same=0, fails=f, **kw) for d in AL for f, kw in ((1, {}), (2, dict(shrunk=1)))]
al_q += [al(30, d + ("CV_LEVEL=1",), same=0, shrunk=1) for d in AL] + [al(30, (), same=0, na=0, nb=256), al(30, (), same=0, na=256, nb=0)]
prop("P27", "two vectors of up to 3 blocks of a 4 byte type, compressed or not, with equal or different allocators, all combinations of the three propagation traits that matter; one operation (two in some configurations, three in thorough) out of ten kinds followed by ordinary work on both vectors; any one or two failing allocations of the allocator; two symbolic values repeated in the elements",
     al_q, [al(300, d, same=s, steps=3) for d in AL for s in (0, 1)] + [al(200, d, same=s, steps=2, fails=2, shrunk=1) for d in AL for s in (0, 1)] + [al(100, d + ("CV_LEVEL=1",), same=s, steps=2) for d in AL for s in (0, 1)])

def ft(t, **kw):
    d = kw.pop("defs", ())
    return P("h_foot", t, defs=d, **kw)
ft_q = [ft(40, vec=0, steps=2)] + [ft(20, vec=1, steps=3, n=n) for n in (0, 255, 775, 1300)] + [ft(20, vec=1, steps=2, nsym=0, n=n, defs=d) for n in (775, 1024) for d in (("CV_LEVEL=1", "CV_T=uint16_t"), ("CV_LEVEL=1",), ("CV_LEVEL=2", "CV_T=uint64_t"), ("CV_SHIFT=1",), ("CV_T=uint8_t", "CV_LEVEL=1"))] + [ft(20, vec=1, steps=1, nsym=1, defs=("CV_LEVEL=1", "CV_T=uint16_t"))]
prop("P28", "contexts: two compressions (and decompressions) with 1, 2 or 5 threads, levels 0, 2 and 3, 0 to 9000 bytes, default and custom superblocks, all combinations; vectors of 0 to 1300 elements of 1 to 8 bytes at levels 0 to 2, every history of up to 3 (thorough: 5) out of 12 operations",
     ft_q, [ft(200, vec=1, steps=5, n=n) for n in (255, 775)] + [ft(200, vec=1, steps=3, nsym=0, n=775, defs=d) for d in (("CV_LEVEL=1", "CV_T=uint16_t"), ("CV_LEVEL=1",), ("CV_LEVEL=2", "CV_T=uint64_t"))] + [ft(400, vec=0, steps=3)])
prop("P29", "none: every value of every function, every alignment within 8 bytes, alignments of aligned memory from 8 to 256 bytes and sizes of 1, 101 and 201 bytes", [P("h_bits", 60, src="none")], [], tf=2)
