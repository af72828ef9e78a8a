// the reported memory footprints are the memory that is held, the compression ratios follow from them
#include "cvcommon.h"
static const size_t N = 9000;
static uint8_t* src;
static uint64_t parts; // number of allocations
static uint64_t held(stenos_context* c)
{
	uint64_t a = sym_heap_bytes(), n = sym_heap_live();
	stenos_destroy_context(c);
	parts = n - sym_heap_live();
	return a - sym_heap_bytes();
}
static void context()
{
	unsigned steps = (unsigned)sym_param("steps", 2);
	stenos_context* c = stenos_make_context();
	for (unsigned s = 0; s < steps; ++s) {
		unsigned th = (unsigned)sym_fork("threads", 0, 2), lv = (unsigned)sym_fork("level", 0, 2), sz = (unsigned)sym_fork("size", 0, 3), sh = (unsigned)sym_fork("shift", 0, 1);
		static const unsigned T[] = { 1, 2, 5 }, L[] = { 0, 2, 3 }, S[] = { 0, 100, 1500, 9000 };
		stenos_set_threads(c, (int)T[th]);
		stenos_set_level(c, (int)L[lv]);
		stenos_set_block_size(c, sh ? 1 : STENOS_NO_BLOCK_SHIFT);
		size_t n = S[sz], cap = stenos_bound(n) + 200;
		uint8_t* d = exact(cap);
		size_t r = (size_t)sym_concretize(stenos_compress_generic(c, src, 3, n - n % 3, d, cap));
		if (sym_fork("back", 0, 1) && !stenos_has_error(r)) {
			uint8_t* o = exact(n);
			sym_concretize(stenos_decompress_generic(c, d, 3, r, o, n));
			free(o);
		}
		free(d);
	}
	if (sym_fork("reset", 0, 1)) stenos_reset_context(c);
	uint64_t f = sym_concretize(stenos_memory_footprint(c));
	uint64_t h = held(c);
	SYM_OBS(f, "footprint");
	sym_assert(f <= h, "a context does not report more memory than it holds");
	sym_assert(h <= f + 16 * (parts > 4 ? parts - 4 : 0), "a context reports the memory it holds");
}
static void vec()
{
	uint64_t h, f;
	{
		V* v = new V;
		size_t n = (size_t)sym_param("n", 3 * B + 7);
		T x = (T)sym_u64("x", 0, 0xFF);
		for (size_t i = 0; i < n; ++i) v->push_back(i % B == 3 && sym_param("nsym", 1) ? x : (T)(i * 5));
		for (unsigned k = 0; k < (unsigned)sym_param("steps", 2); ++k) 
		switch (sym_fork("what", 0, 11)) {
			case 0: break;
			case 1: v->shrink_to_fit(); break;
			case 2: if (v->size()) { T a = v->front(); (void)a; } break;
			case 3: for (size_t i = 0; i < v->size(); i += B) (*v)[i] = 7; break;
			case 4: v->resize(v->size() / 2); break;
			case 5: v->clear(); break;
			case 6: v->resize(v->size() + 2 * B); break;
			case 7: { V w(*v); w.shrink_to_fit(); *v = w; break; }
			case 8: {
				size_t c = stenos_bound(v->size() * sizeof(T)) + 64;
				uint8_t* d = exact(c);
				size_t r = (size_t)sym_concretize(v->serialize(d, c));
				if (!stenos_has_error(r)) sym_concretize(v->deserialize(d, r));
				free(d);
				break;
			}
			case 9: v->erase(v->begin(), v->begin() + (long)(v->size() / 3)); break;
			case 10: v->insert(v->begin() + (long)(v->size() / 2), B + 3, (T)9); break;
			default: v->const_for_each(0, v->size(), [](const T&) {}); break;
		}
		f = sym_concretize(v->memory_footprint());
		size_t sz = v->size();
		float r = v->current_compression_ratio(), cr = v->compression_ratio();
		sym_assert(f == 0 ? r == 0.f : r == (float)(sz * sizeof(T)) / (float)f, "the current ratio is the size divided by the footprint");
		float full = (float)(B * sizeof(T));
		if (CV_LEVEL == 0) sym_assert(cr == 0.f || (cr * (full + 4) > full - 1 && cr * (full + 4) < full + 1), "the compression ratio of stored blocks");
		uint64_t a = sym_heap_bytes();
		delete v;
		h = a - sym_heap_bytes() - sizeof(V);
	}
	SYM_OBS(f, "footprint");
	sym_assert(f <= h, "a vector does not report more memory than it holds");
	sym_assert(h <= f + 64, "a vector reports the memory it holds");
}
int main()
{
	src = exact(N);
	for (size_t i = 0; i < N; ++i) src[i] = (uint8_t)(i / 7 + (i % 11 == 0));
	if (sym_param("vec", 0)) vec();
	else context();
	sym_cover("end");
	return 0;
}
