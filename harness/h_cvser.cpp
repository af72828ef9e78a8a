// serialized vectors: any bytes, any cut, any destination capacity
#include "cvcommon.h"
// 0: any bytes given to deserialize, 1: every cut of a serialized vector, 2: every capacity of a destination
static void fill(V& v, Model& m, size_t n)
{
	for (size_t i = 0; i < n; ++i) { T x = konst(i); v.push_back(x); m.d[m.n++] = x; }
	unsigned ns = (unsigned)sym_param("nsym", 2);
	for (unsigned i = 0; i < ns && i < n; ++i) { size_t p = i & 1 ? n - 1 - i : i; T x = value("v"); v[p] = x; m.d[p] = x; }
	if (sym_param("shrunk", 0)) v.shrink_to_fit();
}
static size_t read_back(V& w, const uint8_t* p, size_t n, bool stream)
{
	if (!stream)
		return w.deserialize(p, n);
	In in = { p, 0, n, false };
	size_t r = w.deserialize(in);
	if (!stenos_has_error(r)) sym_assert(in.pos <= n && !in.bad, "the stream is read within its end");
	return r;
}
int main()
{
	{ // state of the library that lives as long as the thread
		V w;
		Model m;
		for (size_t i = 0; i < 2 * B; ++i) w.push_back(konst(i));
		w.shrink_to_fit();
		T s = w[1];
		(void)s;
		uint8_t in[100], out[200];
		memset(in, 3, sizeof in);
		size_t r = stenos_compress(in, 1, sizeof in, out, sizeof out, 3);
		stenos_decompress(out, 1, r, in, sizeof in);
		for (unsigned code = 1; code <= 6; ++code) { // buffers the decoders keep for the thread
			V x;
			size_t cap = stenos_bound(40 * sizeof(T)) + 80;
			for (size_t i = 0; i < 40; ++i) x.push_back(konst(i));
			uint8_t* o = exact(cap);
			size_t k = x.serialize(o, cap);
			o[12] = (uint8_t)code;
			x.deserialize(o, (size_t)sym_concretize(k));
			free(o);
		}
	}
	uint64_t live = sym_heap_live();
	{
		size_t n = sym_param("n", B + 40), stream = sym_param("stream", 0);
		V v;
		Model m;
		fill(v, m, n);
		size_t cap = stenos_bound(n * sizeof(T)) + 64 + 4 * (n / B + 1);
		switch (sym_param("mode", 0)) {
			case 0: { // bytes of a serialized vector replaced by any others
				uint8_t* buf = exact(cap);
				size_t r = v.serialize(buf, cap);
				sym_assert(!stenos_has_error(r), "serialization succeeds");
				r = (size_t)sym_concretize(r);
				size_t at = sym_param("at", 0), cnt = sym_param("cnt", 4);
				if (at >= r) { free(buf); break; }
				if (cnt > r - at) cnt = r - at;
				size_t cut = sym_param("cut", 0);
				uint8_t* in = exact(r - cut);
				memcpy(in, buf, r - cut);
				if (at + cnt <= r - cut) sym_bytes(in + at, cnt, "any");
				V w;
				if (sym_param("used", 0)) w.push_back(konst(1));
				size_t r2 = read_back(w, in, r - cut, stream != 0);
				if (!stenos_has_error(r2)) {
					sym_cover("accepted");
					stenos_info info;
					size_t hs = stenos_get_info(in, sizeof(T), r - cut, &info);
					sym_assert(!stenos_has_error(hs) && r2 == w.size() && w.size() * sizeof(T) == info.decompressed_size, "an accepted vector has the announced size");
				}
				else
					sym_cover("refused");
				// whatever was accepted can grow again
				if (w.size() < 4 * B && w.size() % B) { size_t s = w.size(); w.push_back(konst(5)); sym_assert(w.size() == s + 1, "the vector can be used"); }
				free(in);
				free(buf);
				break;
			}
			case 1: {
				uint8_t* buf = exact(cap);
				size_t r = v.serialize(buf, cap);
				r = (size_t)sym_concretize(r);
				size_t lo = sym_param("lo", 0), hi = sym_param("hi", 40);
				if (hi > r - 1) hi = r - 1;
				if (lo > hi) { free(buf); break; }
				size_t c = (size_t)sym_fork("cut", lo, hi);
				uint8_t* in = exact(c);
				memcpy(in, buf, c);
				V w;
				size_t r2 = read_back(w, in, c, stream != 0);
				sym_assert(stenos_has_error(r2), "a cut vector is refused");
				sym_assert(w.size() <= n, "no element is made up");
				sym_cover("cut");
				free(in);
				free(buf);
				break;
			}
			case 2: {
				uint8_t* whole = exact(cap);
				size_t r = v.serialize(whole, cap);
				sym_assert(!stenos_has_error(r), "serialization succeeds");
				r = (size_t)sym_concretize(r);
				size_t c = (size_t)sym_fork("capacity", sym_param("lo", 0), sym_param("hi", 60));
				if (sym_param("fromend", 0)) c = r + 3 > c ? r + 3 - c : 0;
				uint8_t* dst = exact(c);
				size_t r2;
				if (stream) {
					Out o = { dst, 0, c, false };
					r2 = v.serialize(o);
				}
				else
					r2 = v.serialize(dst, c);
				if (c < r) sym_assert(stenos_has_error(r2), "a destination that is too small is an error");
				else {
					sym_assert(r2 == r, "the same size with any sufficient destination");
					sym_assert(!sym_differs(dst, whole, r), "the same bytes with any sufficient destination");
				}
				check(v, m, "serialization does not change the vector");
				free(dst);
				free(whole);
				break;
			}
		}
		check(v, m, "elements of the vector");
	}
	sym_assert(sym_heap_live() <= live, "no memory is lost");
	sym_cover("end");
	return 0;
}
