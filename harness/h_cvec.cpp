// a vector behaves like the sequence of its elements: any short history of operations, any values
#include "cvcommon.h"
#include <list>
static V* v;
static Model* m;
static V* other;
static Model* om;
static unsigned steps;
// moves of an iterator
template<class It> static size_t moves(It it)
{
	size_t p = place("pos", m->n, false), q = place("pos2", m->n, false), k = p;
	uint8_t bad = 0;
	auto look = [&](const It& x, size_t i) { if (i < m->n) { const T& e = *x; bad |= sym_differs(&e, m->d + i, sizeof(T)); } };
	it = it + (ptrdiff_t)p;
	const It at = it;
	if (sym_fork("look", 0, 1)) look(it, p); // (the position in the block is kept, or found later)
	switch (sym_fork("how", 0, 5)) {
		case 0: it += (ptrdiff_t)q - (ptrdiff_t)p; k = q; break;
		case 1: it -= (ptrdiff_t)p - (ptrdiff_t)q; k = q; break;
		case 2: for (unsigned i = 0; i < 3 && k < m->n; ++i, ++k) { It old = it++; look(old, k); look(it, k + 1); } break;
		case 3: for (unsigned i = 0; i < 3 && k > 0; ++i, --k) { It old = it--; look(old, k); look(it, k - 1); } break;
		case 4: if (k + 1 < m->n) { ++it; look(it, ++k); } break;
		default: if (k) { --it; look(it, --k); } break;
	}
	look(it, k);
	if (q < m->n) { const T& e = it[(ptrdiff_t)q - (ptrdiff_t)k].get(); bad |= sym_differs(&e, m->d + q, sizeof(T)); }
	sym_assert(bad == 0, "moved iterators give the elements of their place");
	sym_assert(it - at == (ptrdiff_t)k - (ptrdiff_t)p && (it == at) == (k == p) && (it != at) == (k != p) && (it < at) == (k < p) && (it > at) == (k > p) && (it <= at) == (k <= p) && (it >= at) == (k >= p), "comparison of iterators");
	It other = v->begin(); other = it;
	look(other, k);
	sym_assert(bad == 0, "a copied iterator is at the same place");
	return k < m->n ? k : p;
}
static void op(unsigned o)
{
	switch (o) {
		case 0: { T x = value("v"); v->push_back(x); m->insert(m->n, 1, x); break; }
		case 1: if (m->n) { v->pop_back(); --m->n; } break;
		case 2: { // insert one
			size_t p = place("pos", m->n, true); T x = value("v");
			auto it = v->insert(v->cbegin() + p, x);
			m->insert(p, 1, x);
			sym_assert(it - v->begin() == (ptrdiff_t)p, "insert returns the place of the new element");
			break;
		}
		case 3: if (m->n) { // erase one
			size_t p = place("pos", m->n, false);
			auto it = v->erase(v->cbegin() + p);
			m->erase(p, p + 1);
			sym_assert(it - v->begin() == (ptrdiff_t)p, "erase returns the following place");
			break;
		} break;
		case 4: { // insert several equal elements
			size_t p = place("pos", m->n, true), c = sym_param("cnt", 3) ; c = sym_fork("big", 0, 1) ? c + B : c;
			T x = value("v");
			auto it = v->insert(v->cbegin() + p, c, x);
			m->insert(p, c, x);
			sym_assert(it - v->begin() == (ptrdiff_t)p, "insert returns the place of the first new element");
			break;
		}
		case 5: if (m->n) { // erase a range
			size_t a = place("pos", m->n, true), b = place("pos2", m->n, true);
			if (a > b) { size_t t = a; a = b; b = t; }
			auto it = v->erase(v->cbegin() + a, v->cbegin() + b);
			m->erase(a, b);
			sym_assert(it - v->begin() == (ptrdiff_t)a, "erase returns the following place");
		} break;
		case 6: { // resize
			static const size_t sz[] = { 0, 1, B - 1, B, B + 1, 2 * B, 2 * B + 1, 3 * B, 3 * B + 5 };
			size_t c = sz[sym_fork("size", 0, 8)];
			T zero; memset(&zero, 0, sizeof zero);
			v->resize(c);
			m->resize(c, zero);
			break;
		}
		case 7: {
			static const size_t sz[] = { 0, 1, B - 1, B, B + 1, 2 * B, 2 * B + 1, 3 * B, 3 * B + 5 };
			size_t c = sz[sym_fork("size", 0, 8)];
			T x = value("v");
			v->resize(c, x);
			m->resize(c, x);
			break;
		}
		case 8: if (m->n) { size_t p = place("pos", m->n, false); T x = value("v"); (*v)[p] = x; m->d[p] = x; } break;
		case 9: { // checked access
			size_t p = place("pos", m->n + 2, false);
			bool thrown = false;
			T got; memset(&got, 0, sizeof got);
			try { got = (const T&)v->at(p); } catch (const std::out_of_range&) { thrown = true; }
			sym_assert(thrown == (p >= m->n), "at throws exactly outside the vector");
			if (!thrown) sym_assert(sym_differs(&got, m->d + p, sizeof(T)) == 0, "at gives the element");
			break;
		}
		case 10: v->shrink_to_fit(); break;
		case 11: v->clear(); m->n = 0; break;
		case 12: { size_t c = sym_fork("big", 0, 1) ? 2 * B + 3 : 5; T x = value("v"); v->assign(c, x); m->n = 0; m->resize(c, x); break; }
		case 13: if (m->n) { // element to element
			size_t a = place("pos", m->n, false), b = place("pos2", m->n, false);
			(*v)[a] = (*v)[b];
			m->d[a] = m->d[b];
		} break;
		case 14: if (m->n) { // exchange two elements
			size_t a = place("pos", m->n, false), b = place("pos2", m->n, false);
			auto x = (*v)[a]; auto y = (*v)[b];
			x.swap(y);
			T t = m->d[a]; m->d[a] = m->d[b]; m->d[b] = t;
		} break;
		case 15: if (m->n) { // modify a range
			size_t a = place("pos", m->n, true), b = place("pos2", m->n, true);
			if (a > b) { size_t t = a; a = b; b = t; }
			uint8_t k = 0; sym_bytes(&k, 1, "k");
			size_t r = v->for_each(a, b, [&](T& x) { *(uint8_t*)&x ^= k; });
			sym_assert(r == b - a, "for_each visits the range");
			for (size_t i = a; i < b; ++i) *(uint8_t*)(m->d + i) ^= k;
		} break;
		case 16: if (m->n) { // backward, stopping early
			size_t a = place("pos", m->n, true), b = place("pos2", m->n, true), cnt = 0, stop = (size_t)sym_fork("stop", 0, 1) ? 3 : ~(size_t)0;
			if (a > b) { size_t t = a; a = b; b = t; }
			size_t e = b;
			uint8_t bad = 0;
			size_t r = v->for_each_backward(a, b, [&](T& x) -> bool { --e; bad |= sym_differs(&x, m->d + e, sizeof(T)); *(uint8_t*)&x ^= 0x41; *(uint8_t*)(m->d + e) ^= 0x41; return ++cnt != stop; });
			size_t want = stop < b - a ? stop - 1 : b - a; // (the element that stopped is not counted)
			if (stop == b - a) want = stop - 1;
			sym_assert(r == want, "for_each_backward visits the range");
			sym_assert(bad == 0, "for_each_backward gives the elements in reverse order");
		} break;
		case 17: { // copy of the vector; later changes do not show in the copy
			V c(*v);
			check(c, *m, "elements of the copy");
			if (m->n) { size_t p = place("pos", m->n, false); T x = value("v"); c[p] = x; }
			check(*v, *m, "the original does not follow its copy");
			break;
		}
		case 18: { // move and back
			V c(std::move(*v));
			check(c, *m, "elements after a move");
			sym_assert(v->size() == 0, "moved from vector is empty");
			T x = value("v");
			v->push_back(x);
			sym_assert(v->size() == 1, "moved from vector can be used");
			*v = std::move(c);
			break;
		}
		case 19: { // assignment from another vector
			*v = *other;
			m->n = om->n; memcpy(m->d, om->d, om->n * sizeof(T));
			if (om->n) { T x = value("v"); (*v)[0] = x; m->d[0] = x; }
			check(*other, *om, "the source of an assignment does not change");
			break;
		}
		case 20: { v->swap(*other); Model* t = m; m = om; om = t; break; }
		case 21: { // through iterators
			uint8_t bad = 0; size_t i = 0;
			const V& cv = *v;
			for (auto it = cv.begin(); it != cv.end(); ++it, ++i) { T x = *it; bad |= sym_differs(&x, m->d + i, sizeof(T)); }
			sym_assert(i == m->n && bad == 0, "iteration gives the elements in order");
			i = m->n;
			for (auto it = cv.rbegin(); it != cv.rend(); ++it) { T x = *it; --i; bad |= sym_differs(&x, m->d + i, sizeof(T)); }
			sym_assert(i == 0 && bad == 0, "reverse iteration gives the elements in reverse order");
			break;
		}
		case 22: if (m->n) { size_t p = place("pos", m->n, false); T x = value("v"); auto it = v->begin() + p; *it = x; m->d[p] = x; sym_assert((size_t)(it - v->begin()) == p, "distance of iterators"); } break;
		case 23: if (m->n) { T x = value("v"), y = value("w"); v->front() = x; m->d[0] = x; v->back() = y; m->d[m->n - 1] = y; } break;
		case 24: { T x = value("v"); v->emplace_back(x) = x; m->insert(m->n, 1, x); break; }
		case 25: { // a range of another container
			size_t p = place("pos", m->n, true);
			std::vector<T> r(4);
			for (auto& x : r) x = value("v");
			v->insert(v->cbegin() + p, r.begin(), r.end());
			for (size_t i = 0; i < 4; ++i) m->insert(p + i, 1, r[i]);
			break;
		}
		case 26: { // assign a range
			size_t c = sym_fork("big", 0, 1) ? B + 2 : 3;
			std::vector<T> r(c);
			for (size_t i = 0; i < c; ++i) r[i] = konst(i * 3);
			r[1] = value("v");
			v->assign(r.begin(), r.end());
			m->n = c; memcpy(m->d, r.data(), c * sizeof(T));
			break;
		}
		case 27: { std::reverse(v->begin(), v->end()); for (size_t i = 0, j = m->n; i + 1 < j; ++i) { --j; T t = m->d[i]; m->d[i] = m->d[j]; m->d[j] = t; } break; }
		case 28: { // an initializer list
			size_t p = place("pos", m->n, true); T x = value("v"), y = value("w");
			v->insert(v->cbegin() + p, { x, y });
			m->insert(p, 1, x); m->insert(p + 1, 1, y);
			break;
		}
		case 29: if (m->n) { // references to constant elements
			size_t a = place("pos", m->n, false), b = place("pos2", m->n, false);
			const V& c = *v;
			auto x = c[a], y = c[b];
			const T& rx = x; const T& ry = y;
			sym_assert((sym_differs(&rx, m->d + a, sizeof(T)) | sym_differs(&ry, m->d + b, sizeof(T))) == 0, "two references at once");
		} break;
		case 30: if (m->n) { // insert a copy of one of its own elements
			size_t p = place("pos", m->n, true), q = place("pos2", m->n, false);
			T x = (*v)[q];
			v->insert(v->cbegin() + p, x);
			m->insert(p, 1, x);
		} break;
		case 31: { // through a serialized form
			size_t cap = stenos_bound(m->n * sizeof(T)) + 64 + 4 * (m->n / B + 1);
			uint8_t* buf = exact(cap);
			size_t r = v->serialize(buf, cap);
			sym_assert(!stenos_has_error(r), "serialization succeeds");
			r = (size_t)sym_concretize(r);
			V w;
			size_t r2 = w.deserialize(buf, r);
			sym_assert(!stenos_has_error(r2), "deserialization succeeds");
			check(w, *m, "elements after deserialization");
			free(buf);
			v->swap(w);
			break;
		}
		case 32: if (m->n) { // visits of a range that do not modify
			size_t a = place("pos", m->n, true), b = place("pos2", m->n, true), cnt = 0, stop = (size_t)sym_fork("stop", 0, 1) ? 3 : ~(size_t)0;
			if (a > b) { size_t t = a; a = b; b = t; }
			const V& cv = *v;
			size_t want = stop <= b - a ? stop - 1 : b - a, how = sym_fork("how", 0, 3), e = how & 1 ? b : a, r;
			uint8_t bad = 0;
			auto back = [&](const T& x) -> bool { --e; bad |= sym_differs(&x, m->d + e, sizeof(T)); return ++cnt != stop; };
			auto forth = [&](const T& x) -> bool { bad |= sym_differs(&x, m->d + e, sizeof(T)); ++e; return ++cnt != stop; };
			if (how == 0) r = cv.for_each(a, b, forth);
			else if (how == 1) r = cv.for_each_backward(a, b, back);
			else if (how == 2) r = v->const_for_each(a, b, forth);
			else r = v->const_for_each_backward(a, b, back);
			sym_assert(r == want && cnt == (stop <= b - a ? stop : b - a), "a visit covers the range, until it is stopped");
			sym_assert(bad == 0, "a visit gives the elements in order");
		} break;
		case 33: if (m->n) moves(((const V*)v)->begin()); break;
		case 34: if (m->n) { size_t p = moves(v->begin()); auto it = v->end(); it -= (ptrdiff_t)(m->n - p); T x = value("v"); *it = x; m->d[p] = x; T y = value("w"); v->begin()[(ptrdiff_t)(m->n - 1)] = y; m->d[m->n - 1] = y; } break;
		case 35: if (m->n) { size_t p = place("pos", m->n, true); std::rotate(v->begin(), v->begin() + p, v->end()); std::rotate(m->d, m->d + p, m->d + m->n); } break;
		case 36: if (m->n) {
			size_t a = place("pos", m->n, true), b = place("pos2", m->n, true);
			if (a > b) { size_t t = a; a = b; b = t; }
			if (sym_fork("how", 0, 1)) { T x = value("v"); std::fill(v->begin() + a, v->begin() + b, x); for (size_t i = a; i < b; ++i) m->d[i] = x; }
			else { size_t k = a < 9 ? a : 9; std::copy(v->begin() + a, v->begin() + b, v->begin() + (a - k)); memmove(m->d + a - k, m->d + a, (b - a) * sizeof(T)); }
		} break;
		case 37: { // constructors
			size_t how = sym_fork("how", 0, 3), c = sym_fork("big", 0, 1) ? B + 2 : 2;
			T x = value("v"), y = value("w"), zero;
			memset(&zero, 0, sizeof zero);
			m->n = 0;
			if (how == 0) { V w(c, x); m->resize(c, x); v->swap(w); }
			else if (how == 1) { V w(c); m->resize(c, zero); v->swap(w); }
			else if (how == 2) { std::vector<T> r(c, x); r[1] = y; V w(r.begin(), r.end()); m->resize(c, x); m->d[1] = y; *v = std::move(w); }
			else { V w{ x, y, x }; m->insert(0, 3, x); m->d[1] = y; *v = w; }
		} break;
		case 38: { // through streams
			size_t cap = stenos_bound(m->n * sizeof(T)) + 64 + 4 * (m->n / B + 1);
			uint8_t* buf = exact(cap + 5);
			Out o = { buf, 5, cap + 5, false };
			size_t r = v->serialize(o);
			sym_assert(!stenos_has_error(r) && r == o.n - 5, "serialization succeeds");
			In in = { buf, 5, o.n, false };
			V w;
			if (sym_fork("used", 0, 1)) w.resize(B + 3, value("w"));
			size_t r2 = w.deserialize(in);
			sym_assert(!stenos_has_error(r2) && in.pos == o.n, "deserialization succeeds");
			check(w, *m, "elements after deserialization");
			check(*v, *m, "serialization does not change the vector");
			free(buf);
			v->swap(w);
			break;
		}
		case 39: if (m->n) { size_t a = place("pos", m->n, false), b = place("pos2", m->n, false); std::iter_swap(v->begin() + a, v->begin() + b); T t = m->d[a]; m->d[a] = m->d[b]; m->d[b] = t; } break;
		case 40: { // from a list
			static const size_t sz[] = { 0, 3, B + 2 };
			size_t c = sz[sym_fork("size", 0, 2)], how = sym_fork("how", 0, 1), q = how ? place("pos", m->n, true) : 0;
			T x = value("v");
			std::list<T> r(c, x);
			if (c) { T y = value("w"); r.back() = y; }
			if (how) { v->insert(v->cbegin() + q, r.begin(), r.end()); m->insert(q, c, x); }
			else { v->assign(r.begin(), r.end()); m->n = 0; m->resize(c, x); }
			if (c) m->d[q + c - 1] = r.back();
			break;
		}
		case 41: { v->clear(); m->n = 0; sym_assert(v->empty() && v->begin() == v->end(), "empty after clear"); T x = value("v"); v->push_back(x); m->insert(0, 1, x); sym_assert(!v->empty(), "not empty"); break; }
		default: break;
	}
}
int main()
{
	{
		V vec, oth;
		Model mod, omod;
		v = &vec; m = &mod; other = &oth; om = &omod;
		size_t n0 = sym_param("n0", 2 * B + 40);
		for (size_t i = 0; i < n0; ++i) { T x = konst(i); v->push_back(x); m->d[m->n++] = x; }
		if (sym_param("shrunk", 0)) v->shrink_to_fit();
		for (size_t k = sym_param("dirty", 0); k > 0; --k) { T x = value("v"); (*v)[n0 - 1 - (k - 1) * B] = x; m->d[n0 - 1 - (k - 1) * B] = x; } // a modified block at the end
		for (size_t i = 0; i < B + 7; ++i) { T x = konst(i + 5); other->push_back(x); om->d[om->n++] = x; }
		steps = (unsigned)sym_param("steps", 2);
		uint64_t first = sym_param("first", 99), mask = sym_param("mask", 0x3FFFFFFFFFFull);
		for (unsigned s = 0; s < steps; ++s) {
			unsigned o;
			if (s == 0 && first != 99)
				o = (unsigned)first;
			else {
				unsigned list[64], k = 0;
				for (unsigned i = 0; i < 64; ++i) if (mask >> i & 1) list[k++] = i;
				o = list[sym_fork("op", 0, k - 1)];
			}
			op(o);
			if (s + 1 < steps && sym_param("between", 0))
				check(*v, *m, "elements of the vector");
		}
		check(*v, *m, "elements of the vector");
		check(*other, *om, "elements of the other vector");
		SYM_OBS(v->size(), "size");
		// once more, compressed
		v->shrink_to_fit();
		check(*v, *m, "elements of the vector after shrink_to_fit");
	}
	sym_cover("end");
	return 0;
}
