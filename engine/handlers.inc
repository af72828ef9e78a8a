// ------------------------------------------------------------------ substitution (for undetermined-value checks)
static E subst(E e, const std::map<uint32_t, E>& m, std::unordered_map<uint32_t, E>& memo)
{
	if (e->kind == K_CONST)
		return e;
	if (e->kind == K_VAR) {
		auto it = m.find((uint32_t)e->c);
		return it == m.end() ? e : it->second;
	}
	auto it = memo.find(e->id);
	if (it != memo.end())
		return it->second;
	std::vector<E> k(e->n);
	bool same = true;
	for (unsigned i = 0; i < e->n; ++i) {
		k[i] = subst(e->k[i], m, memo);
		if (k[i] != e->k[i])
			same = false;
	}
	E r = e;
	if (!same)
		switch (e->kind) {
			case K_LIN: {
				r = mkConst(e->c, e->width);
				for (unsigned i = 0; i < e->n; ++i)
					r = mkAdd(r, mkMul(k[i], mkConst(e->co[i], e->width)));
				break;
			}
			case K_MUL: r = mkMul(k[0], k[1]); break;
			case K_UDIV: r = mkUDiv(k[0], k[1]); break;
			case K_SDIV: r = mkSDiv(k[0], k[1]); break;
			case K_UREM: r = mkURem(k[0], k[1]); break;
			case K_SREM: r = mkSRem(k[0], k[1]); break;
			case K_AND: r = mkAnd(k[0], k[1]); break;
			case K_OR: r = mkOr(k[0], k[1]); break;
			case K_XOR: r = mkXor(k[0], k[1]); break;
			case K_SHL: r = mkShl(k[0], k[1]); break;
			case K_LSHR: r = mkLShr(k[0], k[1]); break;
			case K_ASHR: r = mkAShr(k[0], k[1]); break;
			case K_CONCAT: r = mkConcat(k); break;
			case K_EXTRACT: r = mkExtract(k[0], (unsigned)e->c, e->width); break;
			case K_SEXT: r = mkSExt(k[0], e->width); break;
			case K_EQ: r = mkEq(k[0], k[1]); break;
			case K_ULT: r = mkUlt(k[0], k[1]); break;
			case K_SLT: r = mkSlt(k[0], k[1]); break;
			case K_ITE: r = mkIte(k[0], k[1], k[2]); break;
			default: break;
		}
	memo[e->id] = r;
	return r;
}
// does any of the values depend on a garbage variable, given the path condition?
static bool garbageDependent(State& s, const std::vector<E>& all, ModelP& out)
{
	std::vector<E> es;
	std::set<uint32_t> gv;
	for (E e : all) {
		bool any = false;
		for (uint32_t v : varsOf(e))
			if (g_vars[v].garbage) {
				gv.insert(v);
				any = true;
			}
		if (any)
			es.push_back(e);
	}
	if (es.empty())
		return false;
	for (E p : s.pc)
		for (uint32_t v : varsOf(p))
			if (g_vars[v].garbage)
				gv.insert(v);
	std::map<uint32_t, E> m;
	for (uint32_t v : gv)
		m[v] = mkVar(g_vars[v].name + "'", g_vars[v].width, true);
	std::unordered_map<uint32_t, E> memo;
	std::vector<E> pc2 = s.pc;
	for (E p : s.pc) {
		E q = subst(p, m, memo);
		if (q != p)
			pc2.push_back(q);
	}
	// the base model must satisfy the renamed constraints too
	auto bm = std::make_shared<Model>(*s.model);
	for (auto& kv : m)
		bm->set((uint32_t)kv.second->c, s.model->get(kv.first));
	std::vector<E> diff;
	for (E e : es) {
		E d = mkNot(mkEq(e, subst(e, m, memo)));
		if (!isFalse(d))
			diff.push_back(d);
	}
	for (size_t i = 0; i < diff.size(); i += 32) {
		if (now() > timeLimit) {
			incomplete("time limit");
			return false;
		}
		E any = mkFalse();
		for (size_t k = i; k < diff.size() && k < i + 32; ++k)
			any = mkOr(any, diff[k]);
		ModelP mo;
		Res r = solve(pc2, any, bm, mo);
		if (r == R_UNKNOWN) {
			++S.unknownAsserts;
			incomplete("determinedness undecided by the solver");
		}
		if (r == R_SAT) {
			out = mo;
			return true;
		}
	}
	return false;
}

static uint64_t tlsAddr(State& s, const GlobalVariable* g)
{
	if (s.cur == 0)
		return gaddr[g];
	auto key = std::make_pair((unsigned)s.cur, (const void*)g);
	auto it = s.tls.find(key);
	if (it == s.tls.end()) {
		uint64_t sz = DL->getTypeAllocSize(g->getValueType());
		uint64_t a = s.mem.alloc(sz, O_GLOBAL, true, 64, 0, std::make_shared<std::string>(g->getName().str() + "@tls"));
		if (g->hasInitializer() && !g->getInitializer()->isNullValue()) {
			std::vector<SV> v;
			flattenConst(g->getInitializer(), v);
			doStore(s, cv(a), layout(g->getValueType()), v.data());
		}
		it = s.tls.insert({ key, a }).first;
	}
	return it->second;
}

// ------------------------------------------------------------------ intrinsics
static SV lane1(const SV& v) { return v; }
static E ctpopE(E a)
{
	unsigned w = a->width;
	E r = mkConst(0, w);
	for (unsigned i = 0; i < w; ++i)
		r = mkAdd(r, mkZExt(mkExtract(a, i, 1), w));
	return r;
}
static E cttzE(E a)
{
	unsigned w = a->width;
	E r = mkConst(w, w);
	for (int i = (int)w - 1; i >= 0; --i)
		r = mkIte(mkExtract(a, (unsigned)i, 1), mkConst((uint64_t)i, w), r);
	return r;
}
static E ctlzE(E a)
{
	unsigned w = a->width;
	E r = mkConst(w, w);
	for (unsigned i = 0; i < w; ++i)
		r = mkIte(mkExtract(a, i, 1), mkConst(w - 1 - i, w), r);
	return r;
}
static SV addLanes(const SV* v, unsigned n, unsigned w)
{
	SV r = v[0];
	bool bad = false;
	for (unsigned i = 1; i < n; ++i)
		r = binop(Instruction::Add, r, v[i], w, bad);
	return r;
}
static SV iteSV(E c, const SV& a, const SV& b, unsigned w) { return norm(mkIte(c, toE(a, w), toE(b, w))); }
static E notE(E e) { return mkNot(e); }

static bool memArgs(State& s, Ins& in, uint64_t* a, unsigned n)
{
	for (unsigned i = 0; i < n; ++i) {
		SV v = *opnd(s, in, i);
		if (!concArg(s, v, a[i]))
			return false;
	}
	return true;
}

static void intrinsic(State& s, Ins& in, FuncInfo* fi)
{
	auto* cb = cast<CallBase>(in.I);
	unsigned id = fi->F->getIntrinsicID();
	SV* d = in.dst >= 0 ? dstp(s, in) : nullptr;
	unsigned w = in.w, n = in.n;
	auto argW = [&](unsigned i) { return (unsigned)layout(cb->getArgOperand(i)->getType()).lanes[0].width; };
	auto argN = [&](unsigned i) { return (unsigned)layout(cb->getArgOperand(i)->getType()).lanes.size(); };
	std::vector<SV> r;
	auto done = [&]() {
		std::copy(r.begin(), r.end(), d);
		advance(s, in);
	};
	auto lanes2 = [&](auto fn) {
		const SV *a = opnd(s, in, 0), *b = opnd(s, in, 1);
		r.resize(n);
		for (unsigned i = 0; i < n; ++i)
			r[i] = norm(fn(toE(a[i], w), toE(b[i], w)));
		done();
	};
	auto lanes1 = [&](auto fn) {
		const SV* a = opnd(s, in, 0);
		r.resize(n);
		for (unsigned i = 0; i < n; ++i)
			r[i] = norm(fn(toE(a[i], w)));
		done();
	};
	switch (id) {
		case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl:
		case Intrinsic::assume: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::invariant_end:
		case Intrinsic::stackrestore: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::vaend:
			advance(s, in);
			return;
		case Intrinsic::invariant_start: case Intrinsic::stacksave:
			setRes(s, in, cv(0));
			advance(s, in);
			return;
		case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
			uint64_t a[3];
			if (!memArgs(s, in, a, 3))
				return;
			if (!memCopy(s, a[0], a[1], a[2]))
				return;
			advance(s, in);
			return;
		}
		case Intrinsic::memset: case Intrinsic::memset_inline: {
			uint64_t p, l;
			SV vp = *opnd(s, in, 0), vl = *opnd(s, in, 2);
			if (!concArg(s, vp, p) || !concArg(s, vl, l))
				return;
			SV v = *opnd(s, in, 1);
			if (!memSet(s, p, v, l))
				return;
			advance(s, in);
			return;
		}
		case Intrinsic::umin: lanes2([](E a, E b) { return mkIte(mkUlt(a, b), a, b); }); return;
		case Intrinsic::umax: lanes2([](E a, E b) { return mkIte(mkUlt(a, b), b, a); }); return;
		case Intrinsic::smin: lanes2([](E a, E b) { return mkIte(mkSlt(a, b), a, b); }); return;
		case Intrinsic::smax: lanes2([](E a, E b) { return mkIte(mkSlt(a, b), b, a); }); return;
		case Intrinsic::abs: lanes1([&](E a) { return mkIte(mkSlt(a, mkConst(0, w)), mkNeg(a), a); }); return;
		case Intrinsic::ctpop: {
			const SV* a = opnd(s, in, 0);
			r.resize(n);
			for (unsigned i = 0; i < n; ++i)
				r[i] = a[i].e ? norm(ctpopE(a[i].e)) : cv((uint64_t)__builtin_popcountll(a[i].c));
			done();
			return;
		}
		case Intrinsic::cttz: {
			const SV* a = opnd(s, in, 0);
			r.resize(n);
			for (unsigned i = 0; i < n; ++i)
				r[i] = a[i].e ? norm(cttzE(a[i].e)) : cv(a[i].c ? (uint64_t)__builtin_ctzll(a[i].c) : w);
			done();
			return;
		}
		case Intrinsic::ctlz: {
			const SV* a = opnd(s, in, 0);
			r.resize(n);
			for (unsigned i = 0; i < n; ++i)
				r[i] = a[i].e ? norm(ctlzE(a[i].e)) : cv(a[i].c ? (uint64_t)__builtin_clzll(a[i].c) - (64 - w) : w);
			done();
			return;
		}
		case Intrinsic::bswap: lanes1([&](E a) {
			std::vector<E> v;
			for (unsigned i = 0; i < w; i += 8)
				v.push_back(mkExtract(a, i, 8));
			return mkConcat(v);
		}); return;
		case Intrinsic::bitreverse: lanes1([&](E a) {
			std::vector<E> v;
			for (unsigned i = 0; i < w; ++i)
				v.push_back(mkExtract(a, i, 1));
			return mkConcat(v);
		}); return;
		case Intrinsic::fshl: case Intrinsic::fshr: {
			const SV *a = opnd(s, in, 0), *b = opnd(s, in, 1), *c = opnd(s, in, 2);
			r.resize(n);
			for (unsigned i = 0; i < n; ++i) {
				E A = toE(a[i], w), B = toE(b[i], w), C = toE(c[i], w);
				E sh = mkURem(C, mkConst(w, w));
				if (sh->isConst()) {
					unsigned k = (unsigned)sh->c;
					E cc = mkConcat2(A, B);
					r[i] = norm(id == Intrinsic::fshl ? mkExtract(cc, w - k, w) : mkExtract(cc, k, w));
				}
				else {
					E inv = mkSub(mkConst(w, w), sh);
					E z = mkEq(sh, mkConst(0, w));
					r[i] = norm(id == Intrinsic::fshl ? mkIte(z, A, mkOr(mkShl(A, sh), mkLShr(B, inv))) : mkIte(z, B, mkOr(mkLShr(B, sh), mkShl(A, inv))));
				}
			}
			done();
			return;
		}
		case Intrinsic::uadd_sat: lanes2([&](E a, E b) { E t = mkAdd(a, b); return mkIte(mkUlt(t, a), mkConst(~0ull, w), t); }); return;
		case Intrinsic::usub_sat: lanes2([&](E a, E b) { return mkIte(mkUlt(a, b), mkConst(0, w), mkSub(a, b)); }); return;
		case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: lanes2([&](E a, E b) {
			E A = mkSExt(a, w + 1), B = mkSExt(b, w + 1);
			E t = id == Intrinsic::sadd_sat ? mkAdd(A, B) : mkSub(A, B);
			E mx = mkConst(maskOf(w - 1), w), mn = mkConst(1ull << (w - 1), w);
			return mkIte(mkSlt(mkSExt(mx, w + 1), t), mx, mkIte(mkSlt(t, mkSExt(mn, w + 1)), mn, mkTrunc(t, w)));
		}); return;
		case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
		case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
			E a = toE(*opnd(s, in, 0), w), b = toE(*opnd(s, in, 1), w);
			E t, o;
			bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
			unsigned w2 = (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) ? w * 2 : w + 1;
			if (id == Intrinsic::umul_with_overflow && w == 64) {
				E full = mkMul(mkZExt(a, 128), mkZExt(b, 128));
				t = mkExtract(full, 0, 64);
				o = mkNot(mkEq(mkExtract(full, 64, 64), mkConst(0, 64)));
			}
			else {
				if (w2 > 64 && w == 64 && !(id == Intrinsic::smul_with_overflow)) {
					if (id == Intrinsic::uadd_with_overflow) { t = mkAdd(a, b); o = mkUlt(t, a); }
					else if (id == Intrinsic::usub_with_overflow) { t = mkSub(a, b); o = mkUlt(a, b); }
					else {
						bool add = id == Intrinsic::sadd_with_overflow;
						t = add ? mkAdd(a, b) : mkSub(a, b);
						E sa = mkExtract(a, 63, 1), sb = mkExtract(b, 63, 1), st = mkExtract(t, 63, 1);
						if (!add)
							sb = mkNot(sb);
						o = mkAnd(mkNot(mkXor(sa, sb)), mkXor(sa, st));
					}
				}
				else {
					E A = sg ? mkSExt(a, w2) : mkZExt(a, w2), B = sg ? mkSExt(b, w2) : mkZExt(b, w2), f;
					if (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) f = mkAdd(A, B);
					else if (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) f = mkSub(A, B);
					else f = mkMul(A, B);
					t = mkTrunc(f, w);
					o = mkNot(mkEq(f, sg ? mkSExt(t, w2) : mkZExt(t, w2)));
				}
			}
			r = { norm(t), norm(o) };
			done();
			return;
		}
		case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor:
		case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_smin: {
			const SV* a = opnd(s, in, 0);
			unsigned k = argN(0);
			E x = toE(a[0], w);
			for (unsigned i = 1; i < k; ++i) {
				E y = toE(a[i], w);
				switch (id) {
					case Intrinsic::vector_reduce_add: x = mkAdd(x, y); break;
					case Intrinsic::vector_reduce_and: x = mkAnd(x, y); break;
					case Intrinsic::vector_reduce_or: x = mkOr(x, y); break;
					case Intrinsic::vector_reduce_xor: x = mkXor(x, y); break;
					case Intrinsic::vector_reduce_umax: x = mkIte(mkUlt(x, y), y, x); break;
					case Intrinsic::vector_reduce_umin: x = mkIte(mkUlt(x, y), x, y); break;
					case Intrinsic::vector_reduce_smax: x = mkIte(mkSlt(x, y), y, x); break;
					default: x = mkIte(mkSlt(x, y), x, y); break;
				}
			}
			r = { norm(x) };
			done();
			return;
		}
		case Intrinsic::expect: case Intrinsic::annotation: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
		case Intrinsic::expect_with_probability:
			r = { *opnd(s, in, 0) };
			done();
			return;
		case Intrinsic::is_constant: case Intrinsic::objectsize:
			r = { cv(id == Intrinsic::objectsize ? maskOf(w) : 0) };
			done();
			return;
		case Intrinsic::fabs: case Intrinsic::sqrt: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::round: case Intrinsic::trunc: {
			const SV* a = opnd(s, in, 0);
			r.resize(n);
			for (unsigned i = 0; i < n; ++i) {
				if (a[i].e || w > 64) { r[i] = fpAny(2000 + id, { a[i] }, w); continue; }
				double x = asD(a[i], w);
				r[i] = ofD(id == Intrinsic::fabs ? std::fabs(x) : id == Intrinsic::sqrt ? std::sqrt(x) : id == Intrinsic::floor ? std::floor(x) : id == Intrinsic::ceil ? std::ceil(x) : id == Intrinsic::round ? std::round(x) : std::trunc(x), w);
			}
			done();
			return;
		}
		case Intrinsic::fmuladd: case Intrinsic::fma: {
			const SV *a = opnd(s, in, 0), *b = opnd(s, in, 1), *c = opnd(s, in, 2);
			r.resize(n);
			for (unsigned i = 0; i < n; ++i)
				r[i] = (a[i].e || b[i].e || c[i].e) ? fpAny(2000 + id, { a[i], b[i], c[i] }, w) : ofD(id == Intrinsic::fma ? std::fma(asD(a[i], w), asD(b[i], w), asD(c[i], w)) : asD(a[i], w) * asD(b[i], w) + asD(c[i], w), w);
			done();
			return;
		}
		case Intrinsic::trap: case Intrinsic::debugtrap: violate(s, "trap", "trap executed"); return;
		case Intrinsic::eh_typeid_for: {
			Value* v = cb->getArgOperand(0)->stripPointerCasts();
			r = { cv((uint32_t)typeId(isa<ConstantPointerNull>(v) ? "" : v->getName().str())) };
			done();
			return;
		}
		case Intrinsic::threadlocal_address: {
			auto* g = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts());
			if (!g) { killUnsupported(s, "threadlocal.address"); return; }
			r = { cv(tlsAddr(s, g)) };
			done();
			return;
		}
		case Intrinsic::masked_store: {
			const SV* v = opnd(s, in, 0);
			SV p = *opnd(s, in, 1);
			const SV* m = opnd(s, in, 3);
			unsigned k = argN(0), lw = argW(0);
			Layout l;
			l.lanes.push_back(Lane{ 0, (uint16_t)lw, false });
			l.size = lw / 8;
			uint64_t a;
			if (!concArg(s, p, a)) return;
			for (unsigned i = 0; i < k; ++i) {
				if (!m[i].e && !m[i].c) continue;
				SV x = v[i];
				if (m[i].e) {
					SV old;
					if (!doLoad(s, cv(a + i * l.size), l, &old)) return;
					x = iteSV(m[i].e, v[i], old, lw);
				}
				if (!doStore(s, cv(a + i * l.size), l, &x)) return;
			}
			advance(s, in);
			return;
		}
		case Intrinsic::masked_load: {
			SV p = *opnd(s, in, 0);
			const SV *m = opnd(s, in, 2), *pt = opnd(s, in, 3);
			Layout l;
			l.lanes.push_back(Lane{ 0, (uint16_t)w, false });
			l.size = w / 8;
			uint64_t a;
			if (!concArg(s, p, a)) return;
			r.resize(n);
			for (unsigned i = 0; i < n; ++i) {
				if (!m[i].e && !m[i].c) { r[i] = pt[i]; continue; }
				SV old;
				if (!doLoad(s, cv(a + i * l.size), l, &old)) return;
				r[i] = m[i].e ? iteSV(m[i].e, old, pt[i], w) : old;
			}
			done();
			return;
		}
		case Intrinsic::x86_sse2_maskmov_dqu: {
			const SV *v = opnd(s, in, 0), *m = opnd(s, in, 1);
			SV p = *opnd(s, in, 2);
			uint64_t a;
			if (!concArg(s, p, a)) return;
			Layout l;
			l.lanes.push_back(Lane{ 0, 8, false });
			l.size = 1;
			for (unsigned i = 0; i < 16; ++i) {
				E b = mkExtract(toE(m[i], 8), 7, 1);
				if (isFalse(b)) continue;
				SV x = v[i];
				if (!isTrue(b)) {
					SV old;
					if (!doLoad(s, cv(a + i), l, &old)) return;
					x = iteSV(b, v[i], old, 8);
				}
				if (!doStore(s, cv(a + i), l, &x)) return;
			}
			advance(s, in);
			return;
		}
		case Intrinsic::x86_ssse3_pshuf_b_128: case Intrinsic::x86_avx2_pshuf_b: {
			const SV *a = opnd(s, in, 0), *b = opnd(s, in, 1);
			r.resize(n);
			for (unsigned i = 0; i < n; ++i) {
				unsigned base = i & ~15u;
				if (!b[i].e) {
					r[i] = (b[i].c & 0x80) ? cv(0) : a[base + (b[i].c & 15)];
					continue;
				}
				E t = mkExtract(b[i].e, 0, 4);
				std::vector<E> cur(16);
				for (unsigned k = 0; k < 16; ++k)
					cur[k] = toE(a[base + k], 8);
				for (unsigned bit = 0; bit < 4; ++bit) {
					E c = mkExtract(t, bit, 1);
					std::vector<E> nx;
					for (size_t k = 0; k + 1 < cur.size(); k += 2)
						nx.push_back(mkIte(c, cur[k + 1], cur[k]));
					cur.swap(nx);
				}
				r[i] = norm(mkIte(mkExtract(b[i].e, 7, 1), mkConst(0, 8), cur[0]));
			}
			done();
			return;
		}
		case Intrinsic::x86_sse2_psad_bw: case Intrinsic::x86_avx2_psad_bw: {
			const SV *a = opnd(s, in, 0), *b = opnd(s, in, 1);
			r.resize(n);
			for (unsigned q = 0; q < n; ++q) {
				E t = mkConst(0, 64);
				for (unsigned i = 0; i < 8; ++i) {
					E x = toE(a[q * 8 + i], 8), y = toE(b[q * 8 + i], 8);
					E df = mkIte(mkUlt(x, y), mkSub(y, x), mkSub(x, y));
					t = mkAdd(t, mkZExt(df, 64));
				}
				r[q] = norm(t);
			}
			done();
			return;
		}
		case Intrinsic::x86_sse2_pmovmskb_128: case Intrinsic::x86_avx2_pmovmskb: {
			const SV* a = opnd(s, in, 0);
			std::vector<E> v;
			unsigned k = argN(0);
			if (k < 32)
				v.push_back(mkConst(0, 32 - k));
			for (int i = (int)k - 1; i >= 0; --i)
				v.push_back(mkExtract(toE(a[i], 8), 7, 1));
			r = { norm(mkConcat(v)) };
			done();
			return;
		}
		case Intrinsic::x86_sse2_packuswb_128: case Intrinsic::x86_avx2_packuswb: case Intrinsic::x86_sse2_packsswb_128: case Intrinsic::x86_avx2_packsswb:
		case Intrinsic::x86_sse2_packssdw_128: case Intrinsic::x86_avx2_packssdw: case Intrinsic::x86_sse41_packusdw: case Intrinsic::x86_avx2_packusdw: {
			const SV *a = opnd(s, in, 0), *b = opnd(s, in, 1);
			unsigned sw = argW(0), dw = w, k = argN(0);
			bool us = id == Intrinsic::x86_sse2_packuswb_128 || id == Intrinsic::x86_avx2_packuswb || id == Intrinsic::x86_sse41_packusdw || id == Intrinsic::x86_avx2_packusdw;
			unsigned per = 128 / sw, chunks = k / per;
			r.clear();
			auto sat = [&](const SV& v) {
				E e = toE(v, sw);
				int64_t lo = us ? 0 : -(1ll << (dw - 1)), hi = us ? (1ll << dw) - 1 : (1ll << (dw - 1)) - 1;
				E L = mkConst((uint64_t)lo, sw), H = mkConst((uint64_t)hi, sw);
				return norm(mkIte(mkSlt(e, L), mkConst((uint64_t)lo, dw), mkIte(mkSlt(H, e), mkConst((uint64_t)hi, dw), mkTrunc(e, dw))));
			};
			for (unsigned c = 0; c < chunks; ++c) {
				for (unsigned i = 0; i < per; ++i) r.push_back(sat(a[c * per + i]));
				for (unsigned i = 0; i < per; ++i) r.push_back(sat(b[c * per + i]));
			}
			done();
			return;
		}
		case Intrinsic::x86_sse41_ptestz: case Intrinsic::x86_sse41_ptestc: case Intrinsic::x86_avx_ptestz_256: case Intrinsic::x86_avx_ptestc_256: {
			const SV *a = opnd(s, in, 0), *b = opnd(s, in, 1);
			E acc = mkTrue();
			bool z = id == Intrinsic::x86_sse41_ptestz || id == Intrinsic::x86_avx_ptestz_256;
			for (unsigned i = 0; i < argN(0); ++i) {
				E x = toE(a[i], argW(0)), y = toE(b[i], argW(0));
				acc = mkAnd(acc, mkEq(mkAnd(z ? x : mkNot(x), y), mkConst(0, argW(0))));
			}
			r = { norm(mkZExt(acc, 32)) };
			done();
			return;
		}
		case Intrinsic::x86_bmi_pext_32: case Intrinsic::x86_bmi_pext_64: case Intrinsic::x86_bmi_pdep_32: case Intrinsic::x86_bmi_pdep_64: {
			SV x = *opnd(s, in, 0), mv = *opnd(s, in, 1);
			uint64_t m;
			if (!concArg(s, mv, m))
				return;
			bool ext = id == Intrinsic::x86_bmi_pext_32 || id == Intrinsic::x86_bmi_pext_64;
			std::vector<E> v; // lo->hi
			E X = toE(x, w);
			unsigned k = 0;
			if (ext) {
				for (unsigned i = 0; i < w; ++i)
					if (m >> i & 1)
						v.push_back(mkExtract(X, i, 1));
				while (v.size() < w)
					v.push_back(mkFalse());
			}
			else
				for (unsigned i = 0; i < w; ++i)
					v.push_back((m >> i & 1) ? mkExtract(X, k++, 1) : mkFalse());
			std::reverse(v.begin(), v.end());
			r = { norm(mkConcat(v)) };
			done();
			return;
		}
		case Intrinsic::x86_sse2_pause:
			if (s.th.size() > 1) {
				advance(s, in);
				s.t().yielded = true;
				mustSwitch(s, true);
				return;
			}
			advance(s, in);
			return;
		case Intrinsic::vastart: {
			killUnsupported(s, "varargs");
			return;
		}
		case Intrinsic::load_relative:
		default:
			killUnsupported(s, "intrinsic " + fi->name);
			return;
	}
}

static void inlineAsm(State& s, Ins& in, InlineAsm* ia)
{
	std::string a = ia->getAsmString();
	if (a.find("cpuid") != std::string::npos) {
		// CPU features come from the harness parameters: the processor under test
		uint64_t leaf = opnd(s, in, 0)->c;
		uint32_t r[4] = { 0, 0, 0, 0 };
		std::string cpu = params.count("cpu") ? params["cpu"] : "avx2";
		if (leaf == 0)
			r[0] = 7;
		else if (leaf == 1) {
			if (cpu != "none") {
				r[3] = (1u << 23) | (1u << 25) | (1u << 26);
				if (cpu != "sse2")
					r[2] = 1u | (1u << 9) | (1u << 19) | (1u << 20) | (cpu == "avx2" ? (1u << 28) : 0);
			}
		}
		else if (leaf == 7 && cpu == "avx2")
			r[1] = (1u << 3) | (1u << 5) | (params.count("nobmi2") ? 0 : (1u << 8));
		else if (leaf == 0x80000000u)
			r[0] = 0x80000001u;
		SV* d = dstp(s, in);
		for (unsigned i = 0; i < in.n && i < 4; ++i)
			d[i] = cv(r[i]);
		advance(s, in);
		return;
	}
	if (a.find("popcnt") != std::string::npos) {
		SV v = *opnd(s, in, (unsigned)in.ops.size() - 1);
		*dstp(s, in) = v.e ? norm(ctpopE(v.e)) : cv((uint64_t)__builtin_popcountll(v.c));
		advance(s, in);
		return;
	}
	if (a.empty() || a.find("pause") != std::string::npos || a.find("nop") != std::string::npos) {
		advance(s, in);
		return;
	}
	killUnsupported(s, "inline asm " + a);
}

// ------------------------------------------------------------------ allocation
static std::shared_ptr<std::string> heapName(State& s, Ins& in)
{
	std::string fn;
	std::string w = whereOf(in, &fn);
	static std::map<std::string, std::shared_ptr<std::string>> cache;
	auto& p = cache[fn + w];
	if (!p)
		p = std::make_shared<std::string>("allocated in " + fn + " at " + w);
	return p;
}
static uint64_t allocHeap(State& s, Ins& in, uint64_t n, bool zero, uint8_t kind, unsigned align = 16)
{
	++s.heapLive;
	s.heapBytes += n;
	return s.mem.alloc(n, O_HEAP, zero, align < 64 ? 64 : align, align <= 16 ? 16 : 0, heapName(s, in), kind);
}
// returns true if the allocation must fail in s (a clone where it succeeds/fails may have been queued)
static bool allocFails(State& s, Ins& in, uint64_t n)
{
	static const uint64_t big = params.count("bigmem") ? 6ull << 30 : 1ull << 30;
	if (n > big)
		return true;
	if (s.vars.count("afail")) {
		uint64_t idx = s.vars["acount"]++;
		if (s.mallocFail > 0 && !s.vars.count("adecided")) {
			// decided by a symbolic choice: fork
			auto c = cloneState(s);
			c->vars["acount"] = idx;
			c->vars["adecided"] = 1;
			hbChoice(*c, 5);
			work.push_back(std::move(c));
			// in s: this allocation fails
			--s.mallocFail;
			++s.mallocFailed;
			hbChoice(s, 6);
			std::vector<E> b;
			for (int i = 0; i < 8; ++i)
				b.push_back(mkConst((idx >> (8 * i)) & 255, 8));
			s.syms.push_back(SymRec{ "!allocfail", b, true });
			return true;
		}
		s.vars.erase("adecided");
	}
	return false;
}
static void hMalloc(State& s, Ins& in, uint64_t n, bool zero)
{
	if (allocFails(s, in, n)) {
		setRes(s, in, cv(0));
		advance(s, in);
		return;
	}
	setRes(s, in, cv(allocHeap(s, in, n, zero, 1)));
	advance(s, in);
}
static void hNew(State& s, Ins& in, uint64_t n, uint8_t kind, unsigned align = 16)
{
	if (allocFails(s, in, n)) {
		throwType(s, "_ZTISt9bad_alloc");
		return;
	}
	setRes(s, in, cv(allocHeap(s, in, n, false, kind, align)));
	advance(s, in);
}
static bool freeObj(State& s, uint64_t a, uint8_t kind)
{
	if (a == 0)
		return true;
	long i = s.mem.find(a);
	if (i < 0 || s.mem.objs[(size_t)i].base != a || s.mem.objs[(size_t)i].o->kind != O_HEAP) {
		lastAccess = descAddr(s, a);
		violate(s, "bad-free", "free of a pointer that is not a live heap allocation");
		return false;
	}
	Obj* o = s.mem.objs[(size_t)i].o;
	if (o->heapKind && o->heapKind != kind) {
		violate(s, "bad-free", "deallocation function does not match the allocation function");
		return false;
	}
	if (s.sched && !s.shadow.empty() && !raceFree(s, a, o->size, true))
		return false;
	--s.heapLive;
	s.heapBytes -= o->size;
	s.mem.remove((size_t)i);
	return true;
}

static void addSymBytes(State& s, uint64_t p, uint64_t n, const std::string& name, bool garbage)
{
	size_t idx;
	uint64_t off;
	if (n == 0)
		return;
	if (!locate(s, p, n, true, idx, off))
		return;
	Obj* o = s.mem.w(idx);
	SymRec r;
	r.name = name;
	r.replay = !garbage;
	for (uint64_t i = 0; i < n; ++i) {
		E v = mkVar(name + "[" + std::to_string(i) + "]", 8, garbage);
		writeByte(o, off + i, v);
		r.bytes.push_back(v);
	}
	if (!garbage)
		s.syms.push_back(r);
}
static std::vector<E> bytesOf64(E e)
{
	std::vector<E> b;
	for (unsigned i = 0; i < 8; ++i)
		b.push_back(mkExtract(e, i * 8, 8));
	return b;
}
static E boolOf(const SV& v, unsigned w) { return mkNot(mkEq(toE(v, w), mkConst(0, w))); }

static void mutexLock(State& s, Ins& in, uint64_t m, bool retval)
{
	int& o = s.mutexOwner[m];
	if (o == 0) {
		o = (int)s.cur + 1;
		hbAcquire(s, m);
		hbObject(s, m);
		if (retval)
			setRes(s, in, cv(0));
		advance(s, in);
		return;
	}
	if (o == (int)s.cur + 1) {
		violate(s, "deadlock", "mutex locked twice by the same thread");
		return;
	}
	s.t().status = T_MUTEX;
	s.t().waitOn = m;
	s.t().waitMutex = retval ? 1 : 2;
	mustSwitch(s, true);
}
static void mutexUnlock(State& s, uint64_t m)
{
	int& o = s.mutexOwner[m];
	if (o != (int)s.cur + 1) {
		violate(s, "bad-unlock", "mutex unlocked by a thread that does not hold it");
		return;
	}
	o = 0;
	hbRelease(s, m, true);
	hbObject(s, m);
}
static void notify(State& s, uint64_t cvA, bool all)
{
	std::vector<unsigned> w;
	hbObject(s, cvA);
	for (unsigned i = 0; i < s.th.size(); ++i)
		if (s.th[i].status == T_COND && s.th[i].waitOn == cvA)
			w.push_back(i);
	if (w.empty())
		return;
	if (!all) {
		if (s.sched)
			for (size_t k = 1; k < w.size(); ++k) {
				auto n = cloneState(s);
				n->th[w[k]].status = T_MUTEX;
				n->th[w[k]].waitOn = n->th[w[k]].waitMutex;
				n->th[w[k]].waitMutex = 2;
				n->schedTrace.push_back((int)n->vis);
				n->schedTrace.push_back(1000 + (int)w[k]);
				n->hh[w[k]] = mix(n->hh[w[k]], n->hh[n->cur]);
				hbChoice(*n, k);
				Ins& in = n->f().bb->ins[n->f().ip];
				advance(*n, in);
				work.push_back(std::move(n));
			}
		if (w.size() > 1 && s.sched) {
			s.schedTrace.push_back((int)s.vis);
			s.schedTrace.push_back(1000 + (int)w[0]);
		}
		w.resize(1);
	}
	for (unsigned i : w) {
		s.th[i].status = T_MUTEX;
		s.th[i].waitOn = s.th[i].waitMutex;
		s.th[i].waitMutex = 2;
		if (s.sched)
			s.hh[i] = mix(s.hh[i], s.hh[s.cur]);
	}
}
static void spawn(State& s, FuncInfo* fi, uint64_t arg, uint64_t& tid)
{
	Thread t;
	tid = s.th.size() + 1000;
	t.tid = tid;
	unsigned cur = s.cur;
	s.th.push_back(std::move(t));
	s.cur = (unsigned)s.th.size() - 1;
	pushFrame(s, fi, { { cv(arg) } });
	s.cur = cur;
	hbThread(s, (unsigned)s.th.size() - 1);
}

static void reg(const std::string& n, Handler h) { handlers[n] = std::move(h); }
static void registerHandlers()
{
	auto nop = [](State& s, Ins& in) {
		if (in.dst >= 0)
			for (unsigned i = 0; i < in.n; ++i)
				dstp(s, in)[i] = cv(0);
		advance(s, in);
	};
#define ARG(i, name)                    \
	uint64_t name;                  \
	{                               \
		SV _v = *opnd(s, in, i); \
		if (!concArg(s, _v, name)) \
			return;         \
	}
	// ---- harness API
	reg("sym_bytes", [](State& s, Ins& in) { ARG(0, p) ARG(1, n) ARG(2, nm) addSymBytes(s, p, n, rdStr(s, nm), false); if (!s.dead) advance(s, in); });
	reg("sym_garbage", [](State& s, Ins& in) { ARG(0, p) ARG(1, n) addSymBytes(s, p, n, "garbage", true); if (!s.dead) advance(s, in); });
	reg("sym_u64", [](State& s, Ins& in) {
		ARG(0, nm) ARG(1, lo) ARG(2, hi)
		unsigned w = hi ? 64 - (unsigned)__builtin_clzll(hi) : 1;
		E v = mkVar(rdStr(s, nm), w);
		E z = w < 64 ? mkZExt(v, 64) : v;
		s.syms.push_back(SymRec{ rdStr(s, nm), bytesOf64(z), true });
		E c = mkAnd(mkUle(mkConst(lo, 64), z), mkUle(z, mkConst(hi, 64)));
		auto m = std::make_shared<Model>(*s.model);
		m->set((uint32_t)v->c, lo);
		s.model = m;
		addPc(s, c);
		setRes(s, in, norm(z));
		advance(s, in);
	});
	reg("sym_fork", [](State& s, Ins& in) {
		ARG(0, nm) ARG(1, lo) ARG(2, hi)
		std::string name = rdStr(s, nm);
		for (uint64_t v = hi; v > lo; --v) {
			auto n = cloneState(s);
			n->syms.push_back(SymRec{ name, bytesOf64(mkConst(v, 64)), true });
			hbChoice(*n, v);
			setRes(*n, in, cv(v));
			advance(*n, in);
			work.push_back(std::move(n));
		}
		s.syms.push_back(SymRec{ name, bytesOf64(mkConst(lo, 64)), true });
		hbChoice(s, lo);
		setRes(s, in, cv(lo));
		advance(s, in);
	});
	reg("sym_concretize", [](State& s, Ins& in) { ARG(0, v) setRes(s, in, cv(v)); advance(s, in); });
	reg("sym_any", [](State& s, Ins& in) { // an arbitrary (symbolic) element of [lo,hi] picked once per path without forking over values
		ARG(0, v)
		setRes(s, in, cv(v));
		advance(s, in);
	});
	reg("sym_assume", [](State& s, Ins& in) {
		SV v = *opnd(s, in, 0);
		E c = boolOf(v, 32);
		if (isTrue(c)) { advance(s, in); return; }
		if (isFalse(c)) { ++S.assumeEnded; s.dead = true; return; }
		if (!evalE(c, *s.model)) {
			ModelP m;
			Res r = solve(s.pc, c, s.model, m);
			if (r != R_SAT) {
				if (r == R_UNKNOWN) incomplete("assumption undecided by the solver");
				++S.assumeEnded;
				s.dead = true;
				return;
			}
			s.model = m;
		}
		addPc(s, c);
		advance(s, in);
	});
	reg("sym_assert", [](State& s, Ins& in) {
		ARG(1, mp)
		SV v = *opnd(s, in, 0);
		E c = boolOf(v, 32);
		++S.assertsChecked;
		if (isTrue(c)) { advance(s, in); return; }
		std::string msg = rdStr(s, mp);
		if (isFalse(c)) { violate(s, "assert", msg); return; }
		++S.assertQueries;
		ModelP m;
		Res r = solve(s.pc, mkNot(c), s.model, m);
		if (r == R_SAT) {
			report(s, "assert", msg, m);
			// continue on the side where it holds
			if (!evalE(c, *s.model)) {
				ModelP m2;
				if (solve(s.pc, c, s.model, m2) != R_SAT) { s.dead = true; return; }
				s.model = m2;
			}
			addPc(s, c);
		}
		else if (r == R_UNKNOWN) {
			++S.unknownAsserts;
			incomplete("assertion undecided by the solver: " + msg);
			if (!evalE(c, *s.model)) { s.dead = true; return; }
		}
		advance(s, in);
	});
	reg("sym_fail", [](State& s, Ins& in) { ARG(0, mp) violate(s, "assert", rdStr(s, mp)); });
	reg("sym_cover", [](State& s, Ins& in) {
		ARG(0, mp)
		std::string m = rdStr(s, mp);
		if (covers[m]++ == 0) coverModels[m] = modelOf(s, *s.model);
		advance(s, in);
	});
	reg("sym_determined", [](State& s, Ins& in) {
		ARG(0, p) ARG(1, n) ARG(2, mp)
		std::string msg = rdStr(s, mp);
		++S.assertsChecked;
		if (n) {
			size_t idx; uint64_t off;
			if (!locate(s, p, n, false, idx, off)) return;
			Obj* o = readObj(s, idx, off, n);
			std::set<E> seen;
			std::vector<E> es;
			for (uint64_t i = 0; i < n; ++i) {
				E e = readByte(o, off + i);
				if (!e->isConst() && seen.insert(e).second)
					es.push_back(e);
			}
			ModelP m;
			if (garbageDependent(s, es, m)) {
				violate(s, "undetermined", msg, m);
				return;
			}
		}
		advance(s, in);
	});
	reg("sym_param", [](State& s, Ins& in) {
		ARG(0, np) ARG(1, def)
		auto it = params.find(rdStr(s, np));
		setRes(s, in, cv(it == params.end() ? def : strtoull(it->second.c_str(), nullptr, 0)));
		advance(s, in);
	});
	reg("sym_is_symbolic", [](State& s, Ins& in) { setRes(s, in, cv(1)); advance(s, in); });
	reg("sym_is_const", [](State& s, Ins& in) { // also when the path leaves only one value
		SV v = *opnd(s, in, 0);
		bool is = !v.e;
		if (!is && !s.pc.empty()) {
			ModelP m;
			is = solve(s.pc, mkNot(mkEq(v.e, mkConst(evalE(v.e, *s.model), v.e->width))), s.model, m) == R_UNSAT;
		}
		setRes(s, in, cv(is));
		advance(s, in);
	});
	reg("sym_heap_live", [](State& s, Ins& in) { hbChoice(s, s.heapLive); setRes(s, in, cv(s.heapLive)); advance(s, in); });
	reg("sym_heap_bytes", [](State& s, Ins& in) { hbChoice(s, s.heapBytes); setRes(s, in, cv(s.heapBytes)); advance(s, in); });
	reg("sym_alloc_fail", [](State& s, Ins& in) { ARG(0, n) s.mallocFail = (int)n; if (n) { s.vars["afail"] = 1; s.vars["acount"] = 0; } else s.vars.erase("afail"); advance(s, in); });
	reg("sym_alloc_failed", [](State& s, Ins& in) { hbChoice(s, (uint64_t)s.mallocFailed); setRes(s, in, cv((uint64_t)s.mallocFailed)); advance(s, in); });
	reg("sym_sched", [](State& s, Ins& in) {
		ARG(0, n)
		s.sched = n != 0;
		if (n) preemptBound = (int)n - 1;
		// everything so far is ordered before what follows
		s.shadow.clear();
		s.syncs.clear();
		s.vc.assign(s.th.size(), VC());
		s.hh.assign(s.th.size(), 0);
		for (E c : s.pc) hbChoice(s, (uint64_t)(uintptr_t)c);
		for (auto& y : s.syms) for (E b : y.bytes) hbChoice(s, (uint64_t)(uintptr_t)b);
		s.oh.clear();
		for (unsigned i = 0; i < s.vc.size(); ++i)
			for (unsigned j = 0; j < MAXT; ++j)
				s.vc[i].c[j] = 1;
		for (unsigned i = 0; i < s.vc.size() && i < MAXT; ++i)
			s.vc[i].c[i] = 2;
		if (s.th.size() > MAXT) { incomplete("too many threads for race tracking"); s.dead = true; return; }
		advance(s, in);
	});
	reg("sym_observe", [](State& s, Ins& in) {
		ARG(0, p) ARG(1, n) ARG(2, np)
		std::vector<E> b;
		if (n) {
			size_t idx; uint64_t off;
			if (!locate(s, p, n, false, idx, off)) return;
			Obj* o = readObj(s, idx, off, n);
			for (uint64_t i = 0; i < n; ++i) b.push_back(readByte(o, off + i));
		}
		s.obs.push_back({ rdStr(s, np), b });
		advance(s, in);
	});
	reg("sym_print", [](State& s, Ins& in) {
		ARG(0, np)
		SV v = *opnd(s, in, 1);
		fprintf(stderr, "[%llu] %s = %s\n", (unsigned long long)s.id, rdStr(s, np).c_str(), v.e ? toStr(v.e, 8).c_str() : std::to_string(v.c).c_str());
		advance(s, in);
	});
	reg("sym_valid", [](State& s, Ins& in) { // is [p,p+n) inside one live object?
		ARG(0, p) ARG(1, n)
		long i = s.mem.find(p);
		bool ok = i >= 0 && p - s.mem.objs[(size_t)i].o->base + n <= s.mem.objs[(size_t)i].o->size;
		setRes(s, in, cv(ok));
		advance(s, in);
	});
	// ---- C library
	reg("malloc", [](State& s, Ins& in) { ARG(0, n) hMalloc(s, in, n, false); });
	reg("calloc", [](State& s, Ins& in) { ARG(0, a) ARG(1, b) hMalloc(s, in, a * b, true); });
	reg("realloc", [](State& s, Ins& in) {
		ARG(0, p) ARG(1, n)
		if (allocFails(s, in, n)) { setRes(s, in, cv(0)); advance(s, in); return; }
		uint64_t q = allocHeap(s, in, n, false, 1);
		if (p) {
			long i = s.mem.find(p);
			if (i < 0 || s.mem.objs[(size_t)i].base != p) { violate(s, "bad-free", "realloc of a pointer that is not a live heap allocation"); return; }
			uint64_t os = s.mem.objs[(size_t)i].o->size;
			memCopy(s, q, p, std::min(os, n));
			if (!freeObj(s, p, 1)) return;
		}
		setRes(s, in, cv(q));
		advance(s, in);
	});
	reg("free", [](State& s, Ins& in) { ARG(0, p) if (freeObj(s, p, 1)) advance(s, in); });
	reg("aligned_alloc", [](State& s, Ins& in) { ARG(0, al) ARG(1, n) if (allocFails(s, in, n)) { setRes(s, in, cv(0)); advance(s, in); return; } setRes(s, in, cv(allocHeap(s, in, n, false, 1, (unsigned)std::max<uint64_t>(al, 32)))); advance(s, in); });
	reg("posix_memalign", [](State& s, Ins& in) { ARG(0, pp) ARG(1, al) ARG(2, n) if (allocFails(s, in, n)) { setRes(s, in, cv(12)); advance(s, in); return; } uint64_t a = allocHeap(s, in, n, false, 1, (unsigned)std::max<uint64_t>(al, 32)); if (!wrU(s, pp, a, 64)) return; setRes(s, in, cv(0)); advance(s, in); });
	reg("_Znwm", [](State& s, Ins& in) { ARG(0, n) hNew(s, in, n, 2); });
	reg("_Znam", [](State& s, Ins& in) { ARG(0, n) hNew(s, in, n, 3); });
	reg("_ZnwmSt11align_val_t", [](State& s, Ins& in) { ARG(0, n) ARG(1, al) hNew(s, in, n, 2, (unsigned)al); });
	reg("_ZnamSt11align_val_t", [](State& s, Ins& in) { ARG(0, n) ARG(1, al) hNew(s, in, n, 3, (unsigned)al); });
	reg("_ZnwmRKSt9nothrow_t", [](State& s, Ins& in) { ARG(0, n) if (allocFails(s, in, n)) { setRes(s, in, cv(0)); advance(s, in); return; } setRes(s, in, cv(allocHeap(s, in, n, false, 2))); advance(s, in); });
	for (const char* nm : { "_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t" })
		reg(nm, [](State& s, Ins& in) { ARG(0, p) if (freeObj(s, p, 2)) advance(s, in); });
	for (const char* nm : { "_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t" })
		reg(nm, [](State& s, Ins& in) { ARG(0, p) if (freeObj(s, p, 3)) advance(s, in); });
	for (const char* nm : { "memcpy", "memmove" })
		reg(nm, [](State& s, Ins& in) { ARG(0, d) ARG(1, p) ARG(2, n) if (memCopy(s, d, p, n)) { setRes(s, in, cv(d)); advance(s, in); } });
	reg("memset", [](State& s, Ins& in) { ARG(0, d) ARG(2, n) SV v = *opnd(s, in, 1); v = v.e ? norm(mkTrunc(v.e, 8)) : cv(v.c & 255); if (memSet(s, d, v, n)) { setRes(s, in, cv(d)); advance(s, in); } });
	for (const char* nm : { "memcmp", "bcmp" })
		reg(nm, [](State& s, Ins& in) {
			ARG(0, a) ARG(1, b) ARG(2, n)
			E r = mkConst(0, 32);
			if (n) {
				size_t ia, ib; uint64_t oa, ob;
				if (!locate(s, a, n, false, ia, oa)) return;
				if (!locate(s, b, n, false, ib, ob)) return;
				readObj(s, ia, oa, n);
				readObj(s, ib, ob, n);
				for (uint64_t k = n; k-- > 0;) {
					E x = readByte(s.mem.objs[ia].o, oa + k), y = readByte(s.mem.objs[ib].o, ob + k);
					if (x == y) continue;
					r = mkIte(mkEq(x, y), r, mkIte(mkUlt(x, y), mkConst(~0ull, 32), mkConst(1, 32)));
				}
			}
			setRes(s, in, norm(r));
			advance(s, in);
		});
	reg("strlen", [](State& s, Ins& in) { ARG(0, a) setRes(s, in, cv(rdStr(s, a).size())); advance(s, in); });
	reg("strcmp", [](State& s, Ins& in) { ARG(0, a) ARG(1, b) int c = rdStr(s, a).compare(rdStr(s, b)); setRes(s, in, cv((uint32_t)(c < 0 ? -1 : c > 0))); advance(s, in); });
	reg("abort", [](State& s, Ins& in) { violate(s, "abort", "abort() called"); });
	reg("exit", [](State& s, Ins& in) { endPath(s, "exit"); });
	reg("_exit", [](State& s, Ins& in) { endPath(s, "exit"); });
	reg("__assert_fail", [](State& s, Ins& in) { ARG(0, m) violate(s, "abort", "assert failed: " + rdStr(s, m)); });
	reg("lldiv", [](State& s, Ins& in) { // returns {i64,i64}
		SV a = *opnd(s, in, 0), b = *opnd(s, in, 1);
		bool bad = false;
		SV* d = dstp(s, in);
		SV q = binop(Instruction::SDiv, a, b, 64, bad), r = binop(Instruction::SRem, a, b, 64, bad);
		if (bad) { violate(s, "div-by-zero", "lldiv"); return; }
		d[0] = q; d[1] = r;
		advance(s, in);
	});
	for (const char* nm : { "puts", "printf", "fprintf", "fputs", "putchar", "fflush", "fwrite", "perror", "__cxa_atexit", "__cxa_thread_atexit", "atexit", "sleep", "usleep", "nanosleep", "srand",
		  "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableD1Ev", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_init", "pthread_cond_destroy", "_ZNSt6thread6_StateD2Ev",
		  "_ZNSt12out_of_rangeC1EPKc", "_ZNSt12out_of_rangeD1Ev", "_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorD1Ev", "_ZNSt11logic_errorC1EPKc", "_ZNSt11logic_errorD1Ev", "_ZNSt12length_errorC1EPKc", "_ZNSt12length_errorD1Ev", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt16invalid_argumentD1Ev", "_ZNSt9bad_allocD1Ev", "_ZNSt9exceptionD2Ev", "_ZNSt12system_errorD1Ev" })
		reg(nm, nop);
	for (const char* nm : { "_ZSt15get_new_handlerv", "pthread_self" })
		reg(nm, [](State& s, Ins& in) { setRes(s, in, cv(1000 + s.cur)); advance(s, in); });
	// ---- C++ runtime
	reg("__cxa_guard_acquire", [](State& s, Ins& in) {
		ARG(0, g)
		accessMode = 1;
		hbAcquire(s, g);
		hbObject(s, g);
		size_t i; uint64_t off;
		if (!locate(s, g, 1, false, i, off)) return;
		SV v = loadLane(s.mem.objs[i].o, off, 8);
		setRes(s, in, cv(v.c == 0));
		advance(s, in);
	});
	reg("__cxa_guard_release", [](State& s, Ins& in) { ARG(0, g) accessMode = 1; hbRelease(s, g, true); if (wrU(s, g, 1, 8)) advance(s, in); });
	reg("__cxa_guard_abort", nop);
	reg("__cxa_allocate_exception", [](State& s, Ins& in) { ARG(0, n) setRes(s, in, cv(s.mem.alloc(std::max<uint64_t>(n, 64), O_HEAP, true, 64, 16, nullptr))); advance(s, in); });
	reg("__cxa_free_exception", nop);
	reg("__cxa_throw", [](State& s, Ins& in) {
		ARG(0, p)
		auto* cb = cast<CallBase>(in.I);
		std::string t = cb->getArgOperand(1)->stripPointerCasts()->getName().str();
		s.excType[p] = t;
		throwType(s, t, p);
	});
	reg("__cxa_begin_catch", [](State& s, Ins& in) {
		ARG(0, p)
		Thread& t = s.t();
		Exc e = t.pending;
		e.obj = p;
		auto it = s.excType.find(p);
		if (it != s.excType.end()) e.type = it->second;
		t.caught.push_back(e);
		setRes(s, in, cv(p));
		advance(s, in);
	});
	reg("__cxa_end_catch", [](State& s, Ins& in) { if (!s.t().caught.empty()) s.t().caught.pop_back(); advance(s, in); });
	reg("__cxa_get_exception_ptr", [](State& s, Ins& in) { ARG(0, p) setRes(s, in, cv(p)); advance(s, in); });
	reg("__cxa_rethrow", [](State& s, Ins& in) {
		if (s.t().caught.empty()) { violate(s, "terminate", "rethrow without exception"); return; }
		Exc e = s.t().caught.back();
		s.excType[e.obj] = e.type;
		s.t().pending = e;
		unwind(s);
	});
	for (const char* nm : { "_ZSt9terminatev", "__clang_call_terminate", "__cxa_pure_virtual", "__cxa_call_terminate" })
		reg(nm, [](State& s, Ins& in) { violate(s, "terminate", "std::terminate called"); });
	static const std::pair<const char*, const char*> thr[] = { { "_ZSt20__throw_length_errorPKc", "_ZTISt12length_error" }, { "_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc" }, { "_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length" },
		{ "_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range" }, { "_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range" }, { "_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error" }, { "_ZSt20__throw_system_errori", "_ZTISt12system_error" }, { "_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call" }, { "__cxa_throw_bad_array_new_length", "_ZTISt20bad_array_new_length" } };
	for (auto& p : thr) {
		std::string ty = p.second;
		reg(p.first, [ty](State& s, Ins& in) { throwType(s, ty); });
	}
	reg("_ZNSt8__detail15_List_node_base7_M_hookEPS0_", [](State& s, Ins& in) {
		ARG(0, self) ARG(1, pos) // next at 0, prev at 8
		uint64_t prev = rdU64(s, pos + 8);
		if (s.dead || !wrU(s, self, pos, 64) || !wrU(s, self + 8, prev, 64) || !wrU(s, prev, self, 64) || !wrU(s, pos + 8, self, 64)) return;
		advance(s, in);
	});
	reg("_ZNSt8__detail15_List_node_base9_M_unhookEv", [](State& s, Ins& in) {
		ARG(0, self)
		uint64_t nx = rdU64(s, self), pv = rdU64(s, self + 8);
		if (s.dead || !wrU(s, pv, nx, 64) || !wrU(s, nx + 8, pv, 64)) return;
		advance(s, in);
	});
	reg("_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_", [](State& s, Ins& in) {
		ARG(0, self) ARG(1, first) ARG(2, last)
		if (self != last) {
			uint64_t lp = rdU64(s, last + 8), fp = rdU64(s, first + 8), sp = rdU64(s, self + 8);
			if (s.dead) return;
			wrU(s, lp, self, 64); wrU(s, fp, last, 64); wrU(s, sp, first, 64);
			wrU(s, self + 8, lp, 64); wrU(s, last + 8, fp, 64); wrU(s, first + 8, sp, 64);
			if (s.dead) return;
		}
		advance(s, in);
	});
	// ---- threads
	reg("_ZNSt6thread20hardware_concurrencyEv", [](State& s, Ins& in) { setRes(s, in, cv(params.count("hw") ? strtoull(params["hw"].c_str(), 0, 0) : 1)); advance(s, in); });
	reg("_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", [](State& s, Ins& in) {
		ARG(0, self) ARG(1, up)
		uint64_t st = rdU64(s, up);
		if (s.dead) return;
		uint64_t vt = rdU64(s, st), fn = rdU64(s, vt + 16);
		if (s.dead) return;
		auto it = faddr.find(fn);
		if (it == faddr.end()) { killUnsupported(s, "thread entry"); return; }
		wrU(s, up, 0, 64);
		uint64_t tid;
		advance(s, in);
		spawn(s, it->second, st, tid);
		wrU(s, self, tid, 64);
		--s.heapLive; // the thread state object is released by the thread
	});
	reg("_ZNSt6thread4joinEv", [](State& s, Ins& in) {
		ARG(0, self)
		uint64_t tid = rdU64(s, self);
		if (s.dead) return;
		unsigned t = (unsigned)(tid - 1000);
		if (tid < 1000 || t >= s.th.size()) { violate(s, "terminate", "join of a thread that is not joinable"); return; }
		if (!schedPoint(s)) return;
		wrU(s, self, 0, 64);
		if (s.th[t].status == T_DONE) { if (s.sched) { vcJoin(s.vc[s.cur], s.vc[t]); hbChoice(s, s.hh[t]); } advance(s, in); return; }
		s.t().status = T_JOIN;
		s.t().waitOn = t;
		mustSwitch(s, true);
	});
	reg("pthread_mutex_lock", [](State& s, Ins& in) { ARG(0, m) if (!schedPoint(s)) return; mutexLock(s, in, m, true); });
	reg("pthread_mutex_unlock", [](State& s, Ins& in) { ARG(0, m) mutexUnlock(s, m); if (s.dead) return; setRes(s, in, cv(0)); advance(s, in); });
	reg("pthread_mutex_trylock", [](State& s, Ins& in) { ARG(0, m) if (!schedPoint(s)) return; hbObject(s, m); int& o = s.mutexOwner[m]; if (o) setRes(s, in, cv(16)); else { o = (int)s.cur + 1; hbAcquire(s, m); setRes(s, in, cv(0)); } advance(s, in); });
	reg("_ZNSt18condition_variable10notify_oneEv", [](State& s, Ins& in) { ARG(0, c) if (!schedPoint(s)) return; notify(s, c, false); advance(s, in); });
	reg("_ZNSt18condition_variable10notify_allEv", [](State& s, Ins& in) { ARG(0, c) if (!schedPoint(s)) return; notify(s, c, true); advance(s, in); });
	reg("_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", [](State& s, Ins& in) {
		ARG(0, c) ARG(1, ul)
		uint64_t m = rdU64(s, ul);
		if (s.dead) return;
		mutexUnlock(s, m);
		if (s.dead) return;
		hbObject(s, c);
		s.t().status = T_COND;
		s.t().waitOn = c;
		s.t().waitMutex = m;
		mustSwitch(s, true);
	});
	reg("sched_yield", [](State& s, Ins& in) {
		setRes(s, in, cv(0));
		advance(s, in);
		if (s.th.size() > 1) { s.t().yielded = true; mustSwitch(s, true); }
	});
#undef ARG
}
