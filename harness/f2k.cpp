// argv: seed, number of rounds. Stateless events over GF(2^128).
#include "vh.h"
#include "emp-tool/utils/f2k.h"
using namespace emp;
using namespace vh;
static Rng *R;
static block ld(const void *p) { return _mm_loadu_si128((const block *)p); }
static block pick() {
	uint8_t b[16];
	switch (R->below(8)) {
	case 0: memset(b, 0, 16); break;
	case 1: memset(b, 255, 16); break;
	case 2: memset(b, 0, 16); { int i = R->below(128); b[i / 8] = 1 << (i % 8); } break;
	case 3: memset(b, 0, 16); b[15] = R->coin() ? 0x80 : 0x40; b[0] = R->below(4); break;
	case 4: memset(b, 255, 16); { int i = R->below(128); b[i / 8] ^= 1 << (i % 8); } break;
	case 5: { R->fill(b, 16); int w = R->below(4); for (int k = 0; k < 4; ++k) if (k != w) memset(b + 4 * k, 0, 4); } break;
	default: R->fill(b, 16);
	}
	return ld(b);
}
static std::string lim(const block *p, int n = 1) {
	std::string r = "["; const uint8_t *q = (const uint8_t *)p;
	for (int i = 0; i < 8 * n; ++i) { if (i) r += ","; r += std::to_string(q[2 * i] + 256 * q[2 * i + 1]); }
	return r + "]";
}
static std::string vec(const block *p, int n) { std::string r = "["; for (int i = 0; i < n; ++i) { if (i) r += ","; r += lim(p + i); } return r + "]"; }
struct BV { GBuf g; block *p; BV(int n, bool end) : g(16 * n, 0, end), p((block *)g.p) {} };
template <int N> void tmpl(block *o, const char *w, const block *a, const block *b, block s, std::string &kind) {
	if (kind == "inn") vector_inn_prdt_sum_red<N>(o, a, b);
	else if (kind == "innn") vector_inn_prdt_sum_no_red<N>(o, a, b);
	else if (kind == "coeff") uni_hash_coeff_gen<N>(o, s);
	else vector_self_xor<N>(o, (block *)a);
}
static bool tcall(int n, block *o, const block *a, const block *b, block s, std::string kind) {
	switch (n) {
#define C(N) case N: tmpl<N>(o, "", a, b, s, kind); return true;
		C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(11) C(12) C(16)
	}
	return false;
}
// long vectors: each form against the law that defines it from the element-wise forms checked below
static void bulk(int n) {
	BV a(n, true), b(n, true), o(2, true), c(n, true), s(1, true); R->fill(a.g.p, 16 * (size_t)n); R->fill(b.g.p, 16 * (size_t)n);
	std::vector<uint8_t> ca(a.g.p, a.g.p + 16 * (size_t)n), cb(b.g.p, b.g.p + 16 * (size_t)n);
	block lo = zero_block, hi = zero_block, rd = zero_block, sm = zero_block, x, y, seed = pick(); if (!memcmp(&seed, &zero_block, 16)) seed = makeBlock(3, 5);
	for (int i = 0; i < n; ++i) { mul128(a.p[i], b.p[i], &x, &y); lo ^= x; hi ^= y; gfmul(a.p[i], b.p[i], &x); rd ^= x; sm ^= a.p[i]; }
	vector_inn_prdt_sum_no_red(o.p, a.p, b.p, n); bool nored = !memcmp(o.p, &lo, 16) && !memcmp(o.p + 1, &hi, 16);
	vector_inn_prdt_sum_red(s.p, a.p, b.p, n); bool red = !memcmp(s.p, &rd, 16);
	vector_self_xor(s.p, a.p, n); bool sum = !memcmp(s.p, &sm, 16);
	uni_hash_coeff_gen(c.p, seed, n); long long bad = -1; block e = seed;
	for (int i = 0; i < n && bad < 0; ++i) { if (memcmp(c.p + i, &e, 16)) bad = i; gfmul(e, seed, &x); e = x; }
	J("bulk").i("n", n).b("nored", nored).b("red", red).b("sum", sum).i("bad", bad).b("ok", a.g.intact() && b.g.intact() && o.g.intact() && c.g.intact() && s.g.intact() && !memcmp(ca.data(), a.g.p, ca.size()) && !memcmp(cb.data(), b.g.p, cb.size())).end();
}
int main(int argc, char **argv) {
	Rng r(strtoull(argv[1], 0, 10)); R = &r; int rounds = atoi(argv[2]);
	for (int n : {64, 127, 128, 255, 257, 1024, 4099, 32769, 65535, 65536, 65538, 200003}) bulk(n);
	GaloisFieldPacking P0;
	for (int it = 0; it < rounds; ++it) {
		for (int k = 0; k < 6; ++k) {
			BV m(4, r.coin()); m.p[0] = pick(); m.p[1] = r.below(8) == 0 ? m.p[0] : pick(); block a = m.p[0], b = m.p[1];
			mul128(a, b, m.p + 2, m.p + 3);
			J("mul").raw("a", lim(&a)).raw("b", lim(&b)).raw("out", lim(m.p + 2, 2)).b("ok", m.g.intact()).end();
			gfmul(a, b, m.p + 2); J("gfmul").raw("a", lim(&a)).raw("b", lim(&b)).raw("out", lim(m.p + 2)).b("ok", m.g.intact()).end();
			m.p[2] = a; gfmul(m.p[2], b, m.p + 2); J("gfmul").raw("a", lim(&a)).raw("b", lim(&b)).raw("out", lim(m.p + 2)).b("ok", m.g.intact()).end();
			gfmul_reflect(a, b, m.p + 2); J("gfmulr").raw("a", lim(&a)).raw("b", lim(&b)).raw("out", lim(m.p + 2)).b("ok", m.g.intact()).end();
			block c = reduce(a, b); J("red").raw("a", lim(&a)).raw("b", lim(&b)).raw("out", lim(&c)).b("ok", true).end();
			block h = b & makeBlock(0x7FFFFFFFFFFFFFFFULL, ~0ULL);
			c = reduce_reflect(a, h); J("redr").raw("a", lim(&a)).raw("b", lim(&h)).raw("out", lim(&c)).b("ok", true).end();
		}
		for (int k = 0; k < 4; ++k) {
			int n = r.below(3) ? r.below(10) : r.below(24);
			BV a(n, true), b(n, true), o(2, true);
			for (int i = 0; i < n; ++i) { a.p[i] = pick(); b.p[i] = pick(); }
			std::vector<uint8_t> ca(a.g.p, a.g.p + 16 * n), cb(b.g.p, b.g.p + 16 * n);
			auto keep = [&]() { return a.g.intact() && b.g.intact() && o.g.intact() && !memcmp(ca.data(), a.g.p, 16 * n) && !memcmp(cb.data(), b.g.p, 16 * n); };
			bool t = r.coin();
			{ BV o1(1, true); if (!(t && n && tcall(n, o1.p, a.p, b.p, zero_block, "inn"))) vector_inn_prdt_sum_red(o1.p, a.p, b.p, n);
			J("inn").raw("a", vec(a.p, n)).raw("b", vec(b.p, n)).raw("out", lim(o1.p)).b("ok", keep() && o1.g.intact()).end(); }
			if (!(t && n && tcall(n, o.p, a.p, b.p, zero_block, "innn"))) vector_inn_prdt_sum_no_red(o.p, a.p, b.p, n);
			J("innn").raw("a", vec(a.p, n)).raw("b", vec(b.p, n)).raw("out", lim(o.p, 2)).b("ok", keep()).end();
			{ BV o1(1, true); if (!(t && n && tcall(n, o1.p, a.p, b.p, zero_block, "sum"))) vector_self_xor(o1.p, a.p, n);
			J("sum").raw("a", vec(a.p, n)).raw("out", lim(o1.p)).b("ok", keep() && o1.g.intact()).end(); }
			if (n) {   // the result written over an operand
				int q = r.below(n), two = n > 1 ? (int)r.below(n - 1) : -1; bool sec = r.coin(); BV x(n, true), y(n, true);
				auto reset = [&]() { memcpy(x.g.p, ca.data(), 16 * n); memcpy(y.g.p, cb.data(), 16 * n); };
				auto rest = [&](int from, int cnt, bool inY) { bool ok = x.g.intact() && y.g.intact(); for (int i = 0; i < n; ++i) { bool w = i >= from && i < from + cnt; if (!(w && !inY) && memcmp(x.p + i, a.p + i, 16)) ok = false; if (!(w && inY) && memcmp(y.p + i, b.p + i, 16)) ok = false; } return ok; };
				reset(); block *d = (sec ? y.p : x.p) + q; vector_inn_prdt_sum_red(d, x.p, y.p, n); J("inn").raw("a", vec(a.p, n)).raw("b", vec(b.p, n)).raw("out", lim(d)).b("ok", rest(q, 1, sec)).end();
				reset(); vector_self_xor(x.p + q, x.p, n); J("sum").raw("a", vec(a.p, n)).raw("out", lim(x.p + q)).b("ok", rest(q, 1, false)).end();
				if (two >= 0) { reset(); d = (sec ? y.p : x.p) + two; vector_inn_prdt_sum_no_red(d, x.p, y.p, n); J("innn").raw("a", vec(a.p, n)).raw("b", vec(b.p, n)).raw("out", lim(d, 2)).b("ok", rest(two, 2, sec)).end(); }
			}
			int s = (it * 4 + k) % 20; BV c(s, true); block seed = pick();
			if (!(t && s && tcall(s, c.p, 0, 0, seed, "coeff"))) uni_hash_coeff_gen(c.p, seed, s);
			J("coeff").raw("a", lim(&seed)).i("n", s).raw("out", vec(c.p, s)).b("ok", c.g.intact()).end();
		}
		if (it % 4 == 0) {
			BV d(128, true), o(1, true); int mode = r.below(3);
			for (int i = 0; i < 128; ++i) d.p[i] = mode == 0 ? pick() : mode == 1 ? zero_block : ld(memset(alloca(16), 0xff, 16));
			if (mode == 1) d.p[r.below(128)] = pick();
			GaloisFieldPacking P1; std::vector<uint8_t> c(d.g.p, d.g.p + 2048);
			bool al = it % 8 == 0; int q = r.below(128); std::string src = vec(d.p, 128); (r.coin() ? P0 : P1).packing(al ? d.p + q : o.p, d.p); if (al) { o.p[0] = d.p[q]; memcpy(d.p + q, c.data() + 16 * q, 16); }
			J("pack").raw("a", src).raw("out", lim(o.p)).b("ok", o.g.intact() && d.g.intact() && !memcmp(c.data(), d.g.p, 2048)).end();
		}
	}
}
