// argv: seed rounds
#include "vh.h"
#include "emp-tool/utils/utils.h"
#include <sstream>
using namespace emp;
using namespace vh;
static Rng *R;
typedef std::vector<uint8_t> By;
static void fillp(uint8_t *p, size_t n) { switch (R->below(5)) { case 0: memset(p, 0, n); if (n) p[R->below(n)] = 1 << R->below(8); break; case 1: memset(p, 255, n); if (n) p[R->below(n)] ^= 1 << R->below(8); break; default: R->fill(p, n); } }
static std::string bl(const bool *p, size_t n) { return J::arr((const uint8_t *)p, n); }
static void trans(int r, int c) {
	size_t n = (size_t)r * c / 8; GBuf in(n, R->below(16), R->coin()), out(n, R->below(16), R->coin(), R->coin() ? 0 : 255);
	fillp(in.p, n); By cp(in.p, in.p + n);
	sse_trans(out.p, in.p, r, c);
	J("trans").i("r", r).i("c", c).bytes("in", cp.data(), n).bytes("out", out.p, n).b("ok", in.intact() && out.intact() && !memcmp(cp.data(), in.p, n)).end();
}
template <class T> static void ints(bool sg) {
	T v; fillp((uint8_t *)&v, sizeof v);
	int len = R->below(3) ? (int)R->below(sizeof(T) * 8 + 1) : (int)sizeof(T) * 8;
	if (R->below(4) == 0) len += (int)R->below(200);   // beyond the type: its sign, or zeros
	GBuf d(len, R->below(16), R->coin()); int_to_bool<T>((bool *)d.p, v, len);
	J("int2bool").i("n", len).b("sg", sg).bytes("in", &v, sizeof v).bytes("out", d.p, len).b("ok", d.intact()).end();
	GBuf b(sizeof(T) * 8, R->below(16), R->coin()); for (size_t i = 0; i < b.n; ++i) b.p[i] = R->coin();
	if (R->below(4) == 0) memset(b.p, R->coin(), b.n);
	T w = bool_to_int<T>((bool *)b.p);
	J("bool2int").bytes("in", b.p, b.n).bytes("out", &w, sizeof w).b("ok", b.intact()).end();
}
// sizes too long to write down: the first bit that is not where the definition puts it
static void bigTrans(size_t r, size_t c) {
	size_t n = r * c / 8; GBuf in(n, R->below(16), R->coin()), out(n, R->below(16), R->coin()); R->fill(in.p, n); By cp(in.p, in.p + n);
	sse_trans(out.p, in.p, r, c); long long bad = -1;
	for (size_t i = 0; i < r && bad < 0; ++i) for (size_t j = 0; j < c; ++j) { size_t f = i * c + j, t = j * r + i; if (((cp[f / 8] >> (f % 8)) ^ (out.p[t / 8] >> (t % 8))) & 1) { bad = (long long)i; break; } }
	J("bulk").s("what", "trans").i("n", (long long)n).i("bad", bad).b("ok", in.intact() && out.intact() && !memcmp(cp.data(), in.p, n)).end();
}
static void bigBits(int n, bool rev) {
	GBuf by((n + 7) / 8, R->below(16), R->coin()), bo(n, R->below(16), R->coin()), back((n + 7) / 8, R->below(16), R->coin()); R->fill(by.p, by.n); R->fill(back.p, back.n); By was(back.p, back.p + back.n);
	to_bool((bool *)bo.p, by.p, n, rev); long long bad = -1;
	for (int i = 0; i < n && bad < 0; ++i) if (bo.p[rev ? n - 1 - i : i] != (by.p[i / 8] >> (i % 8) & 1)) bad = i;
	J("bulk").s("what", "tobool").i("n", n).i("bad", bad).b("ok", by.intact() && bo.intact()).end();
	from_bool((bool *)bo.p, back.p, n, rev); bad = -1;
	for (int i = 0; i < (int)back.n * 8 && bad < 0; ++i) if ((back.p[i / 8] >> (i % 8) & 1) != ((i < n ? by.p[i / 8] : was[i / 8]) >> (i % 8) & 1)) bad = i;
	J("bulk").s("what", "frombool").i("n", n).i("bad", bad).b("ok", back.intact() && bo.intact()).end();
}
static void bigBlocks(int n) {
	GBuf a(16 * (size_t)n, 0, true), b(16 * (size_t)n, 0, true), o(16 * (size_t)n, 0, true); R->fill(a.p, a.n); R->fill(b.p, b.n); long long bad = -1;
	xorBlocks_arr((block *)o.p, (block *)a.p, (block *)b.p, n); for (size_t i = 0; i < o.n && bad < 0; ++i) if (o.p[i] != (a.p[i] ^ b.p[i])) bad = (long long)i;
	xorBlocks_arr((block *)o.p, (block *)a.p, ((block *)b.p)[1], n); for (size_t i = 0; i < o.n && bad < 0; ++i) if (o.p[i] != (a.p[i] ^ b.p[16 + i % 16])) bad = (long long)i;
	memcpy(b.p, a.p, a.n); if (!cmpBlock((block *)a.p, (block *)b.p, n)) bad = 0;
	for (size_t k : {(size_t)0, a.n / 2 + 5, a.n - 1}) { b.p[k] ^= 16; if (cmpBlock((block *)a.p, (block *)b.p, n)) bad = (long long)k; b.p[k] ^= 16; }
	J("bulk").s("what", "blocks").i("n", n).i("bad", bad).b("ok", a.intact() && b.intact() && o.intact()).end();
}
int main(int argc, char **argv) {
	Rng r(strtoull(argv[1], 0, 10)); R = &r; int rounds = atoi(argv[2]);
	int top = rounds > 200 ? 136 : 72;
	for (int a = 8; a <= top; a += 8) for (int b = 8; b <= top; b += 8) trans(a, b);
	int big[][2] = {{128, 128}, {8, 256}, {256, 8}, {24, 200}, {200, 24}, {16, 1024}, {1024, 16}, {128, 64}, {8, 1032}, {1032, 8}};
	for (auto &x : big) trans(x[0], x[1]);
	size_t huge[][2] = {{8, 70008}, {70008, 8}, {16, 65552}, {65552, 16}, {24, 65544}, {65544, 24}, {128, 33024}, {33024, 128}, {1000, 1016}, {2048, 2048}};
	for (auto &x : huge) bigTrans(x[0], x[1]);
	for (int n : {1000, 32771, 65543, 600001}) { bigBits(n, false); bigBits(n, true); }
	for (int n : {500, 4097, 65539, 140001}) bigBlocks(n);
	for (int it = 0; it < rounds; ++it) {
		int len = it < 70 ? it : r.below(3) ? r.below(40) : r.below(300); bool rev = r.coin();
		for (int k = 0; k < 2; ++k, rev = !rev) {
			{ GBuf in((len + 7) / 8, r.below(16), r.coin()), d(len, r.below(16), r.coin()); fillp(in.p, in.n); By c(in.p, in.p + in.n);
			if (r.coin()) to_bool((bool *)d.p, in.p, len, rev); else if (rev || r.coin()) to_bool((bool *)d.p, (uint64_t *)in.p, len, rev); else to_bool((bool *)d.p, (uint32_t *)in.p, len);
			J("tobool").i("n", len).b("rev", rev).bytes("in", c.data(), c.size()).bytes("out", d.p, len).b("ok", d.intact() && in.intact() && !memcmp(c.data(), in.p, c.size())).end(); }
			{ GBuf d(len, r.below(16), r.coin()), o((len + 7) / 8 + (r.coin() ? 2 : 0), r.below(16), r.coin()); for (int i = 0; i < len; ++i) d.p[i] = r.coin(); fillp(o.p, o.n); By c(o.p, o.p + o.n), dc(d.p, d.p + len);
			if (r.coin()) from_bool((bool *)d.p, o.p, len, rev); else if (rev || r.coin()) from_bool((bool *)d.p, (uint64_t *)o.p, len, rev); else from_bool((bool *)d.p, (uint32_t *)o.p, len);
			J("frombool").i("n", len).b("rev", rev).bytes("in", dc.data(), len).bytes("before", c.data(), c.size()).bytes("out", o.p, o.n).b("ok", d.intact() && o.intact() && !memcmp(dc.data(), d.p, len)).end(); }
		}
		switch (it % 8) { case 0: ints<uint8_t>(false); break; case 1: ints<int8_t>(true); break; case 2: ints<uint16_t>(false); break; case 3: ints<int16_t>(true); break;
			case 4: ints<uint32_t>(false); break; case 5: ints<int32_t>(true); break; case 6: ints<uint64_t>(false); break; default: ints<int64_t>(true); }
		{ uint8_t b[16]; fillp(b, 16); block v = _mm_loadu_si128((block *)b); GBuf d(128, r.below(16), r.coin()); block_to_bool((bool *)d.p, v);
		J("int2bool").i("n", 128).b("sg", false).bytes("in", b, 16).bytes("out", d.p, 128).b("ok", d.intact()).end();
		for (int i = 0; i < 128; ++i) d.p[i] = r.coin(); block w = bool_to_block((bool *)d.p); J("bool2int").bytes("in", d.p, 128).bytes("out", &w, 16).b("ok", d.intact()).end();
		for (int q = 0; q < 4; ++q) { volatile int i = (it + 32 * q) % 128; block u = q & 1 ? zero_block : v; block s = set_bit(u, i); J("setbit").i("n", i).bytes("in", &u, 16).bytes("out", &s, 16).b("ok", true).end(); }
		J("lsb").bytes("in", b, 16).i("out", getLSB(v)).b("ok", true).end();
		block m = makeBlock(*(uint64_t *)(b + 8), *(uint64_t *)b); J("make").bytes("lo", b, 8).bytes("hi", b + 8, 8).bytes("out", &m, 16).b("ok", true).end();
		std::ostringstream os; os << v; J("show").bytes("in", b, 16).s("out", os.str()).b("ok", true).end(); }
		{ int n = r.below(18); GBuf a(16 * n, 0, r.coin()), b(16 * n, 0, r.coin()), o(16 * n, 0, r.coin()); fillp(a.p, a.n); fillp(b.p, b.n); By ca(a.p, a.p + a.n), cb(b.p, b.p + b.n);
		int al = r.below(4); block *dst = al == 0 ? (block *)a.p : al == 1 ? (block *)b.p : (block *)o.p;
		if (r.coin()) { xorBlocks_arr(dst, (block *)a.p, (block *)b.p, n); By out((uint8_t *)dst, (uint8_t *)dst + 16 * n);
			bool ok = a.intact() && b.intact() && o.intact() && (al == 0 || !memcmp(ca.data(), a.p, a.n)) && (al == 1 || !memcmp(cb.data(), b.p, b.n));
			J("xorarr").bytes("a", ca.data(), ca.size()).bytes("b", cb.data(), cb.size()).bytes("out", out.data(), out.size()).b("ok", ok).end(); }
		else { uint8_t y[16]; fillp(y, 16); if (al == 1) dst = (block *)o.p; xorBlocks_arr(dst, (block *)a.p, _mm_loadu_si128((block *)y), n);
			J("xoreach").bytes("a", ca.data(), ca.size()).bytes("b", y, 16).bytes("out", dst, 16 * n).b("ok", a.intact() && o.intact() && (al == 0 || !memcmp(ca.data(), a.p, a.n))).end(); } }
		{ int n = r.below(12); GBuf a(16 * n, 0, r.coin()), b(16 * n, 0, r.coin()); fillp(a.p, a.n); memcpy(b.p, a.p, a.n); if (n && r.below(3)) { int k = r.coin() ? r.below(16 * n) : 16 * (n - 1) + r.below(16); b.p[k] ^= 1 << r.below(8); }
		bool e = cmpBlock((block *)a.p, (block *)b.p, n); J("cmp").bytes("a", a.p, a.n).bytes("b", b.p, b.n).b("out", e).b("ok", a.intact() && b.intact()).end(); }
	}
}
