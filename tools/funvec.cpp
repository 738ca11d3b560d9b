// Offline test-vector selection for the float function circuits (appended to harness/floatvec.txt): as floatvec.cpp, but a fault
// counts as reached only when the faulty result leaves the tolerance of FloatFun.
#include "floatrec.h"
#include <set>
#include <cmath>
typedef uint64_t V __attribute__((vector_size(64)));
static std::mt19937_64 R(7);
static uint32_t gen() {
	int k = R() % 10; uint32_t u = R(); uint32_t fr = u & 0x7fffff, s = u & 0x80000000; int e = 1 + R() % 254;
	if (k == 0) { if (R() % 4 == 0) return s | (R() % 2 ? 0x7f800000 : 0); }
	if (k == 1) fr = 0; if (k == 2) fr = 0x7fffff; if (k == 3) fr = 1u << (R() % 23); if (k == 4) fr = 0x7fffff ^ ((1u << (R() % 23)) - 1); if (k == 5) fr = (1u << (R() % 23)) - 1;
	if (k == 6) fr = (1u << (R() % 23)) | (1u << (R() % 23)); if (k == 7) fr &= R(); return s | (e << 23) | fr;
}
static uint32_t arg(const std::string &op) {
	uint32_t u = gen(); int m = R() % 4; if (m == 0) return op[0] == 'l' ? u & 0x7fffffff : u;
	uint32_t s = op[0] == 'l' ? 0 : u & 0x80000000; if (m == 1) return s | (u & 0x7fffff) | (uint32_t)(op[0] == 'l' ? 120 + R() % 16 : 102 + R() % (op[0] == 'e' ? 34 : 48)) << 23;
	float f = op[0] == 'e' ? (float)(R() % 130) : op[0] == 'l' ? (float)(R() % 4 ? 1 : 1 << (R() % 20)) : (float)(R() % (1 << (R() % 22))) / 2; if (op == "exp" && R() % 2) f = (float)(0.693147180559945 * (double)(R() % 130));
	u = fu(f); if (m == 3) u += (uint32_t)(R() % 9) - 4; else if (R() % 2) u ^= 1u << (R() % 16); return s | (u & 0x7fffffff);
}
static bool okv(const std::string &op, uint32_t x, uint32_t r, long double t) {
	float b = uf(r); bool nan = b != b; int ex = (x >> 23) & 255;
	if (op == "sin" || op == "cos") { if (ex == 255) return nan; return !nan && fabsl(b - t) <= 4.78e-7L; }
	if (op[0] == 'e') { if (nan || (r >> 31)) return false; if (ex == 255 || ex >= 135) return r == ((x >> 31) ? 0u : 0x7f800000u); if (r == 0x7f800000) return t >= ldexpl(1 - 2.5e-7L, 128); if (r == 0) return t <= ldexpl(1 + 2.5e-7L, -126); return fabsl(b - t) <= 2.385e-7L * t; }
	if (x == 0x7f800000) return r == x; if (ex == 0) return r == 0xff800000; return !nan && !std::isinf(b) && fabsl(b - t) <= 1.193e-7L * std::max(1.0L, fabsl(t));
}
int main(int c, char **v) {
	std::string op = v[1]; int batches = atoi(v[2]); R.seed(atoi(v[3])); Circ ci = record(op); long double pi = acosl(-1.0L);
	size_t ng = ci.g.size(); std::vector<uint8_t> need(ng); for (size_t i = 0; i < ng; ++i) need[i] = ci.g[i].t == 2 ? 3 : 15;
	std::vector<V> w(ci.n), f(ci.n); std::vector<uint32_t> sel; size_t left = 0; std::vector<uint8_t> dirty(ci.n);
	for (int t = 0; t < batches; ++t) {
		std::vector<uint32_t> x(512), y(512, 0); std::vector<long double> ref(512);
		for (int i = 0; i < 512; ++i) { for (;;) { x[i] = arg(op); float a = uf(x[i]); if (a == a) break; } long double a = uf(x[i]); if (!((x[i] >> 23) & 255)) a = 0; ref[i] = op == "sin" ? sinl(fmodl(a, 2) * pi) : op == "cos" ? cosl(fmodl(a, 2) * pi) : op == "exp2" ? exp2l(a) : op == "exp" ? expl(a) : op == "ln" ? logl(a) : log2l(a); }
		auto pack = [&](std::vector<uint32_t> &p, int i) { V r; for (int l = 0; l < 8; ++l) { uint64_t q = 0; for (int k = 0; k < 64; ++k) q |= (uint64_t)((p[l * 64 + k] >> i) & 1) << k; r[l] = q; } return r; };
		V zero = {0}; w[0] = zero; w[1] = ~zero; for (int i = 0; i < 32; ++i) { w[ci.in[0][i]] = pack(x, i); w[ci.in[1][i]] = pack(y, i); }
		for (auto &g : ci.g) w[g.o] = g.t == 0 ? w[g.a] & w[g.b] : g.t == 1 ? w[g.a] ^ w[g.b] : ~w[g.a];
		auto get = [&](std::vector<V> &z, int lane, bool faulty) { uint32_t r = 0; for (int o = 0; o < 32; ++o) { uint32_t q = ci.out[o]; const V &s = faulty && dirty[q] ? f[q] : w[q]; r |= (uint32_t)((s[lane / 64] >> (lane % 64)) & 1) << o; } return r; };
		for (int i = 0; i < 512; ++i) { uint32_t r = get(w, i, false); if (!okv(op, x[i], r, ref[i])) { fprintf(stderr, "UNFAULTED VIOLATION %s %08x %08x\n", op.c_str(), x[i], r); } }
		std::set<int> used; left = 0;
		for (size_t i = 0; i < ng; ++i) if (need[i]) {
			auto &g = ci.g[i]; std::fill(dirty.begin(), dirty.end(), 0); dirty[g.o] = 1; f[g.o] = ~w[g.o];
			for (size_t k = i + 1; k < ng; ++k) { auto &h = ci.g[k]; bool da = dirty[h.a], db = h.t != 2 && dirty[h.b]; if (!da && !db) continue; V p = da ? f[h.a] : w[h.a], q = h.t == 2 ? p : db ? f[h.b] : w[h.b]; f[h.o] = h.t == 0 ? p & q : h.t == 1 ? p ^ q : ~p; dirty[h.o] = 1; }
			V d = zero; for (auto o : ci.out) if (dirty[o]) d |= f[o] ^ w[o];
			for (int cb = 0; cb < 4; ++cb) if (need[i] >> cb & 1) {
				V m = d; m &= (cb & 1) ? w[g.a] : ~w[g.a]; if (g.t != 2) m &= (cb & 2) ? w[g.b] : ~w[g.b];
				auto bad = [&](int u) { return (m[u / 64] >> (u % 64) & 1) && !okv(op, x[u], get(f, u, true), ref[u]); };
				int hit = -1; for (int u : used) if (bad(u)) { hit = u; break; }
				if (hit < 0) { int tries = 0, s0 = R() % 512; for (int k = 0; k < 512 && tries < 24; ++k) { int u = (s0 + k) % 512; if (m[u / 64] >> (u % 64) & 1) { ++tries; if (bad(u)) { hit = u; break; } } } }
				if (hit >= 0) { need[i] &= ~(1 << cb); if (used.insert(hit).second) sel.push_back(x[hit]); }
			}
			if (need[i]) ++left;
		}
		if (t % 20 == 0) fprintf(stderr, "%s batch %d gates left %zu selected %zu\n", op.c_str(), t, left, sel.size());
	}
	size_t obj = 0, none = 0; for (size_t i = 0; i < ng; ++i) { obj += __builtin_popcount(need[i]); none += need[i] == (ci.g[i].t == 2 ? 3 : 15); }
	fprintf(stderr, "%s: %zu gates, %zu with unreached combinations (%zu objectives), %zu never reached, %zu vectors\n", op.c_str(), ng, left, obj, none, sel.size());
	for (auto &p : sel) printf("%s %08x 00000000\n", op.c_str(), p);
}
