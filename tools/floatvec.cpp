// Offline test-vector selection for the float circuits (its output is harness/floatvec.txt).
// For every gate of the recorded circuit and every combination of values at its inputs, look for an operand pair on which that
// combination occurs and inverting the gate's output changes the result; keep a small set of pairs that reaches all of them.
#include "floatrec.h"
#include <set>
#include <cmath>
typedef uint64_t V __attribute__((vector_size(64)));
static std::mt19937_64 R(7);
static uint32_t gen() {
	int k = R() % 10; uint32_t u = R(); uint32_t fr = u & 0x7fffff, s = u & 0x80000000; int e = R() % 255;
	if (k == 0) { if (R() % 4 == 0) return s | (R() % 2 ? 0x7f800000 : 0); }
	if (k == 1) fr = 0; if (k == 2) fr = 0x7fffff; if (k == 3) fr = 1u << (R() % 23); if (k == 4) fr = 0x7fffff ^ ((1u << (R() % 23)) - 1); if (k == 5) fr = (1u << (R() % 23)) - 1;
	if (k == 6) fr = (1u << (R() % 23)) | (1u << (R() % 23)); if (k == 7) fr &= R(); if (e == 0 && R() % 4) e = 1;
	return s | (e << 23) | fr;
}
static bool sub(uint32_t u) { return !((u >> 23) & 255) && (u & 0x7fffff); }
static uint32_t ftz(uint32_t u) { return sub(u) ? u & 0x80000000 : u; }
int main(int c, char **v) {
	std::string op = v[1]; int batches = atoi(v[2]); R.seed(atoi(v[3])); Circ ci = record(op); bool un = op == "sqr" || op == "sqrt", cmp = op == "eq" || op == "le" || op == "lt", full = un;
	size_t ng = ci.g.size(); std::vector<uint8_t> need(ng); for (size_t i = 0; i < ng; ++i) need[i] = ci.g[i].t == 2 ? 3 : 15; // combination mask still wanted
	std::vector<V> w(ci.n), f(ci.n); std::vector<std::pair<uint32_t, uint32_t>> sel; size_t left = 0, last = 0;
	for (int t = 0; t < batches; ++t) {
		std::vector<uint32_t> x(512), y(512);
		for (int i = 0; i < 512; ++i) for (;;) {
			x[i] = gen(); y[i] = gen(); int m = R() % 5; int e = (x[i] >> 23) & 255;
			if (m == 1) { int q = e + (int)(R() % 56) - 28; if (q > 0 && q < 255) y[i] = (y[i] & 0x807fffff) | (q << 23); }
			if (m == 2) { int q = op == "mul" ? (R() % 2 ? 127 : 381) - e + (int)(R() % 6) - 3 : op == "div" ? e + (R() % 2 ? 126 : -126) + (int)(R() % 6) - 3 : e + (int)(R() % 3) - 1; if (q > 0 && q < 255) y[i] = (y[i] & 0x807fffff) | (q << 23); }
			if (m == 3) { y[i] = x[i] ^ (R() % 2 ? 0x80000000 : 0) ^ (R() % 4 ? 1u << (R() % 23) : 0) ^ (R() % 2 ? 1u << (R() % 23) : 0); }
			float a = uf(full ? x[i] : ftz(x[i])), b = uf(full ? y[i] : ftz(y[i])); volatile float z = op == "add" ? a + b : op == "sub" ? a - b : op == "mul" ? a * b : op == "div" ? a / b : op == "sqr" ? a * a : op == "sqrt" ? sqrtf(a) : 0;
			if (cmp && (sub(x[i]) || sub(y[i]))) continue;
			if (z == z && a == a && b == b) break;
		}
		auto pack = [&](std::vector<uint32_t> &p, int i) { V r; for (int l = 0; l < 8; ++l) { uint64_t q = 0; for (int k = 0; k < 64; ++k) q |= (uint64_t)((p[l * 64 + k] >> i) & 1) << k; r[l] = q; } return r; };
		V zero = {0}; w[0] = zero; w[1] = ~zero; for (int i = 0; i < 32; ++i) { w[ci.in[0][i]] = pack(x, i); w[ci.in[1][i]] = pack(y, i); }
		for (auto &g : ci.g) w[g.o] = g.t == 0 ? w[g.a] & w[g.b] : g.t == 1 ? w[g.a] ^ w[g.b] : ~w[g.a];
		std::set<int> used; left = 0; std::vector<uint8_t> dirty(ci.n);
		for (size_t i = 0; i < ng; ++i) if (need[i]) {
			auto &g = ci.g[i]; std::fill(dirty.begin(), dirty.end(), 0); dirty[g.o] = 1; f[g.o] = ~w[g.o];
			for (size_t k = i + 1; k < ng; ++k) { auto &h = ci.g[k]; bool da = dirty[h.a], db = h.t != 2 && dirty[h.b]; if (!da && !db) continue; V p = da ? f[h.a] : w[h.a], q = h.t == 2 ? p : db ? f[h.b] : w[h.b]; f[h.o] = h.t == 0 ? p & q : h.t == 1 ? p ^ q : ~p; dirty[h.o] = 1; }
			V d = zero; for (auto o : ci.out) if (dirty[o]) d |= f[o] ^ w[o];
			for (int cb = 0; cb < 4; ++cb) if (need[i] >> cb & 1) {
				V m = d; m &= (cb & 1) ? w[g.a] : ~w[g.a]; if (g.t != 2) m &= (cb & 2) ? w[g.b] : ~w[g.b];
				int hit = -1; for (int u : used) if (m[u / 64] >> (u % 64) & 1) { hit = u; break; }
				if (hit < 0) for (int l = 0; l < 8 && hit < 0; ++l) if (m[l]) hit = l * 64 + __builtin_ctzll(m[l]);
				if (hit >= 0) { need[i] &= ~(1 << cb); if (used.insert(hit).second) sel.push_back({x[hit], y[hit]}); }
			}
			if (need[i]) ++left;
		}
		if (t % 200 == 0) fprintf(stderr, "%s batch %d gates left %zu selected %zu\n", op.c_str(), t, left, sel.size());
		(void)last;
	}
	size_t obj = 0; for (auto n : need) obj += __builtin_popcount(n);
	fprintf(stderr, "%s: %zu gates, %zu with unreached combinations (%zu objectives), %zu vectors\n", op.c_str(), ng, left, obj, sel.size());
	for (auto &p : sel) printf("%s %08x %08x\n", op.c_str(), p.first, un ? 0 : p.second);
}
