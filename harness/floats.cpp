// Secret floats: arithmetic, comparison, encoding-level operations.
#include "backends.h"
using namespace emp;
using namespace bk;
static uint64_t seed; static int part, parts; static bool deep; static uint64_t turn = 0;
static uint32_t fu(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static Float mk(uint32_t u, char how) { float f; memcpy(&f, &u, 4); if (how == 's') return Float(f, ALICE); if (how == 'b') return Float(f, BOB); if (how == 'p') return Float(f, PUBLIC); Float x(f, ALICE), y(f, PUBLIC); for (int i = 0; i < 32; i += 3) x.value[i] = y.value[i]; return x; }
static uint32_t op32(const Float &x) { uint32_t u = 0; for (int i = 0; i < 32; ++i) u |= (uint32_t)openBit(x.value[i]) << i; return u; }
static uint32_t gen(vh::Rng &r) {
	int k = (int)r.below(12); uint32_t u = (uint32_t)r.next(), fr = u & 0x7fffff, s = u & 0x80000000; int e = (int)r.below(255);
	if (k == 0) return s | (r.coin() ? 0x7f800000 : 0); if (k == 1) fr = 0; if (k == 2) fr = 0x7fffff; if (k == 3) fr = 1u << r.below(23); if (k == 4) fr = 0x7fffff ^ ((1u << r.below(23)) - 1); if (k == 5) fr = (1u << r.below(23)) - 1;
	if (k == 6) fr &= (uint32_t)r.next(); if (k == 7) e = (int)r.below(3); if (k == 8) e = 252 + (int)r.below(3); if (e == 0 && k != 7) e = 1; return s | ((uint32_t)e << 23) | fr;
}
static void pair(vh::Rng &r, const std::string &op, uint32_t &x, uint32_t &y) {
	x = gen(r); y = gen(r); int m = (int)r.below(5), e = (x >> 23) & 255, q = -1;
	if (m == 1) q = e + (int)r.below(56) - 28;
	if (m == 2) q = op == "mul" ? (r.coin() ? 127 : 381) - e + (int)r.below(6) - 3 : op == "div" ? e + (r.coin() ? 126 : -126) + (int)r.below(6) - 3 : e + (int)r.below(3) - 1;
	if (q > 0 && q < 255) y = (y & 0x807fffff) | ((uint32_t)q << 23);
	if (m == 3) y = x ^ (r.coin() ? 0x80000000 : 0) ^ (r.below(4) ? 1u << r.below(23) : 0) ^ (r.coin() ? 1u << r.below(23) : 0);
}
static void h(std::vector<int> &q, uint32_t u) { q.push_back((int)(u >> 16)); q.push_back((int)(u & 0xffff)); }
static Float arith(const std::string &op, const Float &a, const Float &b) { return op == "add" ? a + b : op == "sub" ? a - b : op == "mul" ? a * b : op == "div" ? a / b : op == "sqr" ? a.sqr() : op == "sin" ? a.sin() : op == "cos" ? a.cos() : op == "exp2" ? a.exp2() : op == "exp" ? a.exp() : op == "ln" ? a.ln() : op == "log2" ? a.log2() : a.sqrt(); }
static bool fun(const std::string &op) { return op == "sin" || op == "cos" || op == "exp2" || op == "exp" || op == "ln" || op == "log2"; }
// arguments where a function is interesting: the whole exponent range, the working range, neighbours of integers, halves and range ends
static uint32_t arg(vh::Rng &r, const std::string &op) {
	uint32_t u = gen(r); int m = (int)r.below(4); if (m == 0) return op[0] == 'l' ? u & 0x7fffffff : u;
	uint32_t s = op[0] == 'l' ? 0 : u & 0x80000000; if (m == 1) return s | (u & 0x7fffff) | (uint32_t)(op[0] == 'l' ? 120 + r.below(16) : 102 + r.below(op[0] == 'e' ? 34 : 48)) << 23;
	float f = op[0] == 'e' ? (float)r.below(130) : op[0] == 'l' ? (float)(r.below(4) ? 1 : 1 << r.below(20)) : (float)r.below(1 << r.below(22)) / 2; if (op == "exp" && r.coin()) f = (float)(0.693147180559945 * (double)r.below(130));
	u = fu(f); if (m == 3) u += (uint32_t)r.below(9) - 4; else if (r.coin()) u ^= 1u << r.below(16); return s | (u & 0x7fffffff);
}
static bool sub(uint32_t u) { return !((u >> 23) & 255) && (u & 0x7fffff); }
static bool nan(uint32_t u) { return ((u >> 23) & 255) == 255 && (u & 0x7fffff); }
static void batch(const std::string &op, const std::vector<std::pair<uint32_t, uint32_t>> &v, char ca, char cb, int be, bool same) {
	Session s(be, seed + turn); bool un = op == "sqr" || op == "sqrt" || fun(op), cmp = op == "eq" || op == "le" || op == "lt"; std::vector<int> q; bool kept = true;
	for (auto &p : v) {
		uint32_t x = p.first, y = same ? p.first : p.second; if (cmp && (sub(x) || sub(y) || nan(x) || nan(y))) continue; Float a = mk(x, ca), b = mk(y, cb);
		h(q, x); if (!un) h(q, y);
		if (cmp) { Bit z = op == "eq" ? a.equal(same ? a : b) : op == "le" ? a.less_equal(same ? a : b) : a.less_than(same ? a : b); q.push_back(openBit(z)); }
		else { Float z = arith(op, a, same ? a : b); h(q, op32(z)); }
		if (op32(a) != x || op32(b) != y) kept = false;
	}
	if (q.empty()) return;
	vh::J j(cmp ? "cmp" : un ? "un" : "bin"); j.s("op", op).s("cfg", std::string() + ca + cb).i("be", be).b("same", same).b("kept", kept && !s.bad()).ints("q", q); j.end();
}
// search: evaluate many arguments 128 at a time, record those that look worst to the host's own arithmetic (the judge
// sees only those; being picked says nothing about being wrong)
static float flt(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static double score(const std::string &op, uint32_t x, uint32_t y, uint32_t r) {
	const double BAD = 1e9; float a = flt(x), b = flt(y), z = flt(r);
	if (fun(op)) {
		if (nan(x)) return -1; long double w; bool inf = ((x >> 23) & 255) == 255;
		if (op == "sin" || op == "cos") { if (inf) return nan(r) ? 0 : BAD; if (!std::isfinite(z)) return BAD; long double t = fmodl((long double)a, 2); w = op == "sin" ? sinl(M_PIl * t) : cosl(M_PIl * t); return (double)(fabsl(z - w) * 2097152); }
		if (op[0] == 'e') { w = op == "exp" ? expl(a) : exp2l(a); if (w >= ldexpl(1, 128)) return std::isinf(z) ? 0 : BAD; if (w < ldexpl(1, -126)) return z == 0 ? 0 : 1; if (!std::isfinite(z)) return BAD; return (double)(fabsl(z - w) / w * 4194304); }
		if (x >> 31 || inf || sub(x) || x == 0) return -1; if (!std::isfinite(z)) return BAD; w = op == "ln" ? logl(a) : log2l(a); return (double)(fabsl(z - w) / std::max(1.0L, fabsl(w)) * 8388608);
	}
	volatile float w = op == "add" ? a + b : op == "sub" ? a - b : op == "mul" ? a * b : op == "div" ? a / b : op == "sqr" ? a * a : sqrtf(a); uint32_t u = fu(w);
	if (u == r || (nan(u) && nan(r))) return 0; if (nan(x) || nan(y) || sub(x) || sub(y) || sub(u) || !(u << 1)) return 0.5; return BAD;
}
static bool wantCmp(const std::string &op, uint32_t x, uint32_t y) { float a = flt(x), b = flt(y); return op == "eq" ? a == b : op == "le" ? a <= b : a < b; }
static void search(const std::string &op, int rounds) {
	vh::Rng r(seed * 31 + part * 1009 + op[0] * 7 + op[1]); Best best(24), odd(6); bool cmp = op == "eq" || op == "le" || op == "lt";
	{ Lanes L; uint64_t xs[128], ys[128], zs[128]; std::vector<float> base;
	for (int t = 0; t < rounds; ++t) {
		for (int j = 0; j < 128; ++j) { uint32_t a, b; if (fun(op)) { a = arg(r, op); b = a; } else pair(r, op, a, b); xs[j] = a; ys[j] = b; zs[j] = 0; }
		Float a(0.f, PUBLIC), b(0.f, PUBLIC); for (int i = 0; i < 32; ++i) { a.value[i].bit = L.pick(xs, i); b.value[i].bit = L.pick(ys, i); }
		if (cmp) { Bit z = op == "eq" ? a.equal(b) : op == "le" ? a.less_equal(b) : a.less_than(b); L.add(zs, 0, z.bit);
			for (int j = 0; j < 128; ++j) if (zs[j] != (uint64_t)wantCmp(op, xs[j], ys[j])) best.offer(nan(xs[j]) || nan(ys[j]) || sub(xs[j]) || sub(ys[j]) ? -1 : 1, xs[j], ys[j]); }
		else { Float z = arith(op, a, b); for (int i = 0; i < 32; ++i) L.add(zs, i, z.value[i].bit);
			for (int j = 0; j < 128; ++j) { double s = score(op, xs[j], ys[j], zs[j]); if (s > 0.5 || (fun(op) && s > 0)) best.offer(s, xs[j], ys[j]); else if (s == 0.5) odd.offer(s, xs[j], ys[j]); } }
	} }
	std::vector<std::pair<uint32_t, uint32_t>> v; for (auto *b : {&best, &odd}) for (auto &e : b->v) v.push_back({(uint32_t)e.second.first, (uint32_t)e.second.second});
	for (size_t i = 0; i < v.size(); i += 15) batch(op, {v.begin() + i, v.begin() + std::min(v.size(), i + 15)}, 's', 'b', 0, false);
}
// encodings whose every bit matters: NaN payloads, infinities, zeros, subnormals, all-ones
static uint32_t odd(vh::Rng &r) { const uint32_t F[] = {0x7f800001, 0x7fffffff, 0x7fc00000, 0x7fc00001, 0x7f800000, 0, 1, 0x7fffff, 0x400000, 0x800000, 0x7fbfffff}; return F[r.below(11)] ^ (r.coin() ? 0x80000000u : 0) ^ (r.below(3) ? 0 : 1u << r.below(22)); }
static void raws() {
	const char *ops[] = {"neg", "abs", "id", "xor", "xore", "and", "sel", "if", "swap1", "swap2"};
	for (const char *o : ops) for (int be = 0; be < 3; ++be) for (int t = 0; t < (deep ? 10 : 3); ++t) {
		if ((int)(turn++ % parts) != part) continue;
		vh::Rng r(seed * 17 + turn); Session s(be, seed + turn); std::string op = o; std::vector<int> q; bool kept = true;
		for (int i = 0; i < 40; ++i) {
			uint32_t x = i % 3 ? gen(r) : (uint32_t)r.next(), y = i % 4 ? gen(r) : (uint32_t)r.next(); int sb = (int)r.below(2); bool same = i % 7 == 6; if (i % 5 == 2) x = odd(r); if (i % 5 == 3) y = odd(r); if (same) y = x; Float a = mk(x, "sbpm"[r.below(4)]), b = mk(y, "sbpm"[r.below(4)]); Bit sel((bool)sb, r.below(3) ? BOB : PUBLIC); Float z = a; const Float &o2 = same ? a : b;   // same: one object on both sides
			if (op == "neg") z = -a; if (op == "abs") z = a.abs(); if (op == "xor") z = a ^ o2; if (op == "xore") { z = a; z ^= same ? z : b; } if (op == "and") z = a & o2; if (op == "sel") z = a.If(sel, o2); if (op == "if") z = If(sel, a, o2);
			if (op == "swap1" || op == "swap2") { Float p = a, w = b; if (same) { emp::swap(sel, p, p); w = p; } else emp::swap(sel, p, w); z = op == "swap1" ? p : w; }
			q.push_back(sb); h(q, x); h(q, y); h(q, op32(z)); if (op32(a) != x || op32(b) != y || openBit(sel) != (bool)sb || z.size() != 32) kept = false;
		}
		vh::J j("raw"); j.s("op", op).i("be", be).b("kept", kept && !s.bad()).ints("q", q); j.end();
	}
	for (int t = 0; t < (deep ? 60 : 12); ++t) {
		if ((int)(turn++ % parts) != part) continue;
		vh::Rng r(seed * 19 + turn); Session s(t % 3, seed + turn); std::vector<int> q;
		for (int i = 0; i < 40; ++i) { uint32_t x = gen(r); if (i % 5 == 0) x = (x & 0x80000000) | (uint32_t)(r.next() & 0x7fffff) >> r.below(23); Float a = mk(x, "sbpm"[r.below(4)]); double d = a.reveal<double>(r.coin() ? PUBLIC : ALICE); uint64_t u; memcpy(&u, &d, 8); h(q, x); for (int k = 3; k >= 0; --k) q.push_back((int)((u >> (16 * k)) & 0xffff)); }
		vh::J j("dbl"); j.ints("q", q); j.end();
		for (int i = 0; i < 12; ++i) {
			uint32_t x = gen(r); if (i % 3) x = (x & 0x807fffff) | (uint32_t)(127 - 22 + r.below(50)) << 23; Float a = mk(x, "sbpm"[r.below(4)]); std::string t2 = a.reveal<std::string>(r.coin() ? PUBLIC : ALICE); std::vector<int> d, qq; h(qq, x);
			bool ng = !t2.empty() && t2[0] == '-'; std::string form = "num"; size_t dot = t2.find('.'); for (char ch : t2) if (ch >= '0' && ch <= '9') d.push_back(ch - '0');
			if (t2 == "inf" || t2 == "-inf") form = "inf"; else if (dot == std::string::npos || t2.size() - dot != 7 || d.size() + 1 + ng != t2.size()) form = "bad";
			vh::J k("txt"); k.ints("q", qq).i("neg", ng).s("form", form).ints("d", d); k.end();
		}
		for (int i : {0, 1, 15, 16, 22, 23, 30, 31, 32, 33, 100000}) { uint32_t x = gen(r); Float a = mk(x, 's'); const Float &ca = a; std::vector<int> qq; h(qq, x); vh::J k("index"); k.i("i", i).ints("q", qq).i("got", openBit(i % 2 ? ca[i] : a[i])); k.end(); }
	}
}
int main(int c, char **v) {
	// floats arith|misc|fun <vectors> <seed> <part> <parts> [deep]
	std::string mode = v[1]; seed = strtoull(v[3], 0, 10); part = atoi(v[4]); parts = atoi(v[5]); deep = c > 6;
	std::vector<std::string> ops = mode == "arith" ? std::vector<std::string>{"add", "sub", "mul", "div", "sqr", "sqrt"} : mode == "fun" ? std::vector<std::string>{"sin", "cos", "exp2", "exp", "ln", "log2"} : std::vector<std::string>{"eq", "le", "lt"};
	std::map<std::string, std::vector<std::pair<uint32_t, uint32_t>>> vec; std::ifstream in(v[2]); std::string o; uint32_t x, y; while (in >> o >> std::hex >> x >> y >> std::dec) vec[o].push_back({x, y});
	const char *CF[] = {"sb", "ps", "sp", "pp", "mm", "ms"};
	for (auto &op : ops) {
		auto &all = vec[op]; size_t per = 20;
		for (size_t i = 0; i < all.size(); i += per) { ++turn; if ((int)(turn % parts) != part) continue; batch(op, {all.begin() + i, all.begin() + std::min(all.size(), i + per)}, 's', 'b', 0, false); }
		for (int t = 0; t < (deep ? 400 : 20); ++t) for (int k = 0; k < 6; ++k) { ++turn; if ((int)(turn % parts) != part) continue; vh::Rng r(seed * 23 + turn); std::vector<std::pair<uint32_t, uint32_t>> p; for (int i = 0; i < 20; ++i) { uint32_t a, b; pair(r, op, a, b); if (fun(op)) a = arg(r, op); p.push_back({a, b}); } int be = k > 1 || t % 4 ? 0 : 1 + (int)r.below(2); if (be) p.resize(6); batch(op, p, CF[k][0], CF[k][1], be, t % 9 == 0); }
	}
	for (auto &op : ops) search(op, (deep ? 40 : 1) * (mode == "fun" ? 1500 : 4000));
	if (mode == "misc") raws();
	return 0;
}
