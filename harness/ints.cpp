// Secret integer operations: exhaustive for small widths (packed events), boundary and random values for wide ones.
#include "backends.h"
#include <openssl/bn.h>
using namespace emp;
using namespace bk;
typedef std::vector<uint8_t> Bytes;
static uint64_t seed; static int part, parts; static bool deep; static uint64_t turn = 0;
static bool mine() { return (int)(turn++ % parts) == part; }
static const char *CFG[] = {"ss", "sp", "ps", "pp", "mm"};
static bool unary(const std::string &op) { return op == "neg" || op == "abs" || op == "popc" || op == "clz"; }
static bool isCmp(const std::string &op) { return op == "geq" || op == "gt" || op == "lt" || op == "leq" || op == "eq" || op == "neq"; }
static Integer apply(const std::string &op, const Integer &x, const Integer &y) {
	if (op == "add") return x + y; if (op == "sub") return x - y; if (op == "mul") return x * y;
	if (op == "and") return x & y; if (op == "or") return x | y; if (op == "xor") return x ^ y;
	if (op == "xore") { Integer t = x; Integer u = (t ^= y); return t; }
	if (op == "neg") return -x; if (op == "abs") return x.abs(); if (op == "div") return x / y; if (op == "mod") return x % y;
	if (op == "popc") return x.hamming_weight(); if (op == "clz") return x.leading_zeros();
	Bit b = op == "geq" ? x >= y : op == "gt" ? x > y : op == "lt" ? x < y : op == "leq" ? x <= y : op == "eq" ? x == y : x != y;
	return Integer(std::vector<Bit>(1, b));
}
// every pair of operands of width w
static void small(const std::string &op, int w, const char *cfg, int be, bool same) {
	if (!mine()) return;
	vh::Rng r(seed * 77 + turn); Session s(be, seed + turn); std::vector<int> xs, ys, rs; int lim = 1 << w; bool kept = true, wid = true; size_t rw = 0;
	for (int x = 0; x < lim; ++x) for (int y = 0; y < (unary(op) || same ? 1 : lim); ++y) {
		Integer a = make(val(x, w), w, cfg[0], r), b = make(val(y, w), w, cfg[1], r);
		Integer z = same ? apply(op, a, a) : apply(op, a, b); uint64_t o = num(open(z));
		if (rw == 0) rw = z.size(); if (z.size() != rw) wid = false;
		if (num(open(a)) != (uint64_t)x || num(open(b)) != (uint64_t)y || (int)a.size() != w || (int)b.size() != w) kept = false;
		xs.push_back(x); ys.push_back(same ? x : y); rs.push_back(o > 1000000 ? -1 : (int)o);
		if (xs.size() == 256 || (x == lim - 1 && (unary(op) || same || y == lim - 1))) {
			vh::J j("small"); j.s("op", op).i("w", w).s("cfg", cfg).i("be", be).b("same", same).b("kept", kept && wid && !s.bad()).i("rw", (long long)rw).ints("xs", xs).ints("ys", ys).ints("rs", rs); j.end();
			xs.clear(); ys.clear(); rs.clear();
		}
	}
}
static void wide(const std::string &op, int w, int reps) {
	if (!mine()) return;
	vh::Rng r(seed * 131 + turn); int be = (int)r.below(8); be = be == 1 ? 1 : be == 2 ? 2 : 0; Session s(be, seed + turn);
	for (int k = 0; k < reps; ++k) {
		Bytes x = boundary(r, w, unary(op) ? k : -1), y = boundary(r, w); if (r.below(3) == 0) y = related(r, x, w); const char *cfg = CFG[r.below(3) ? 0 : r.below(5)]; bool same = r.below(8) == 0;
		if (op == "div" || op == "mod") { if (r.below(3) == 0) { for (int i = 1 + (int)r.below(w); i < w; ++i) y[i / 8] &= ~(1 << (i % 8)); } }
		Integer a = make(x, w, cfg[0], r), b = make(y, w, cfg[1], r); Integer z = same ? apply(op, a, a) : apply(op, a, b);
		bool kept = open(a) == x && open(b) == y && !s.bad(); Bytes o = open(z); if (same) y = x;
		vh::J j("wide"); j.s("op", op).i("w", w).s("cfg", cfg).i("be", be).b("same", same).b("kept", kept).i("rw", (long long)z.size()).bytes("x", x.data(), x.size()).bytes("y", y.data(), y.size()).bytes("r", o.data(), o.size()); j.end();
	}
}
// search: 128 operand pairs at a time at every width; pairs whose result the host computes differently are recorded for the judge
static bool bitOf(const Bytes &b, int i) { return (b[i / 8] >> (i % 8)) & 1; }
static Bytes host(const std::string &op, const Bytes &x, const Bytes &y, int w) {
	static BN_CTX *ctx = BN_CTX_new(); static BIGNUM *a = BN_new(), *b = BN_new(), *z = BN_new(), *t = BN_new();
	size_t nb = (w + 7) / 8; Bytes o(nb, 0); bool sx = bitOf(x, w - 1), sy = bitOf(y, w - 1);
	if (op == "and" || op == "or" || op[0] == 'x') { for (size_t i = 0; i < nb; ++i) o[i] = op == "and" ? x[i] & y[i] : op == "or" ? x[i] | y[i] : x[i] ^ y[i]; return o; }
	if (op == "popc" || op == "clz") { uint64_t n = 0; if (op == "popc") for (int i = 0; i < w; ++i) n += bitOf(x, i); else for (int i = w - 1; i >= 0 && !bitOf(x, i); --i) ++n; return val(n, 64); }
	BN_lebin2bn(x.data(), nb, a); BN_lebin2bn(y.data(), nb, b); BN_zero(t); BN_set_bit(t, w); if (sx) BN_sub(a, a, t); if (sy) BN_sub(b, b, t);
	if (isCmp(op)) { int c = BN_cmp(a, b); return Bytes(1, op == "geq" ? c >= 0 : op == "gt" ? c > 0 : op == "lt" ? c < 0 : op == "leq" ? c <= 0 : op == "eq" ? c == 0 : c != 0); }
	if (op == "add") BN_add(z, a, b); else if (op == "sub") BN_sub(z, a, b); else if (op == "mul") BN_mul(z, a, b, ctx); else if (op == "neg") { BN_zero(z); BN_sub(z, z, a); } else if (op == "abs") { BN_copy(z, a); BN_set_negative(z, 0); }
	else if (BN_is_zero(b)) { if (op == "mod") return x; BN_set_word(z, 1); BN_set_negative(z, !sx); }
	else if (op == "div") BN_div(z, nullptr, a, b, ctx); else BN_div(nullptr, z, a, b, ctx);
	BN_nnmod(z, z, t, ctx); BN_bn2lebinpad(z, o.data(), (int)nb); return o;
}
static void one(const std::string &op, int w, const Bytes &x, const Bytes &y, vh::Rng &r) {
	Session s(0, seed); Integer a = make(x, w, 's', r), b = make(y, w, 's', r), z = apply(op, a, b); Bytes o = open(z);
	vh::J j("wide"); j.s("op", op).i("w", w).s("cfg", "ss").i("be", 0).b("same", false).b("kept", open(a) == x && open(b) == y).i("rw", (long long)z.size()).bytes("x", x.data(), x.size()).bytes("y", y.data(), y.size()).bytes("r", o.data(), o.size()); j.end();
}
static Integer lanes(const std::vector<Bytes> &v, int w) { std::vector<Bit> o; for (int i = 0; i < w; ++i) { uint64_t q[2] = {0, 0}; for (int k = 0; k < 128; ++k) q[k >> 6] |= (uint64_t)bitOf(v[k], i) << (k & 63); Bit b; b.bit = makeBlock(q[1], q[0]); o.push_back(b); } return Integer(o); }
static void sweep(const std::string &op, int w, int rounds) {
	if (!mine()) return;
	vh::Rng r(seed * 163 + turn); std::vector<std::pair<Bytes, Bytes>> odd; std::vector<Bytes> x(128), y(128), z(128);
	{ Lanes L; for (int t = 0; t < rounds; ++t) {
		for (int k = 0; k < 128; ++k) { x[k] = boundary(r, w); y[k] = boundary(r, w); if (r.below(3) == 0) y[k] = related(r, x[k], w); if (op == "div" || op == "mod") if (r.coin()) for (int i = 1 + (int)r.below(w); i < w; ++i) y[k][i / 8] &= ~(1 << (i % 8)); }
		Integer o = apply(op, lanes(x, w), lanes(y, w));
		for (int k = 0; k < 128; ++k) { z[k].assign(std::max<size_t>((w + 7) / 8, 8), 0); for (size_t i = 0; i < o.size() && i < 8 * z[k].size(); ++i) { uint64_t q[2]; memcpy(q, &o.bits[i].bit, 16); if ((q[k >> 6] >> (k & 63)) & 1) z[k][i / 8] |= 1 << (i % 8); } }
		for (int k = 0; k < 128 && odd.size() < 4; ++k) { Bytes e = host(op, x[k], y[k], w); e.resize(z[k].size(), 0); if (e != z[k]) odd.push_back({x[k], y[k]}); }
	} }
	if (odd.empty() && w % 16 == 5) odd.push_back({x[w % 128], y[w % 128]});
	for (auto &p : odd) one(op, w, p.first, p.second, r);
}
// shifts and resizing at every width: labels must move unchanged, so a wrong place shows at once
static void oneShift(int w, size_t k, int d, vh::Rng &r) {
	Session s(0, seed); for (int t = 0; t < 3; ++t) { Bytes x = boundary(r, w, 11); Integer a = make(x, w, 's', r), z = d ? a >> k : a << k; Bytes o = open(z);
	vh::J j("shift"); j.s("op", d ? "shr" : "shl").i("w", w).i("k", k > 100000 ? 100000 : (long long)k).b("kept", open(a) == x).i("rw", (long long)z.size()).bytes("x", x.data(), x.size()).bytes("r", o.data(), o.size()); j.end(); }
}
static void oneShiftBy(int w, int m, const Bytes &x, const Bytes &y, int d, vh::Rng &r) {
	Session s(0, seed); Integer a = make(x, w, 's', r), n = make(y, m, 's', r), z = d ? a >> n : a << n; Bytes o = open(z);
	vh::J j("shiftby"); j.s("op", d ? "shr" : "shl").i("w", w).i("m", m).bytes("y", y.data(), y.size()).b("kept", open(a) == x && open(n) == y).i("rw", (long long)z.size()).bytes("x", x.data(), x.size()).bytes("r", o.data(), o.size()); j.end();
}
static bool eqb(const Bit &a, const block &b) { return !memcmp(&a.bit, &b, 16); }
static void sweepShift(int w) {
	if (!mine()) return;
	vh::Rng r(seed * 167 + turn); std::vector<Bytes> x(128), y(128); for (auto &e : x) e = boundary(r, w, 11); std::vector<std::pair<size_t, int>> odd; struct By { int m, d; Bytes x, y; }; std::vector<By> oddby;
	{ Lanes L; Integer a = lanes(x, w); for (int d = 0; d < 2; ++d) for (size_t k = 0; k <= (size_t)w + 1; ++k) {
		Integer z = d ? a >> k : a << k; bool ok = z.size() == (size_t)w; for (size_t i = 0; ok && i < (size_t)w; ++i) ok = d ? eqb(z.bits[i], i + k < (size_t)w ? a.bits[i + k].bit : zero_block) : eqb(z.bits[i], i >= k ? a.bits[i - k].bit : zero_block);
		if (!ok && odd.size() < 4) odd.push_back({k, d}); }
	int lg = 0; while ((1 << lg) < w) ++lg;
	for (int m : {1, 2, 5, 8, 11, lg, lg + 1, lg + 2, 32, w}) if (m > 0) for (int d = 0; d < 2; ++d) {
		for (auto &e : y) e = r.coin() ? boundary(r, m) : val(r.below(2 * w), m); Integer n = lanes(y, m), z = d ? a >> n : a << n; int cnt = std::min(lg, m - 1);
		for (int k = 0; k < 128 && oddby.size() < 4; ++k) { size_t am = 0; for (int i = 0; i < cnt; ++i) am |= (size_t)bitOf(y[k], i) << i; bool ok = z.size() == (size_t)w;
			for (int i = 0; ok && i < w; ++i) { uint64_t q[2]; memcpy(q, &z.bits[i].bit, 16); bool got = (q[k >> 6] >> (k & 63)) & 1, e = d ? (i + am < (size_t)w && bitOf(x[k], i + (int)am)) : ((size_t)i >= am && bitOf(x[k], i - (int)am)); ok = got == e; }
			if (!ok) oddby.push_back({m, d, x[k], y[k]}); } } }
	for (auto &p : odd) oneShift(w, p.first, p.second, r);
	for (auto &p : oddby) oneShiftBy(w, p.m, p.x, p.y, p.d, r);
}
static void sweepResize(int w, int lim) {
	if (!mine()) return;
	vh::Rng r(seed * 173 + turn); std::vector<Bytes> x(128); for (auto &e : x) e = boundary(r, w, 11); std::vector<std::pair<int, int>> odd;
	{ Lanes L; Integer a = lanes(x, w); for (int nw = 1; nw <= lim; ++nw) for (int sg = 0; sg < 2; ++sg) { Integer b = a; b.resize(nw, sg); bool ok = b.size() == (size_t)nw; for (int i = 0; ok && i < nw; ++i) ok = eqb(b.bits[i], i < w ? a.bits[i].bit : sg ? a.bits[w - 1].bit : zero_block); if (!ok && odd.size() < 4) odd.push_back({nw, sg}); } }
	for (auto &p : odd) { Session s(0, seed); Bytes v = boundary(r, w, 4 * (int)r.below(2)); Integer a = make(v, w, 's', r), b = a; Integer &ret = b.resize(p.first, p.second); Bytes o = open(b); vh::J j("resize"); j.i("w", w).i("nw", p.first).b("sg", p.second).b("ref", &ret == &b).b("kept", open(a) == v).i("rw", (long long)b.size()).bytes("x", v.data(), v.size()).bytes("r", o.data(), o.size()); j.end(); }
}
static void selects(int w, int reps) {
	if (!mine()) return;
	vh::Rng r(seed * 137 + turn); int be = (int)r.below(4) == 0 ? 1 : 0; Session s(be, seed + turn);
	for (int k = 0; k < reps; ++k) for (int kind = 0; kind < 3; ++kind) for (int sb = 0; sb < 2; ++sb) {
		Bytes x = boundary(r, w), y = boundary(r, w); char c1 = CFG[r.below(5)][0], c2 = CFG[r.below(5)][1]; bool same = r.below(8) == 0;
		Integer a = make(x, w, c1, r), b = make(y, w, c2, r); Bit sel((bool)sb, r.below(4) ? ALICE : PUBLIC); Integer z, z2; bool kept = true;
		if (same) { b = a; y = x; }
		if (kind == 0) z = a.select(sel, same ? a : b); else if (kind == 1) z = r.coin() ? If(sel, a, same ? a : b) : b.If(sel, a);
		else if (same) { Integer p = a; emp::swap(sel, p, p); z = p; z2 = p; } else { Integer p = a, q = b; emp::swap(sel, p, q); z = p; z2 = q; }
		kept = open(a) == x && open(b) == y && openBit(sel) == (bool)sb && !s.bad(); Bytes o = open(z), o2 = kind == 2 ? open(z2) : o;
		vh::J j("sel"); j.s("op", kind == 0 ? "select" : kind == 1 ? "if" : "swap").i("w", w).i("s", sb).b("kept", kept).i("rw", (long long)z.size()).bytes("x", x.data(), x.size()).bytes("y", y.data(), y.size()).bytes("r", o.data(), o.size()).bytes("r2", o2.data(), o2.size()); j.end();
	}
}
static void shifts(int w, bool all) {
	if (!mine()) return;
	vh::Rng r(seed * 139 + turn); int be = (int)r.below(5) == 0 ? 1 : 0; Session s(be, seed + turn);
	std::vector<size_t> ks; for (size_t k = 0; k <= (size_t)w + 3; ++k) if (all || k < 2 || k + 2 > (size_t)w || r.below(w) < 6) ks.push_back(k);
	for (size_t k : {(size_t)2 * w, (size_t)64, (size_t)1000, (size_t)1 << 31, ((size_t)1 << 32) + 1, ((size_t)1 << 32), ~(size_t)0}) ks.push_back(k);
	for (size_t k : ks) for (int d = 0; d < 2; ++d) {
		Bytes x = boundary(r, w); if (all) x = val(r.next(), w); Integer a = make(x, w, "spm"[r.below(3)], r); Integer z = d ? a >> k : a << k; Bytes o = open(z);
		vh::J j("shift"); j.s("op", d ? "shr" : "shl").i("w", w).i("k", k > 100000 ? 100000 : (long long)k).b("kept", open(a) == x && !s.bad()).i("rw", (long long)z.size()).bytes("x", x.data(), x.size()).bytes("r", o.data(), o.size()); j.end();
	}
	// by a secret amount, of any width
	for (int m : {1, 2, 3, 4, 7, 8, 16, w}) for (int t = 0; t < (all ? 4 : 2); ++t) for (int d = 0; d < 2; ++d) {
		Bytes x = boundary(r, w), y = boundary(r, m); if (r.coin()) { y = val(r.below(w + 2), m); }
		Integer a = make(x, w, "spm"[r.below(3)], r), n = make(y, m, "sspm"[r.below(4)], r); Integer z = d ? a >> n : a << n; Bytes o = open(z);
		vh::J j("shiftby"); j.s("op", d ? "shr" : "shl").i("w", w).i("m", m).bytes("y", y.data(), y.size()).b("kept", open(a) == x && open(n) == y && !s.bad()).i("rw", (long long)z.size()).bytes("x", x.data(), x.size()).bytes("r", o.data(), o.size()); j.end();
	}
}
static void modexps(int w, int pw, int reps) {
	if (!mine()) return;
	vh::Rng r(seed * 149 + turn); Session s(w <= 16 && r.below(4) == 0 ? 1 : 0, seed + turn);
	// (q-1)^2 must stay positive: q - 1 < 2^((w-1)/2)
	uint64_t top = (w - 1) / 2 >= 63 ? ~0ull >> 1 : (1ull << ((w - 1) / 2));
	for (int k = 0; k < reps; ++k) {
		uint64_t q = 2 + r.below(top - 1), b = r.below(q); if (k % 5 == 0) q = top; if (k % 5 == 1) q = 2; if (k % 7 == 2) b = q - 1; if (k % 7 == 3) b = 0; if (k % 3 == 2 && top >= 7) { q = 7; b = 3 + 2 * r.below(2); } if (b >= q) b %= q;      // 3 and 5 have order 6: every exponent bit counts
		Bytes e = boundary(r, pw); char c = "sspm"[r.below(4)], c2 = "sspm"[r.below(4)];
		Integer a = make(val(b, w), w, c, r), p = make(e, pw, 's', r), m = make(val(q, w), w, c2, r); Integer z = a.modExp(p, m); Bytes o = open(z), vb = val(b, w), vq = val(q, w);
		bool kept = open(a) == vb && open(p) == e && open(m) == vq && !s.bad();
		vh::J j("modexp"); j.i("w", w).i("pw", pw).b("kept", kept).i("rw", (long long)z.size()).bytes("b", vb.data(), vb.size()).bytes("p", e.data(), e.size()).bytes("q", vq.data(), vq.size()).bytes("r", o.data(), o.size()); j.end();
	}
}
static void modexpSmall(int w, int pw) { // every base, exponent and modulus in range
	if (!mine()) return;
	vh::Rng r(seed * 151 + turn); Session s(0, seed); std::vector<int> q4; bool kept = true;
	for (int q = 2; (q - 1) * (q - 1) < (1 << (w - 1)); ++q) for (int b = 0; b < q; ++b) for (int p = 0; p < (1 << pw); ++p) {
		Integer a = make(val(b, w), w, 's', r), e = make(val(p, pw), pw, 's', r), m = make(val(q, w), w, 's', r); Integer z = a.modExp(e, m);
		q4.push_back(b); q4.push_back(p); q4.push_back(q); q4.push_back((int)num(open(z)));
		if (q4.size() >= 1024) { vh::J j("modexps"); j.i("w", w).b("kept", kept).ints("q", q4); j.end(); q4.clear(); }
	}
	if (!q4.empty()) { vh::J j("modexps"); j.i("w", w).b("kept", kept).ints("q", q4); j.end(); }
}
// ---- construction, reveal, resize, indexing
static void emitForm(const char *form, int w, const Bytes &x, const Bytes &o) { vh::J j("form"); j.s("form", form).i("w", w).bytes("x", x.data(), x.size()).bytes("r", o.data(), o.size()); j.end(); }
template <class T> static void fromMem(int w, const char *nm, vh::Rng &r) {
	int party = (int)r.below(3); Bytes x = boundary(r, w); std::vector<T> m((w + 8 * sizeof(T) - 1) / (8 * sizeof(T)) + 1); r.fill(m.data(), m.size() * sizeof(T));
	memcpy(m.data(), x.data(), x.size()); // bits above w in the last byte are arbitrary
	if (w % 8) ((uint8_t *)m.data())[w / 8] |= (uint8_t)(r.next() << (w % 8));
	Integer a(w, m.data(), party); Bytes o = open(a); vh::J j("mem"); j.s("ty", nm).i("w", w).i("rw", (long long)a.size()).bytes("x", x.data(), x.size()).bytes("r", o.data(), o.size()); j.end();
	T one; r.fill(&one, sizeof one); T orig = one; Integer b(&one, party); Bytes o2 = open(b), x2(sizeof(T)); memcpy(x2.data(), &orig, sizeof(T));
	vh::J j2("mem"); j2.s("ty", nm).i("w", 8 * (int)sizeof(T)).i("rw", (long long)b.size()).bytes("x", x2.data(), x2.size()).bytes("r", o2.data(), o2.size()); j2.end();
	// and back into memory: exactly the bytes holding the w bits
	Integer c = make(x, w, "sp"[r.below(2)], r); size_t nb = (w + 7) / 8; vh::GBuf g((nb + sizeof(T) - 1) / sizeof(T) * sizeof(T), 0, false, 0x5A); c.reveal((T *)g.p, (int)r.below(3));
	Bytes o3(g.p, g.p + nb); if (w % 8) o3[nb - 1] &= (1 << (w % 8)) - 1; bool clean = g.intact(); for (size_t i = nb; i < g.n; ++i) if (g.p[i] != 0x5A) clean = false;
	vh::J j3("mem"); j3.s("ty", nm).i("w", w).i("rw", clean ? w : -1).bytes("x", x.data(), x.size()).bytes("r", o3.data(), o3.size()); j3.end();
}
static void conv(int w, bool all) {
	if (!mine()) return;
	vh::Rng r(seed * 157 + turn); Session s((int)r.below(4) == 0 ? 1 : 0, seed + turn);
	std::vector<int64_t> vs = {0, 1, -1, INT64_MAX, INT64_MIN, (int64_t)r.next(), (int64_t)r.next(), (int64_t)1 << (w < 63 ? w : 62), -((int64_t)1 << (w < 63 ? w : 62)), INT32_MIN, INT32_MAX, 1ll << 31, 1ll << 32};
	for (int64_t v : vs) { Integer a(w, v, (int)r.below(3)); Bytes o = open(a); vh::J j("int"); j.i("w", w).i("rw", (long long)a.size()).u64("v", (uint64_t)v).bytes("r", o.data(), o.size()); j.end(); }
	fromMem<uint8_t>(w, "u8", r); fromMem<char>(w, "char", r); fromMem<uint32_t>(w, "u32", r); fromMem<int64_t>(w, "i64", r); fromMem<__uint128_t>(w, "u128", r);
	for (int t = 0; t < (all ? 6 : 3); ++t) {
		Bytes x = boundary(r, w); Integer a = make(x, w, "spm"[r.below(3)], r); static const int PA[3] = {PUBLIC, ALICE, BOB};
		for (int pi = 0; pi < (t ? 1 : 3); ++pi) { int party = PA[t ? r.below(3) : pi];
		{ uint32_t v = a.reveal<uint32_t>(party); Bytes o(4); memcpy(o.data(), &v, 4); emitForm("u32", w, x, o); }
		{ int32_t v = a.reveal<int32_t>(party); Bytes o(4); memcpy(o.data(), &v, 4); emitForm("i32", w, x, o); }
		{ uint64_t v = a.reveal<uint64_t>(party); Bytes o(8); memcpy(o.data(), &v, 8); emitForm("u64", w, x, o); }
		{ int64_t v = a.reveal<int64_t>(party); Bytes o(8); memcpy(o.data(), &v, 8); emitForm("i64", w, x, o); }
		{ std::string v = a.reveal<std::string>(party); Bytes o; for (char ch : v) o.push_back(ch == '1' ? 1 : ch == '0' ? 0 : 9); emitForm("string", w, x, o); }
		{ vh::GBuf g(w, 0, false, 2); a.revealBools((bool *)g.p, party); Bytes o(g.p, g.p + w); if (!g.intact()) o.clear(); emitForm("bools", w, x, o); }
		}
		// resize
		for (int nw : {w, w + 1, w - 1, 1, 2 * w, w + 37, (w + 1) / 2}) if (nw > 0) for (int sg = 0; sg < 2; ++sg) {
			Integer b = a; Integer &ret = b.resize(nw, sg); Bytes o = open(b); vh::J j("resize"); j.i("w", w).i("nw", nw).b("sg", sg).b("ref", &ret == &b).b("kept", open(a) == x && !s.bad()).i("rw", (long long)b.size()).bytes("x", x.data(), x.size()).bytes("r", o.data(), o.size()); j.end();
		}
		for (size_t i : {(size_t)0, (size_t)(w - 1), (size_t)w, (size_t)w + 1, (size_t)1000000, (size_t)r.below(w), (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)1 << 63, ~(size_t)0}) {
			const Integer &ca = a; Integer ma = a; Bit nb(true, ALICE); vh::J j("index"); j.i("w", w).i("i", i > 100000 ? 100000 : (long long)i).bytes("x", x.data(), x.size()).i("c", openBit(ca[i])).i("m", openBit(ma[i]));
			ma[i] = !ma[i]; Bytes o = open(ma); j.bytes("r", o.data(), o.size()); j.end();
		}
	}
}
int main(int c, char **v) {
	// ints ring|div|cmp|conv <seed> <part> <parts> [deep]
	std::string mode = v[1]; seed = strtoull(v[2], 0, 10); part = atoi(v[3]); parts = atoi(v[4]); deep = c > 5;
	std::vector<int> W = {6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128}; if (deep) for (int x : {10, 12, 20, 24, 48, 66, 96, 129, 192, 256, 257}) W.push_back(x);
	std::vector<std::string> ops;
	if (mode == "ring") ops = {"add", "sub", "mul", "and", "or", "xor", "xore", "neg", "abs"};
	if (mode == "div") ops = {"div", "mod"};
	if (mode == "cmp") ops = {"geq", "gt", "lt", "leq", "eq", "neq"};
	if (mode == "conv") ops = {"popc", "clz"};
	int maxw = deep ? 8 : 6;
	for (auto &op : ops) for (int w = 1; w <= maxw; ++w) {
		for (const char *cfg : CFG) { if (w > (deep ? 6 : 4) && strcmp(cfg, "ss")) continue; small(op, w, cfg, 0, false); }
		if (!unary(op)) small(op, w, "ss", 0, true);
		if (w <= (deep ? 4 : 3)) { small(op, w, "ss", 1, false); small(op, w, "ss", 2, false); small(op, w, "sp", 1, false); }
	}
	for (auto &op : ops) for (int w : W) { int reps = op == "div" || op == "mod" ? 12 : 20; if (deep) reps *= 12; if (w > 64 && !deep) reps = (reps + 1) / 2; wide(op, w, reps); }
	for (auto &op : ops) for (int w : {255, 256, 257, 300, 511, 513, 1024}) { int cost = op == "mul" || op == "div" || op == "mod"; if (cost && w > (deep ? 600 : 300)) continue; wide(op, w, deep ? 28 : unary(op) ? 14 : cost ? 3 : 8); }
	if (mode == "conv") { for (int w : {255, 256, 257, 511, 512, 1000, 1025}) conv(w, false); }
	if (mode == "cmp") for (int w : {255, 256, 257, 512, 700}) { shifts(w, false); selects(w, 2); }
	if (mode == "conv") { int n = deep ? 300 : 140; for (int w = 1; w <= n; ++w) if (deep || w <= 20 || w % 8 <= 1 || w % 8 == 7) { conv(w, deep); wide("popc", w, deep ? 12 : 4); wide("clz", w, deep ? 12 : 4); } }
	if (mode == "cmp") {
		for (int w = 1; w <= (deep ? 20 : 9); ++w) { shifts(w, true); selects(w, deep ? 40 : 8); if (deep) for (int k = 0; k < 6; ++k) shifts(w, true); }
		for (int w : W) { shifts(w, deep); selects(w, deep ? 20 : 3); }
	}
	if (mode == "div") {
		modexpSmall(4, 3); modexpSmall(5, 3); modexpSmall(6, 4); if (deep) { modexpSmall(8, 5); modexpSmall(9, 4); }
		for (int w : {7, 8, 12, 16, 24, 32, 33, 48, 64}) for (int pw : {1, 2, 5, 8, 9, 16, 20}) { if (w > 32 && pw > 8 && !deep) continue; modexps(w, pw, deep ? 12 : 3); }
	}
	// every width
	int top = deep ? 400 : 200;
	for (auto &op : ops) { bool cost = op == "mul" || op == "div" || op == "mod"; for (int w = 1; w <= top; ++w) sweep(op, w, deep ? 8 : cost && w > 100 ? 1 : 2); for (int w : {255, 256, 257, 300, 384, 511, 512, 513, 520, 640, 1000, 1023, 1024, 1025, 2048, 4096, 5000}) if (w > top && (!cost || w <= (deep ? 1025 : 520))) sweep(op, w, 1); }
	if (mode == "cmp") { for (int w = 1; w <= top + 60; ++w) sweepShift(w); for (int w : {511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4097}) sweepShift(w); }
	if (mode == "conv") for (int w = 1; w <= top; ++w) sweepResize(w, top + 10);
	return 0;
}
