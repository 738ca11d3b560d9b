// The sorting network on secret keys, with and without payloads, on every backend.
#include "backends.h"
using namespace emp;
using namespace bk;
typedef std::vector<uint8_t> Bytes;
static uint64_t seed; static int part, parts; static bool deep; static uint64_t turn = 0;
static bool mine() { return (int)(turn++ % parts) == part; }
// direction: 0/1 public false/true, 2/3 secret false/true, 4 default argument
static Bit dirBit(int d) { return Bit(d % 2 == 1, d >= 2 ? ALICE : PUBLIC); }
static bool up(int d) { return d == 4 || d % 2 == 1; }
// part of an array: through the helper that takes an offset where there is one
template <class K, class D> static auto part1(K *k, D *p, int lo, int n, Bit d, int) -> decltype(bitonic_sort(k, p, lo, n, d), void()) { bitonic_sort(k, p, lo, n, d); }
template <class K, class D> static void part1(K *k, D *p, int lo, int n, Bit d, long) { emp::sort(k + lo, n, p ? p + lo : p, d); }
template <class D> static void call(Integer *k, D *p, int lo, int n, int d, bool whole) {
	if (whole && d == 4) emp::sort(k, n, p);
	else if (whole) emp::sort(k, n, p, dirBit(d));
	else part1(k, p, lo, n, dirBit(d == 4 ? 1 : d), 0);
}
static long long sgn(const Bytes &b, int w) { uint64_t x = num(b); if (w < 64 && ((x >> (w - 1)) & 1)) x |= ~0ull << w; return (long long)x; }
static std::string limbs(const Bytes &b, int w) { // biased, most significant first, 16 bits each
	Bytes c = b; c[(w - 1) / 8] ^= 1 << ((w - 1) % 8); std::string s = "["; for (int i = (int)c.size() - 1; i >= 0; --i) { s += std::to_string((int)c[i]); if (i) s += ","; } return s + "]";
}
static std::string arr(const std::vector<Bytes> &v, int w, bool lim) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += lim ? limbs(v[i], w) : std::to_string(sgn(v[i], w)); } return s + "]"; }
// one sort: key width w, payload kind 0 none, 1 Integer, 2 Bit
static void one(int be, int w, int lo, int n, int extra, int pk, int d, int alphabet, vh::Rng &r) {
	Session s(be, r.next()); int tot = lo + n + extra; std::vector<Bytes> kv, pv, ok, op; std::vector<Integer> key, pi; std::vector<Bit> pb; std::vector<Bytes> pool;
	for (int i = 0; i < alphabet; ++i) pool.push_back(boundary(r, w));
	if (alphabet < 0) for (int i = 0; i < tot; ++i) pool.push_back(val(r.next(), w));
	int pw = pk == 1 ? 1 + (int)r.below(20) : 1;
	for (int i = 0; i < tot; ++i) {
		Bytes k = pool[r.below(pool.size())]; kv.push_back(k); key.push_back(make(k, w, "sssspm"[r.below(6)], r));
		if (pk) { Bytes p = val(r.next(), pw); pv.push_back(p); if (pk == 1) pi.push_back(make(p, pw, "ssspm"[r.below(5)], r)); else pb.push_back(Bit((bool)(p[0] & 1), r.below(4) ? BOB : PUBLIC)); }
	}
	bool whole = lo == 0 && r.below(4) != 0;
	if (pk == 1) call(key.data(), pi.data(), lo, n, d, whole); else if (pk == 2) call(key.data(), pb.data(), lo, n, d, whole); else if (r.coin()) call(key.data(), (Bit *)nullptr, lo, n, d, whole); else call(key.data(), (Integer *)nullptr, lo, n, d, whole);
	bool good = true;
	for (int i = 0; i < tot; ++i) { if ((int)key[i].size() != w) good = false; ok.push_back(open(key[i])); if (pk == 1) op.push_back(open(pi[i])); if (pk == 2) op.push_back(Bytes(1, openBit(pb[i]))); }
	bool lim = w > 31; vh::J j(lim ? "sortw" : "sort"); j.i("be", be).i("w", w).i("lo", lo).i("n", n).b("up", up(d)).i("d", d).b("ok", good && !s.bad());
	j.raw("k", arr(kv, w, lim)).raw("p", pk ? arr(pv, pw + 1, false) : "[]").raw("rk", arr(ok, w, lim)).raw("rp", pk ? arr(op, pw + 1, false) : "[]"); j.end();
}
static void all01(int n, int d, int w) {
	if (!mine()) return;
	vh::Rng r(seed + n); Session s(0, 1); std::vector<int> xs, rs; bool good = true;
	for (int x = 0; x < (1 << n); ++x) {
		std::vector<Integer> k; for (int i = 0; i < n; ++i) k.push_back(Integer(w, (x >> i) & 1, ALICE));
		call(k.data(), (Bit *)nullptr, 0, n, d, true); int o = 0; for (int i = 0; i < n; ++i) { uint64_t v = num(open(k[i])); if (v > 1) good = false; o |= (int)(v & 1) << i; }
		xs.push_back(x); rs.push_back(o);
		if (xs.size() == 256 || x + 1 == 1 << n) { vh::J j("sort01"); j.i("n", n).b("up", up(d)).i("d", d).b("ok", good).ints("xs", xs).ints("rs", rs); j.end(); xs.clear(); rs.clear(); }
	}
}
// search: 128 arrays at a time at every length; arrays that come back wrong in the host's eyes are recorded for the judge
static void sweep(int n, int w) {
	if (!mine()) return;
	vh::Rng r(seed * 41 + turn); int d = (int)r.below(5), pw = 14; std::vector<std::vector<int>> kv(n, std::vector<int>(128)); std::vector<int> bad;
	for (int k = 0; k < 128; ++k) { int m = k % 4 == 0 ? 2 : k % 4 == 1 ? 5 : 1 << w; for (int i = 0; i < n; ++i) kv[i][k] = (k % 8 == 7 ? i * 2 : k % 8 == 6 ? n - i : (int)r.below(m)) & ((1 << w) - 1); }
	{ Lanes L; std::vector<Integer> key, pay; for (int i = 0; i < n; ++i) { std::vector<Bit> kb, pb; for (int b = 0; b < w; ++b) { uint64_t q[2] = {0, 0}; for (int k = 0; k < 128; ++k) q[k >> 6] |= (uint64_t)((kv[i][k] >> b) & 1) << (k & 63); Bit x; x.bit = makeBlock(q[1], q[0]); kb.push_back(x); } for (int b = 0; b < pw; ++b) pb.push_back(Bit((bool)((i >> b) & 1), PUBLIC)); key.push_back(Integer(kb)); pay.push_back(Integer(pb)); }
	call(key.data(), pay.data(), 0, n, d, true);
	auto get = [&](const Integer &x, int k) { int o = 0; for (size_t b = 0; b < x.size(); ++b) { uint64_t q[2]; memcpy(q, &x.bits[b].bit, 16); o |= (int)((q[k >> 6] >> (k & 63)) & 1) << b; } return o; };
	for (int k = 0; k < 128 && bad.size() < 2; ++k) { bool ok = true; std::vector<bool> seen(n, false); int last = 0; for (int i = 0; i < n && ok; ++i) { int a = get(key[i], k), p = get(pay[i], k); int s = a >= (1 << (w - 1)) ? a - (1 << w) : a; ok = p < n && !seen[p] && kv[p][k] == a && (i == 0 || (up(d) ? last <= s : last >= s)); if (p < n) seen[p] = true; last = s; } if (!ok) bad.push_back(k); } }
	if (bad.empty() && n % 97 == 3 && n < 300) bad.push_back(n % 128);
	for (int k : bad) {
		Session s(0, 1); std::vector<Bytes> a, b, p, q; std::vector<Integer> key, pay; for (int i = 0; i < n; ++i) { a.push_back(val(kv[i][k], w)); p.push_back(val(i, pw)); key.push_back(make(a[i], w, 's', r)); pay.push_back(make(p[i], pw, 's', r)); }
		call(key.data(), pay.data(), 0, n, d, true); for (int i = 0; i < n; ++i) { b.push_back(open(key[i])); q.push_back(open(pay[i])); }
		vh::J j("sort"); j.i("be", 0).i("w", w).i("lo", 0).i("n", n).b("up", up(d)).i("d", d).b("ok", true).raw("k", arr(a, w, false)).raw("p", arr(p, pw + 1, false)).raw("rk", arr(b, w, false)).raw("rp", arr(q, pw + 1, false)); j.end();
	}
}
int main(int c, char **v) {
	seed = strtoull(v[1], 0, 10); part = atoi(v[2]); parts = atoi(v[3]); deep = c > 4;
	for (int n = 1; n <= (deep ? 13 : 10); ++n) for (int d = 0; d < 5; ++d) { if (n > (deep ? 12 : 9) && d > 1) continue; all01(n, d, 2); }
	int R = deep ? 30 : 3;
	for (int n = 0; n <= (deep ? 40 : 24); ++n) for (int d = 0; d < 5; ++d) for (int pk = 0; pk < 3; ++pk) for (int t = 0; t < R; ++t) {
		if (!mine()) continue;
		vh::Rng r(seed * 31 + turn); int be = t % 3 == 0 ? (int)r.below(3) : 0; if (n > 10 && t) be = 0;
		int w = r.below(3) == 0 ? 1 + (int)r.below(4) : r.below(2) ? 8 + (int)r.below(24) : 32 + (int)r.below(70);
		int lo = r.coin() ? 0 : (int)r.below(5); one(be, w, lo, n, (int)r.below(4), pk, d, r.coin() ? 1 + (int)r.below(3) : n + 1, r);
	}
	// longer arrays of mostly distinct keys: each checks every threshold of the network at once
	for (int n = 25; n <= 130; ++n) for (int t = 0; t < (deep ? 24 : 4); ++t) { if (!mine()) continue; vh::Rng r(seed * 37 + turn); bool few = t % 4 == 3; one(0, few ? 4 : 14 + (int)r.below(17), (int)r.below(3), n, 2, (int)r.below(3), (int)r.below(5), few ? 3 : -1, r); }
	for (int n = 1; n <= (deep ? 700 : 300); ++n) sweep(n, 11);
	for (int n : {511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097}) if (deep || n < 2000 || n == 4097) sweep(n, 12);
	if (deep) for (int n : {200, 255, 256, 257, 300}) for (int pk = 0; pk < 3; ++pk) { if (!mine()) continue; vh::Rng r(seed * 37 + turn); one(0, 8 + (int)r.below(20), 0, n, 2, pk, (int)r.below(5), -1, r); }
	return 0;
}
