#include "vh.h"
#include <malloc.h>
#include <openssl/rand.h>
#include <sys/random.h>
#include <sys/wait.h>
#include "emp-tool/utils/group.h"
using namespace emp;
using namespace vh;
static Rng *R;
typedef std::vector<uint8_t> By;
static By enc(Point &p) { By b(p.size()); GBuf g(b.size(), R->below(16), R->coin()); p.to_bin(g.p, b.size()); if (!g.intact()) b.assign(1, 77); else b.assign(g.p, g.p + g.n); return b; }
static By bin(BigInt &x) { By b(x.size()); GBuf g(b.size(), R->below(16), R->coin()); x.to_bin(g.p); if (!g.intact()) b.assign(1, 0); else b.assign(g.p, g.p + g.n); return b; }
static BigInt of(const By &b) { BigInt x; if (R->coin()) { uint8_t h[40]; R->fill(h, 40); x.from_bin(h, 1 + (int)R->below(40)); } GBuf g(b.size(), R->below(16), R->coin()); if (b.size()) memcpy(g.p, b.data(), b.size()); x.from_bin(g.p, b.size()); return x; }
static std::string arr(const By &b) { return J::arr(b.data(), b.size()); }
// big integers of a size class
static By big(int c) {
	static const int len[] = {0, 1, 4, 8, 16, 31, 32, 64, 513, 700};
	By b(len[c]); R->fill(b.data(), b.size());
	if (b.size() && R->below(4) == 0) memset(b.data(), 255, b.size());
	if (b.size() && R->below(4) == 0) { memset(b.data(), 0, b.size()); b[R->below(b.size())] = 1 << R->below(8); }
	return b;
}
// OpenSSL randomness with a script in front of it
static std::vector<By> script; static size_t scriptAt = 0;
static int rbytes(unsigned char *p, int n) {
	if (scriptAt < script.size()) { const By &s = script[scriptAt++]; for (int i = 0; i < n; ++i) p[i] = s.empty() ? 0 : s[i % s.size()]; return 1; }
	for (int i = 0; i < n;) { ssize_t k = getrandom(p + i, n - i, 0); if (k <= 0) return 0; i += k; } return 1;
}
static int rstat() { return 1; }
static int rseed(const void *, int) { return 1; }
static int radd(const void *, int, double) { return 1; }
static RAND_METHOD meth = {rseed, rbytes, nullptr, radd, rbytes, rstat};
int main(int argc, char **argv) {
	Rng r(strtoull(argv[2], 0, 10)); R = &r; mallopt(M_PERTURB, 165); // freed memory does not keep its contents
	Group G; BigInt n = G.order;
	J("order").raw("out", arr(bin(n))).b("ok", true).end();
	auto scalar = [&](int k) {
		BigInt one = of(By{1}), two = of(By{2});
		switch (k) {
		case 0: return of(By{});
		case 1: return one;
		case 2: return two;
		case 3: { By b = bin(n); b[31] -= 1; return of(b); }   // n-1
		case 4: return n;
		case 5: return n.add(one);
		case 6: return of(big(1));
		case 7: return of(big(7));   // above the order
		case 12: return of(big(8));  // far above
		case 13: case 14: { BigInt m = of(big(6)), z = n.mul(m, G.bn_ctx); return k == 13 ? z : z.add(one); }   // next to a multiple of the order
		default: { BigInt m; G.get_rand_bn(m); return m; }
		}
	};
	// the same multiple by additions only: m times q
	auto ladder = [&](Point &q, const By &m) { Point g = G.get_generator(), h = g.inv(), acc = g.add(h); for (uint8_t c : m) for (int i = 7; i >= 0; --i) { acc = acc.add(acc); if ((c >> i) & 1) acc = acc.add(q); } return acc; };
	for (auto &scn : readLines(argv[1])) {
		std::vector<Point> p(5, Point(&G)); std::vector<BigInt> t(5);
		BigInt one = of(By{1});
		for (int i = 1; i < 5; ++i) { Point g = G.get_generator(), h = g.inv(); p[i] = g.add(h); t[i] = of(By{}); }
		auto regs = [&]() { std::string s = "["; for (int i = 1; i < 5; ++i) { if (i > 1) s += ","; s += arr(enc(p[i])); } return s + "]"; };
		for (size_t q = 0; q < scn.size(); ++q) {
			const Val &v = scn[q]; const std::string &op = v["op"].s; int d = v["d"].n, a = v["a"].n, b = v["b"].n, k = v["k"].n;
			if (op == "start") J("start").b("ok", true).end();
			else if (op == "gen") { p[d] = G.get_generator(); t[d] = one; J("gen").i("d", d).raw("out", arr(enc(p[d]))).raw("regs", regs()).b("ok", true).end(); }
			else if (op == "mulgen") { BigInt m = scalar(k); By mb = bin(m); p[d] = G.mul_gen(m); t[d] = m.mod(n, G.bn_ctx);
				J("mulgen").i("d", d).raw("m", arr(mb)).raw("out", arr(enc(p[d]))).raw("regs", regs()).b("ok", bin(m) == mb).end();
				Point g = G.get_generator(), x = ladder(g, mb); J("copy").i("d", d).i("a", d).raw("out", arr(enc(x))).raw("regs", regs()).b("ok", true).end(); }
			else if (op == "mul") { BigInt m = scalar(k); By mb = bin(m); Point x = p[a].mul(m), z = ladder(p[a], mb); BigInt y = t[a].mul_mod(m, n, G.bn_ctx); p[d] = x; t[d] = y;
				J("mul").i("d", d).i("a", a).raw("m", arr(mb)).raw("out", arr(enc(p[d]))).raw("regs", regs()).b("ok", bin(m) == mb).end();
				J("copy").i("d", d).i("a", d).raw("out", arr(enc(z))).raw("regs", regs()).b("ok", true).end(); }
			else if (op == "add") { By ea = enc(p[a]), eb = enc(p[b]); Point x = p[a].add(p[b]); BigInt y = t[a].add_mod(t[b], n, G.bn_ctx); p[d] = x; t[d] = y;
				J("add").i("d", d).i("a", a).i("b", b).b("law", v["law"].n == 0).raw("ea", arr(ea)).raw("eb", arr(eb)).raw("out", arr(enc(p[d]))).raw("regs", regs()).b("ok", true).end(); }
			else if (op == "inv") { Point x = p[a].inv(); BigInt y; { By nb = bin(n); nb[31] -= 1; BigInt m1 = of(nb); y = t[a].mul_mod(m1, n, G.bn_ctx); } p[d] = x; t[d] = y;
				J("inv").i("d", d).i("a", a).raw("out", arr(enc(p[d]))).raw("regs", regs()).b("ok", true).end(); }
			else if (op == "copy") {
				if (k == 0) p[d] = p[a];
				else if (k == 1) { Point c(p[a]); p[d] = c; }
				else { By e = enc(p[a]); if (k == 2) { Point f; f.from_bin(&G, e.data(), e.size()); p[d] = f; } else p[d].from_bin(&G, e.data(), e.size()); }
				t[d] = BigInt(t[a]);
				J("copy").i("d", d).i("a", a).raw("out", arr(enc(p[d]))).raw("regs", regs()).b("ok", true).end(); }
			else if (op == "via") { Point x = G.mul_gen(t[a]); By m = bin(t[a]); BigInt y = t[a]; p[d] = x; t[d] = y;
				J("via").i("d", d).i("a", a).raw("m", arr(m)).raw("out", arr(enc(p[d]))).raw("regs", regs()).b("ok", true).end(); }
			else if (op == "eqi") { Point x = p[b].inv(); bool e = p[a] == x; J("eqi").i("a", a).i("b", b).b("res", e).raw("regs", regs()).b("ok", true).end(); }
			else if (op == "rands") { By o = bin(n), o1 = o, o2 = o, ff(32, 255), z(32, 0), hi = o; o1[31] += 1; o2[31] -= 1; hi[4] += 1; By pick[] = {o, o1, o2, ff, z, hi}; script.clear(); scriptAt = 0; for (int i = 0; i <= k % 3; ++i) script.push_back(pick[(k + 5 * i) % 6]);
				RAND_set_rand_method(&meth); BigInt m; G.get_rand_bn(m); RAND_set_rand_method(nullptr); J("rands").raw("out", arr(bin(m))).b("ok", true).end(); }
			else if (op == "xgroup") { Group *H = new Group; By e = enc(p[a]); Point src = p[a], z(H), u; if (k & 1) z = H->get_generator(); if (k & 2) { u.from_bin(H, e.data(), e.size()); p[d] = u; p[d] = Point(src); } z = src; Point y(z); u = y; delete H; Point x = z.add(u), w = u.inv(), xx = x.add(w); p[d] = k & 4 ? xx : z; t[d] = BigInt(t[a]); z = u;
				J("copy").i("d", d).i("a", a).raw("out", arr(enc(p[d]))).raw("regs", regs()).b("ok", true).end(); }
			else if (op == "bad") { // bytes that may or may not encode a point, decoded in a child
				By e = enc(p[a]); switch (k) { case 0: e[e.size() - 1] ^= 1; break; case 1: e[r.below(e.size())] ^= 1 << r.below(8); break; case 2: if (e.size() > 1) e.pop_back(); else e[0] = 7; break; case 3: e.push_back(0); break; case 4: e[0] = r.below(9); break; case 5: { e.assign(65, 0); e[0] = 4; } break; case 6: { e.assign(65, 255); e[0] = 4; } break; case 7: break; case 8: { e.assign(65, 0); r.fill(e.data(), 65); e[0] = 4; } break; default: e.assign(1, r.below(5)); }
				int fd[2]; if (pipe(fd)) exit(77); pid_t q = fork(); if (q == 0) { close(2); close(1); Point u; if (r.coin()) u = p[b]; if (e.empty()) _exit(3); u.from_bin(&G, e.data(), e.size()); By o = enc(u); if (write(fd[1], o.data(), o.size()) < 0) _exit(77); _exit(0); }
				close(fd[1]); By o(200); ssize_t got = read(fd[0], o.data(), o.size()); close(fd[0]); o.resize(got > 0 ? got : 0); int st = 0; waitpid(q, &st, 0);
				J("bad").raw("in", arr(e)).raw("out", arr(o)).b("ok", WIFEXITED(st) && (WEXITSTATUS(st) == 0) == !o.empty()).end(); }
			else if (op == "eq") { bool e = p[a] == p[b]; J("eq").i("a", a).i("b", b).b("res", e).raw("regs", regs()).b("ok", true).end(); }
			else if (op == "rand") { BigInt m; G.get_rand_bn(m); J("rand").raw("out", arr(bin(m))).b("ok", true).end(); }
			else if (op == "big") {
				By xa = big(v["x"].n), xb = big(v["y"].n), xm = big(v["m"].n); bool z = true; for (auto c : xm) if (c) z = false; if (z) xm[0] = 3;
				if (v["al"].n == 1) { // operands next to multiples of the modulus
					xa = xm; size_t i = xa.size(); int kk = (int)r.below(5);
					if (kk == 1) { while (i && ++xa[--i] == 0) {} } else if (kk == 2) { while (i && xa[--i]-- == 0) {} }
					else if (kk >= 3) { BigInt q = of(xm); q = q.add(q); if (kk == 4) q = q.add(one); xa = bin(q); } }
				if (v["al"].n == 2 && k == 4 && xa.size() <= 64 && xb.size() <= 64) { BigInt q = of(xa), q2 = of(xb), sum = q.add(q2); int kk = (int)r.below(3); if (kk == 1) sum = sum.add(one); xm = bin(sum); size_t i = xm.size(); if (kk == 2) while (i && xm[--i]-- == 0) {} bool zz = true; for (auto c : xm) if (c) zz = false; if (zz) xm = By{3}; }
				bool al = v["al"].n == 0; if (al) xb = xa; if (xa.size() > 64 || xb.size() > 64 || xm.size() > 64) k = k % 2; // the specification's multiplication is quadratic
				BigInt A = of(xa), Bb = of(xb), M = of(xm), O; By na = bin(A), nb = bin(Bb), nm = bin(M); const char *nm_ = "";
				BigInt &rb = al ? A : Bb;
				switch (k) {
				case 0: O = A; nm_ = "bbin"; break;
				case 1: O = A.add(rb); nm_ = "badd"; break;
				case 2: O = A.mul(rb, G.bn_ctx); nm_ = "bmul"; break;
				case 3: O = A.mod(M, G.bn_ctx); nm_ = "bmod"; break;
				case 4: O = A.add_mod(rb, M, G.bn_ctx); nm_ = "baddm"; break;
				default: O = A.mul_mod(rb, M, G.bn_ctx); nm_ = "bmulm";
				}
				By out = bin(O); bool same = bin(A) == na && bin(Bb) == nb && bin(M) == nm;
				{ BigInt C(A); C = C.add(one); BigInt E; E = C; E = E.add(one); same = same && bin(A) == na && bin(O) == out; }
				J(nm_).raw("a", arr(xa)).raw("b", arr(xb)).raw("m", arr(xm)).raw("out", arr(out)).b("ok", same).end();
			}
		}
	}
}
