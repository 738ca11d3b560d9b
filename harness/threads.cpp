// Built with -DTHREADING: thread-local backends under chosen interleavings.
//   threads <scenario file> <seed> scn            steps of three threads in the order given by the model
//   threads gate <seed> <part> <parts> [deep]     whole operations, threads switched in the middle of them at gates
//   threads solo <seed> <part> <parts> [deep]     every kind of computation of the library, alone and then in parallel
//   threads free <seed> <part> <parts> [deep]     the same operations running freely in parallel
#include "backends.h"
#include <atomic>
#include <condition_variable>
#include <openssl/evp.h>
#include "emp-tool/circuits/aes_128_ctr.h"
#include "emp-tool/circuits/sha3_256.h"
// a small permutation-sized circuit stands in for Keccak-f, which is not shipped: here runs are compared with each other
unsigned char emp_tool_circuits_files_bristol_fashion_Keccak_f_txt[1 << 18];
unsigned int emp_tool_circuits_files_bristol_fashion_Keccak_f_txt_len = 0;
static void genMix() {
	std::string s = "3200 4800\n1 1600\n1 1600\n\n";
	for (int i = 0; i < 1600; ++i) s += "2 1 " + std::to_string((i + 1) % 1600) + " " + std::to_string((i + 7) % 1600) + " " + std::to_string(1600 + i) + " AND\n";
	for (int i = 0; i < 1600; ++i) s += "2 1 " + std::to_string(i) + " " + std::to_string(1600 + (i * 3 + 5) % 1600) + " " + std::to_string(3200 + i) + " XOR\n";
	if (s.size() > sizeof(emp_tool_circuits_files_bristol_fashion_Keccak_f_txt)) exit(78);
	memcpy(emp_tool_circuits_files_bristol_fashion_Keccak_f_txt, s.data(), s.size()); emp_tool_circuits_files_bristol_fashion_Keccak_f_txt_len = (unsigned)s.size();
}
using namespace emp;
using namespace bk;
using vh::Val;
typedef std::vector<uint8_t> Bytes;
// ---------------------------------------------------------------- scenarios
struct Worker {
	std::mutex m; std::condition_variable cv; std::function<void()> job; bool has = false, quit = false; std::thread th;
	void start() { quit = false; has = false; th = std::thread([this] { for (;;) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return has || quit; }); if (quit) return; job(); has = false; cv.notify_all(); } }); }
	void run(std::function<void()> f) { std::unique_lock<std::mutex> l(m); job = f; has = true; cv.notify_all(); cv.wait(l, [&] { return !has; }); }
	void stop() { { std::unique_lock<std::mutex> l(m); quit = true; cv.notify_all(); } th.join(); }
};
static int scn(const char *file, uint64_t seed) {
	std::vector<Val> all = vh::readLines(file);
	for (auto &s : all) {
		{ vh::J j("new"); j.end(); }
		Worker wk[3]; for (auto &w : wk) w.start();
		std::vector<std::pair<CircuitExecution *, ProtocolExecution *>> be; std::vector<Bit> ws[3]; int kind[3] = {0, 0, 0}; TwinHG *tw[3] = {0, 0, 0}; bool on[3] = {0, 0, 0};
		auto drop = [&](int t) { if (!on[t]) return; on[t] = false; if (kind[t] == 0) finalize_plain_prot(); else delete tw[t]; CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr; };
		const Val &ops = s["ops"];
		for (size_t i = 0; i < ops.size(); ++i) {
			const Val &o = ops[i]; int t = (int)o["t"].n - 1; std::string op = o["op"].s; int a = (int)o["a"].n, b = (int)o["b"].n; long long res = -1;
			wk[t].run([&] {
				if (op == "install") { kind[t] = a; on[t] = true; ws[t].clear(); if (a == 0) setup_plain_prot(false, ""); else { tw[t] = new TwinHG(seed + i); CircuitExecution::circ_exec = tw[t]; ProtocolExecution::prot_exec = tw[t]; } be.push_back({CircuitExecution::circ_exec, ProtocolExecution::prot_exec}); }
				else if (op == "remove" || op == "respawn") drop(t);
				else if (op == "feed") ws[t].push_back(Bit((bool)a, (i % 2) ? ALICE : BOB));
				else if (op == "and") ws[t].push_back(ws[t][a] & ws[t][b]);
				else if (op == "xor") ws[t].push_back(ws[t][a] ^ ws[t][b]);
				else if (op == "not") ws[t].push_back(!ws[t][a]);
				else if (op == "open") res = ws[t][a].reveal<bool>(PUBLIC);
				else if (op == "count") res = (long long)CircuitExecution::circ_exec->num_and();
			});
			if (op == "respawn") { wk[t].stop(); wk[t].start(); }
			std::vector<int> seen;
			for (int u = 0; u < 3; ++u) wk[u].run([&] { CircuitExecution *c = CircuitExecution::circ_exec; ProtocolExecution *p = ProtocolExecution::prot_exec; int id = -1; if (!c && !p) id = 0; else for (int k = (int)be.size() - 1; k >= 0; --k) if (be[k].first == c && be[k].second == p) { id = k + 1; break; } seen.push_back(id); });
			vh::J j("step"); j.i("t", t + 1).s("op", op).i("a", a).i("b", b).i("r", res).ints("seen", seen); j.end();
		}
		for (int t = 0; t < 3; ++t) { wk[t].run([&] { drop(t); }); wk[t].stop(); }
	}
	return 0;
}
// ---------------------------------------------------------------- operations
static Integer apply(const std::string &op, const Integer &x, const Integer &y) {
	if (op == "add") return x + y; if (op == "sub") return x - y; if (op == "mul") return x * y; if (op == "or") return x | y; if (op == "xor") return x ^ y; if (op == "neg") return -x; if (op == "abs") return x.abs(); if (op == "div") return x / y; if (op == "mod") return x % y;
	if (op == "popc") return x.hamming_weight(); if (op == "clz") return x.leading_zeros(); Bit b = op == "geq" ? x >= y : op == "lt" ? x < y : x == y; return Integer(std::vector<Bit>(1, b));
}
static void program(vh::Rng &r, int steps, std::string &out) {
	static const char *OPS[] = {"add", "sub", "mul", "or", "xor", "neg", "abs", "div", "mod", "popc", "clz", "geq", "lt", "eq"};
	for (int k = 0; k < steps; ++k) {
		int what = (int)r.below(10);
		if (what < 6) {
			std::string op = OPS[r.below(14)]; int w = 2 + (int)r.below(30); if (op == "mul" || op == "div" || op == "mod") w = 2 + (int)r.below(14); Bytes x = boundary(r, w), y = boundary(r, w); Integer a = make(x, w, "sm"[r.below(2)], r), b = make(y, w, "sp"[r.below(2)], r); Integer z = apply(op, a, b); bool kept = open(a) == x && open(b) == y; Bytes o = open(z);
			vh::J j("wide"); j.s("op", op).i("w", w).b("kept", kept).i("rw", (long long)z.size()).bytes("x", x.data(), x.size()).bytes("y", y.data(), y.size()).bytes("r", o.data(), o.size()); out += j.str() + "\n";
		} else if (what == 6) {
			int n = 2 + (int)r.below(6), w = 6; std::vector<Integer> key, pay; std::vector<int> k0, p0, k1, p1; for (int i = 0; i < n; ++i) { int kv = (int)r.below(32) - 16, pv = (int)r.below(64); k0.push_back(kv); p0.push_back(pv); key.push_back(Integer(w, kv, ALICE)); pay.push_back(Integer(8, pv, BOB)); } bool up = r.coin(); emp::sort(key.data(), n, pay.data(), Bit(up, ALICE));
			for (int i = 0; i < n; ++i) { int v = (int)num(open(key[i])); k1.push_back(v >= 32 ? v - 64 : v); p1.push_back((int)num(open(pay[i]))); } vh::J j("sort"); j.b("ok", true).b("up", up).i("lo", 0).i("n", n).ints("k", k0).ints("p", p0).ints("rk", k1).ints("rp", p1); out += j.str() + "\n";
		} else if (what == 7) {
			int w = 12, pw = 3; uint64_t q = 2 + r.below(30), b = r.below(q); Bytes e = boundary(r, pw), vb = val(b, w), vq = val(q, w); Integer A = make(vb, w, 's', r), P = make(e, pw, 's', r), Q = make(vq, w, 's', r); Integer z = A.modExp(P, Q); Bytes o = open(z);
			vh::J j("modexp"); j.i("w", w).i("pw", pw).b("kept", true).i("rw", (long long)z.size()).bytes("b", vb.data(), vb.size()).bytes("p", e.data(), e.size()).bytes("q", vq.data(), vq.size()).bytes("r", o.data(), o.size()); out += j.str() + "\n";
		} else {
			const char *FO[] = {"add", "sub", "mul", "div"}; std::string op = FO[r.below(4)]; uint32_t u = (uint32_t)r.next(), v = (uint32_t)r.next(); u = (u & 0x807fffff) | (uint32_t)(100 + r.below(50)) << 23; v = (v & 0x807fffff) | (uint32_t)(100 + r.below(50)) << 23; float fa, fb; memcpy(&fa, &u, 4); memcpy(&fb, &v, 4); Float a(fa, ALICE), b(fb, BOB); Float z = op == "add" ? a + b : op == "sub" ? a - b : op == "mul" ? a * b : a / b; uint32_t o = 0; for (int i = 0; i < 32; ++i) o |= (uint32_t)openBit(z.value[i]) << i;
			std::vector<int> q; for (uint32_t t : {u, v, o}) { q.push_back((int)(t >> 16)); q.push_back((int)(t & 0xffff)); } vh::J j("bin"); j.s("op", op).b("kept", true).ints("q", q); out += j.str() + "\n";
		}
	}
}
// ---------------------------------------------------------------- switching at gates
struct Sched {
	std::mutex m; std::vector<std::condition_variable *> cv; std::vector<bool> live; int cur = 0; vh::Rng r; int burst; uint64_t left = 0; uint64_t switches = 0;
	Sched(int n, uint64_t seed, int burst) : r(seed), burst(burst) { for (int i = 0; i < n; ++i) { cv.push_back(new std::condition_variable); live.push_back(true); } }
	~Sched() { for (auto c : cv) delete c; }
	void pick() { std::vector<int> c; for (size_t i = 0; i < live.size(); ++i) if (live[i]) c.push_back((int)i); if (c.empty()) return; cur = c[r.below(c.size())]; left = r.below(burst + 1); ++switches; cv[cur]->notify_all(); }
	void begin(int me) { std::unique_lock<std::mutex> l(m); cv[me]->wait(l, [&] { return cur == me; }); }
	void point(int me) { std::unique_lock<std::mutex> l(m); if (left) { --left; return; } pick(); cv[me]->wait(l, [&] { return cur == me; }); }
	void end(int me) { std::unique_lock<std::mutex> l(m); live[me] = false; pick(); }
};
struct Yield : public CircuitExecution {
	CircuitExecution *in; Sched *s; int me; Yield(CircuitExecution *in, Sched *s, int me) : in(in), s(s), me(me) {}
	block and_gate(const block &a, const block &b) override { s->point(me); return in->and_gate(a, b); }
	block xor_gate(const block &a, const block &b) override { s->point(me); return in->xor_gate(a, b); }
	block not_gate(const block &a) override { s->point(me); return in->not_gate(a); }
	block public_label(bool b) override { s->point(me); return in->public_label(b); }
	uint64_t num_and() override { return in->num_and(); }
};
struct YieldProt : public ProtocolExecution {
	ProtocolExecution *in; Sched *s; int me; YieldProt(ProtocolExecution *in, Sched *s, int me) : in(in), s(s), me(me) {}
	void feed(block *l, int p, const bool *b, int n) override { s->point(me); in->feed(l, p, b, n); s->point(me); }
	void reveal(bool *b, int p, const block *l, int n) override { s->point(me); in->reveal(b, p, l, n); s->point(me); }
};
// ---------------------------------------------------------------- whole-library programs: alone, then in parallel
typedef std::vector<uint8_t> Out;
static const char *TINY = "5 9\n2 2 2\n\n2 1 0 2 4 AND\n2 1 1 3 5 XOR\n1 1 4 6 INV\n2 1 6 5 7 AND\n2 1 7 0 8 XOR\n";
static const char *FASH = "5 9\n2 2 2\n1 2\n\n2 1 0 2 4 AND\n2 1 1 3 5 XOR\n1 1 4 6 INV\n2 1 6 5 7 AND\n2 1 7 0 8 XOR\n";
static const int JOBS = 34;
static const char *NAME[JOBS] = {"intops", "intshift", "intmisc", "intopen", "fadd", "fsub", "fmul", "fdiv", "fcmp", "fsqr", "fsqrt", "fsin", "fcos", "fexp", "fexp2", "fln", "flog2", "fmisc", "format", "fashion", "exec", "sort", "modexp", "aesctr", "sha3", "gates", "prg", "hash", "perm", "crh", "field", "curve", "bits", "memio"};
static std::string scratch;
static void putI(Out &o, const Integer &x) { for (auto b : open(x)) o.push_back(b); o.push_back((uint8_t)x.size()); }
static void putF(Out &o, const Float &z) { uint32_t u = 0; for (int i = 0; i < 32; ++i) u |= (uint32_t)openBit(z.value[i]) << i; for (int i = 0; i < 4; ++i) o.push_back(u >> (8 * i)); }
static void putB(Out &o, const Bit &b) { o.push_back(openBit(b)); }
static void put(Out &o, const void *p, size_t n) { o.insert(o.end(), (const uint8_t *)p, (const uint8_t *)p + n); }
static Float mkF(vh::Rng &r, int lo, int hi) { uint32_t u = ((uint32_t)r.next() & 0x807fffff) | (uint32_t)(lo + r.below(hi - lo)) << 23; float f; memcpy(&f, &u, 4); return Float(f, r.coin() ? ALICE : BOB); }
static Out job(int k, uint64_t seed, int more = 0) {
	vh::Rng r(seed); Out o; std::string n = NAME[k]; CircuitExecution *ce = CircuitExecution::circ_exec; uint64_t a0 = ce->num_and();
	int w = 3 + (int)r.below(20); auto I = [&] { return make(boundary(r, w), w, "smp"[r.below(3)], r); };
	auto fl = [&](Float (Float::*f)() const, int lo, int hi) { Float x = mkF(r, lo, hi); putF(o, (x.*f)()); putF(o, x); };
	if (n == "intops") for (int i = 0; i < 14; ++i) { static const char *OPS[] = {"add", "sub", "mul", "or", "xor", "neg", "abs", "div", "mod", "popc", "clz", "geq", "lt", "eq"}; Integer a = I(), b = I(); putI(o, apply(OPS[i], a, b)); putI(o, a); putI(o, b); }
	else if (n == "intshift") { Integer a = I(), s = make(boundary(r, 6), 6, 's', r); putI(o, a << (int)r.below(w + 3)); putI(o, a >> (int)r.below(w + 3)); putI(o, a << s); putI(o, a >> s); }
	else if (n == "intmisc") for (int it = 0; it < 4; ++it) { Integer a = I(), b = I(); Bit c(r.coin(), ALICE); putI(o, a.select(c, b)); putI(o, If(c, a, b)); swap(c, a, b); putI(o, a); putI(o, b); a.resize(w + 5, true); b.resize(w - 2, false); putI(o, a); putI(o, b); a ^= a; putI(o, a); }
	else if (n == "intopen") for (int it = 0; it < 6; ++it) { Integer a = I(); o.push_back((uint8_t)a.reveal<uint64_t>()); std::string t = a.reveal<std::string>(); put(o, t.data(), t.size()); uint8_t buf[8] = {0}; a.reveal<uint8_t>(buf); put(o, buf, 8); Integer z(w, (int64_t)r.next(), BOB); putI(o, z); uint64_t m = r.next(); Integer y(40, &m, ALICE); putI(o, y); }
	else if (n == "fadd" || n == "fsub" || n == "fmul" || n == "fdiv") { Float a = mkF(r, 100, 150), b = mkF(r, 100, 150); putF(o, n == "fadd" ? a + b : n == "fsub" ? a - b : n == "fmul" ? a * b : a / b); putF(o, a); putF(o, b); }
	else if (n == "fcmp") { for (int i = 0; i < 6; ++i) { Float a = mkF(r, 120, 122), b = mkF(r, 120, 122); putB(o, a.equal(b)); putB(o, a.less_equal(b)); putB(o, a.less_than(b)); putB(o, a.equal(a)); } }
	else if (n == "fsqr") fl(&Float::sqr, 90, 160); else if (n == "fsqrt") { Float x = mkF(r, 20, 230).abs(); putF(o, x.sqrt()); }
	else if (n == "fsin") fl(&Float::sin, 110, 140); else if (n == "fcos") fl(&Float::cos, 110, 140); else if (n == "fexp") fl(&Float::exp, 110, 132); else if (n == "fexp2") fl(&Float::exp2, 110, 132);
	else if (n == "fln") putF(o, mkF(r, 20, 230).abs().ln()); else if (n == "flog2") putF(o, mkF(r, 20, 230).abs().log2());
	else if (n == "fmisc") for (int it = 0; it < 4; ++it) { Float a = mkF(r, 100, 150), b = mkF(r, 100, 150); putF(o, -a); putF(o, a.abs()); putF(o, a.If(Bit(r.coin(), ALICE), b)); putF(o, a ^ b); putF(o, a & b); std::string t = a.reveal<std::string>(); put(o, t.data(), t.size()); double d = b.reveal<double>(); put(o, &d, 8); }
	else if (n == "format" || n == "fashion") {
		std::string fn = scratch + "/" + n + std::to_string(seed); FILE *f = fopen(fn.c_str(), "w"); fputs(n == "format" ? TINY : FASH, f); fclose(f); Bit in[4], out[3]; for (int i = 0; i < 4; ++i) in[i] = Bit(r.coin(), r.coin() ? ALICE : BOB);
		if (n == "format") { BristolFormat c(fn.c_str()); for (int t = 0; t < 3; ++t) { c.compute(out, in, in + 2); putB(o, out[0]); putB(o, out[1]); in[0] = out[1]; } }
		else { BristolFashion c(fn.c_str()); for (int t = 0; t < 3; ++t) { c.compute(out, in); putB(o, out[0]); putB(o, out[1]); in[0] = out[1]; } }
		remove(fn.c_str());
	}
	else if (n == "exec") { block ws[9]; int g[] = {0, 1, 4, AND_GATE, 2, 3, 5, XOR_GATE, 4, 0, 6, NOT_GATE, 5, 6, 7, AND_GATE, 7, 0, 8, 3}; for (int i = 0; i < 4; ++i) { Bit b(r.coin(), ALICE); ws[i] = b.bit; } int h[] = {8, 1, 4, 3, 4, 2, 5, 3, 7, 5, 6, XOR_GATE, 6, 3, 7, 3, 1, 7, 0, 3}; for (int i = 0; i < 10; ++i) { execute_circuit(ws, g, 5); for (auto &x : ws) { Bit b; b.bit = x; putB(o, b); } execute_circuit(ws, h, 5); for (int q = 0; q < 4; ++q) if (r.coin()) ws[q] = Bit(r.coin(), BOB).bit; } }
	else if (n == "sort") { int m = 3 + (int)r.below(5); std::vector<Integer> key, pay; for (int i = 0; i < m; ++i) { key.push_back(I()); pay.push_back(I()); } emp::sort(key.data(), m, pay.data(), Bit(r.coin(), ALICE)); for (int i = 0; i < m; ++i) putI(o, key[i]), putI(o, pay[i]); }
	else if (n == "modexp") { Integer b = Integer(10, (int64_t)r.below(13), ALICE), e = Integer(3, (int64_t)r.below(8), BOB), q = Integer(10, 13, ALICE); putI(o, b.modExp(e, q)); }
	else if (n == "sha3") { SHA3_256_Calculator c; Integer a = make(boundary(r, 90), 90, 's', r), z; std::vector<block> out(256); c.sha3_256(out.data(), &a, 1); for (auto &x : out) { Bit b; b.bit = x; putB(o, b); } }
	else if (n == "aesctr") {
		AES_128_CTR_Calculator c; block key, iv; r.fill(&key, 16); r.fill(&iv, 16); std::vector<block> kl, in, out(130); for (int i = 0; i < 128; ++i) { Bit b(r.coin(), ALICE); kl.push_back(b.bit); } for (int i = 0; i < 130; ++i) { Bit b(r.coin(), BOB); in.push_back(b.bit); }
		c.aes_128_ctr(kl.data(), iv, in.data(), out.data(), 130, PUBLIC, 3); for (auto &x : out) { Bit b; b.bit = x; putB(o, b); }
	}
	else if (n == "gates") { Bit x(r.coin(), ALICE), y(r.coin(), BOB); for (int i = 0; i < 200; ++i) { Bit z = (x & y) ^ !y; y = x | z; x = z.select(x, !y); putB(o, x); putB(o, z == y); } }
	else if (n == "prg") for (int it = 0; it < 8; ++it) { block sd; r.fill(&sd, 16); PRG p(&sd, (int)r.below(9)); uint8_t b[400]; p.random_data(b, 333); put(o, b, 333); block q[20]; p.random_block(q, 20); put(o, q, 320); bool bb[77]; p.random_bool(bb, 77); put(o, bb, 77); uint8_t *u = b + 1; p.random_data_unaligned(u, 100); put(o, u, 100); p.reseed(&sd, 3); p.random_data(b, 16); put(o, b, 16); for (int i = 0; i < 150; ++i) { auto u2 = p(); put(o, &u2, sizeof u2); } }
	else if (n == "hash") { Hash h; uint8_t b[300], d[32]; for (int i = 0; i < 70; ++i) { size_t m = r.below(300); r.fill(b, m); h.put(b, (int)m); } h.digest(d); put(o, d, 32); Hash::hash_once(d, b, 200); put(o, d, 32); block z = Hash::hash_for_block(b, 99); put(o, &z, 16); }
	else if (n == "perm") for (int it = 0; it < 8; ++it) { block key, q[37]; r.fill(&key, 16); PRP p(key); r.fill(q, sizeof q); p.permute_block(q, 37); put(o, q, sizeof q); AES_KEY dk; AES_set_decrypt_key(key, &dk); AES_ecb_decrypt_blks(q, 37, &dk); put(o, q, sizeof q); AES_KEY ks[4]; block uk[4]; r.fill(uk, 64); AES_opt_key_schedule<4>(uk, ks); block in[8]; r.fill(in, 128); ParaEnc<4, 2>(in, ks); put(o, in, 128); }
	else if (n == "crh") { block key, q[21], z[21]; r.fill(&key, 16); r.fill(q, sizeof q); for (int i = 0; i < 20; ++i) { CRH c(key); CCRH cc(key); TCCRH t(key); c.H<9>(z, q); cc.H<9>(z + 9, q + 9); put(o, z, 288); t.H<11>(z, q, (uint64_t)i); put(o, z, 176); z[0] = c.H(q[1]); z[1] = cc.H(q[2]); z[2] = t.H(q[3], 5); put(o, z, 48); q[0] = z[0]; }
		CRH c(key); c.Hn(z, q, 21); put(o, z, sizeof z); CCRH cc(key); cc.Hn(z, q, 21); put(o, z, sizeof z); TCCRH t(key); t.Hn(z, q, (uint64_t)r.next(), 21); put(o, z, sizeof z); MITCCRH<8> m; m.setS(key); for (int i = 0; i < 12; ++i) { m.hash<2, 1>(q + i); m.hash<4, 2>(q + i); } put(o, q, sizeof q); }
	else if (n == "field") for (int it = 0; it < 8; ++it) { block a[33], b[33], z, y[2], c[33]; r.fill(a, sizeof a); r.fill(b, sizeof b); gfmul(a[0], b[0], &z); put(o, &z, 16); vector_inn_prdt_sum_red(&z, a, b, 33); put(o, &z, 16); vector_inn_prdt_sum_no_red(y, a, b, 33); put(o, y, 32); uni_hash_coeff_gen(c, a[1], 33); put(o, c, sizeof c); GaloisFieldPacking g; block q[128]; r.fill(q, sizeof q); g.packing(&z, q); put(o, &z, 16); }
	else if (n == "curve") { Group G; BigInt s, t; uint8_t b[32]; r.fill(b, 32); s.from_bin(b, 32); r.fill(b, 32); t.from_bin(b, 32); Point p = G.mul_gen(s), q = p.mul(t), u = p.add(q).inv(); std::vector<uint8_t> e(u.size()); u.to_bin(e.data(), e.size()); put(o, e.data(), e.size()); BigInt m = s.mul(t, G.bn_ctx).mod(G.order, G.bn_ctx); std::vector<uint8_t> f(m.size()); m.to_bin(f.data()); put(o, f.data(), f.size()); block z = Hash::KDF(q, 7); put(o, &z, 16); }
	else if (n == "bits") for (int it = 0; it < 20; ++it) { std::vector<uint8_t> in(16 * 24 / 8 * 8), out(in.size()); r.fill(in.data(), in.size()); sse_trans(out.data(), in.data(), 16 * 8, 24); put(o, out.data(), out.size()); bool bb[64]; for (auto &x : bb) x = r.coin(); uint64_t u = bool_to_int<uint64_t>(bb); put(o, &u, 8); bool b8[128]; for (auto &x : b8) x = r.coin(); block z = bool_to_block(b8); put(o, &z, 16); }
	else { MemIO m; uint8_t b[500], d[500]; size_t left = 0; for (int i = 0; i < 30; ++i) { size_t q = r.below(500); r.fill(b, q); m.send_data(b, (int)q); left += q; if (r.coin() || i == 29) { while (left) { size_t g = std::min<size_t>(left, 1 + r.below(400)); m.recv_data(d, (int)g); put(o, d, g); left -= g; } } } bool bb[90], cc[90]; for (auto &x : bb) x = r.coin(); m.send_bool(bb, 90); m.recv_bool(cc, 90); put(o, cc, 90);
		if (scratch.size()) { std::string f = scratch + "/" + std::to_string((size_t)pthread_self()); { FileIO w(f.c_str(), false); for (int i = 0; i < 60; ++i) { size_t q = r.below(90); r.fill(b, 90); w.send_data(b, (int)q); } } { FileIO w(f.c_str(), true); w.reset(); for (int i = 0; i < 100; ++i) { size_t q = r.below(12); w.recv_data(d, (int)q); put(o, d, q); } } unlink(f.c_str()); } }
	uint64_t da = ce->num_and() - a0; put(o, &da, 8); if (more) { Out p = job(k, seed * 3 + more, more - 1); put(o, p.data(), p.size()); }
	// keep the recording short: fold into 16 bytes
	uint8_t f[32]; EVP_Digest(o.data(), o.size(), f, nullptr, EVP_sha256(), nullptr); return Out(f, f + 16);
}
static bool light(int k) { static const char *h[] = {"fsin", "fcos", "fexp", "fexp2", "fln", "flog2", "fdiv", "fsqrt", "aesctr", "sha3", "modexp", "intops"}; for (auto x : h) if (!strcmp(NAME[k], x)) return false; return true; }
static bool offline(int k) { return k >= 26; } // uses no backend
// one kind of computation over and over in four threads
static void hammer(int k, int reps, bool gate, uint64_t seed) {
	const int T = gate ? 3 : 4; std::vector<std::vector<Out>> alone(T), both(T); std::atomic<int> ready(0); std::vector<std::thread> th; Sched s(T, seed, light(k) ? 1 : 40);
	for (int t = 0; t < T; ++t) std::thread([&, t] { Session ss(gate ? 0 : t % 2, seed + t); for (int i = 0; i < reps; ++i) alone[t].push_back(job(k, seed * 31 + t * 1009 + i, offline(k) ? 12 : 0)); }).join();
	for (int t = 0; t < T; ++t) th.emplace_back([&, t] {
		if (gate) s.begin(t);
		{
			Session ss(gate ? 0 : t % 2, seed + t); CircuitExecution *in = CircuitExecution::circ_exec; ProtocolExecution *pin = ProtocolExecution::prot_exec; Yield y(in, &s, t); YieldProt yp(pin, &s, t); if (gate) { CircuitExecution::circ_exec = &y; ProtocolExecution::prot_exec = &yp; } else { ++ready; while (ready < T) ; }
			for (int i = 0; i < reps; ++i) both[t].push_back(job(k, seed * 31 + t * 1009 + i, offline(k) ? 12 : 0));
			CircuitExecution::circ_exec = in; ProtocolExecution::prot_exec = pin;
		}
		if (gate) s.end(t);
	});
	for (auto &x : th) x.join();
	for (int t = 0; t < T; ++t) { std::string a = "[", b = "["; for (int i = 0; i < reps; ++i) { std::string c = i ? "," : ""; a += c + vh::J::arr(alone[t][i].data(), 16); b += c + vh::J::arr(both[t][i].data(), 16); } vh::J j("same"); j.i("t", t + 1).raw("alone", a + "]").raw("together", b + "]").raw("jobs", "[\"" + std::string(NAME[k]) + "\"]"); j.end(); }
}
static int solo(uint64_t seed, int part, int parts, bool deep) {
	char t[] = "/tmp/vthrXXXXXX"; if (!mkdtemp(t)) return 77; scratch = t;
	int rounds = deep ? 120 : 6;
	for (int q = part; q < rounds; q += parts) {
		bool gate = q % 2 == 0; int T = 2 + q % 3; vh::Rng rr(seed * 7 + q); std::vector<std::vector<std::pair<int, uint64_t>>> plan(T); std::vector<std::vector<Out>> alone(T), both(T);
		// half of the rounds: every thread runs the same jobs in the same order, so that the same code runs at the same time
		std::vector<int> order; for (int i = 0; i < JOBS; ++i) order.push_back(i); for (int i = JOBS - 1; i > 0; --i) std::swap(order[i], order[rr.below(i + 1)]);
		int rep = gate ? 1 : 3;
		for (int i = 0; i < JOBS; ++i) for (int t2 = 0; t2 < T; ++t2) for (int u = 0; u < rep; ++u) { int k = q % 4 < 2 ? order[i] : (int)rr.below(JOBS); plan[t2].push_back({k, seed * 1000003 + q * 5003 + t2 * 1009 + i * 7 + u}); }
		for (int t2 = 0; t2 < T; ++t2) std::thread([&, t2] { Session ss(gate || t2 % 2 ? 0 : 1, seed + t2); for (auto &p : plan[t2]) alone[t2].push_back(job(p.first, p.second)); }).join();
		int bl = q % 6 == 0 ? 0 : q % 6 == 2 ? 3 : 20, bh = q % 6 == 0 ? 60 : q % 6 == 2 ? 500 : 150; Sched s(T, seed * 13 + q, bl); std::vector<std::thread> th;
		for (int t2 = 0; t2 < T; ++t2) th.emplace_back([&, t2] {
			if (gate) s.begin(t2);
			{
				Session ss(gate || t2 % 2 ? 0 : 1, seed + t2); CircuitExecution *in = CircuitExecution::circ_exec; ProtocolExecution *pin = ProtocolExecution::prot_exec; Yield y(in, &s, t2); YieldProt yp(pin, &s, t2); if (gate) { CircuitExecution::circ_exec = &y; ProtocolExecution::prot_exec = &yp; }
				for (auto &p : plan[t2]) { if (gate) s.burst = light(p.first) ? bl : bh; both[t2].push_back(job(p.first, p.second)); }
				CircuitExecution::circ_exec = in; ProtocolExecution::prot_exec = pin;
			}
			if (gate) s.end(t2);
		});
		for (auto &x : th) x.join();
		for (int t2 = 0; t2 < T; ++t2) { std::string a = "[", b = "["; for (size_t i = 0; i < plan[t2].size(); ++i) { std::string c = i ? "," : ""; a += c + vh::J::arr(alone[t2][i].data(), 16); b += c + vh::J::arr(both[t2][i].data(), 16); } vh::J j("same"); j.i("round", q).i("t", t2 + 1).raw("alone", a + "]").raw("together", b + "]"); std::string names = "["; for (size_t i = 0; i < plan[t2].size(); ++i) names += (i ? ",\"" : "\"") + std::string(NAME[plan[t2][i].first]) + "\""; j.raw("jobs", names + "]"); j.end(); }
	}
	for (int k = part; k < JOBS; k += parts) { hammer(k, (light(k) ? 30 : 4) * (deep ? 10 : 1), false, seed + k); if (!offline(k)) hammer(k, (light(k) ? 3 : 1) * (deep ? 8 : 1), true, seed + k); }
	rmdir(scratch.c_str()); return 0;
}
int main(int c, char **v) { genMix();
	std::string mode = v[1]; if (c > 3 && !strcmp(v[3], "scn")) return scn(v[1], strtoull(v[2], 0, 10));
	uint64_t seed = strtoull(v[2], 0, 10); int part = atoi(v[3]), parts = atoi(v[4]); bool deep = c > 5; if (mode == "solo") return solo(seed, part, parts, deep); int rounds = deep ? 60 : 6;
	for (int q = 0; q < rounds; ++q) {
		if (q % parts != part % parts && parts <= rounds) continue;
		int T = 2 + q % 4; std::vector<std::string> out(T); std::vector<std::thread> th; bool gate = mode == "gate"; Sched s(T, seed * 11 + q, q % 3 == 0 ? 0 : q % 3 == 1 ? 3 : 60);
		for (int t = 0; t < T; ++t) th.emplace_back([&, t] {
			vh::Rng r(seed * 101 + q * 17 + t);
			if (gate) s.begin(t);
			{
				Session ss(gate || t % 2 ? 0 : 1, seed + t); CircuitExecution *in = CircuitExecution::circ_exec; Yield y(in, &s, t); if (gate) CircuitExecution::circ_exec = &y;
				program(r, gate ? 12 : deep ? 150 : 60, out[t]);
				CircuitExecution::circ_exec = in;
			}
			if (gate) s.end(t);
		});
		for (auto &x : th) x.join();
		for (auto &x : out) { fwrite(x.data(), 1, x.size(), stdout); } fflush(stdout);
	}
	return 0;
}
