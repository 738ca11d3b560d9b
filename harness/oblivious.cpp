// What an outside observer sees of an operation (gates and wiring, recorded file, bytes exchanged) for several secret values.
#include "backends.h"
#include "emp-tool/circuits/aes_128_ctr.h"
#include <sstream>
using namespace emp;
using namespace bk;
typedef std::vector<uint8_t> Bytes;
static uint64_t seed; static int part, parts; static bool deep; static uint64_t turn = 0; static std::string dir;
struct Dig { uint64_t a = 1469598103934665603ull, b = 0x9E3779B97F4A7C15ull, n = 0; void u(uint64_t x) { for (int i = 0; i < 8; ++i) { a = (a ^ ((x >> (8 * i)) & 255)) * 1099511628211ull; } b = (b ^ x) * 0xff51afd7ed558ccdull; b ^= b >> 29; ++n; } std::string s() { char t[80]; snprintf(t, sizeof t, "%016llx%016llx.%llu", (unsigned long long)a, (unsigned long long)b, (unsigned long long)n); return t; } };
// a backend that numbers wires in order of creation and notes every call
struct Rec : public CircuitExecution, public ProtocolExecution {
	Dig d; std::vector<uint8_t> v{0, 1};
	block mk(bool x) { v.push_back(x); return idx(v.size() - 1); }
	void ev(uint64_t k, uint64_t a, uint64_t b) { d.u(k); d.u(a); d.u(b); }
	block and_gate(const block &a, const block &b) override { ev(1, ix(a), ix(b)); return mk(v[ix(a)] & v[ix(b)]); }
	block xor_gate(const block &a, const block &b) override { ev(2, ix(a), ix(b)); return mk(v[ix(a)] ^ v[ix(b)]); }
	block not_gate(const block &a) override { ev(3, ix(a), 0); return mk(!v[ix(a)]); }
	block public_label(bool b) override { return idx(b); }
	uint64_t num_and() override { return 0; }
	void feed(block *l, int party, const bool *b, int n) override { ev(4, party, n); for (int i = 0; i < n; ++i) { if (party == PUBLIC) { ev(5, b[i], 0); l[i] = public_label(b[i]); } else l[i] = mk(b[i]); } }
	void reveal(bool *o, int party, const block *l, int n) override { ev(6, party, n); for (int i = 0; i < n; ++i) { ev(7, ix(l[i]), 0); o[i] = v[ix(l[i])]; } }
};
typedef std::function<void(vh::Rng &, int)> Prog; // draws secret values from the generator, k-th choice of values
static std::string observe(int be, const Prog &p, int k, uint64_t vs) {
	vh::Rng r(vs + 1000003ull * k);
	if (be == 0) { Rec e; CircuitExecution::circ_exec = &e; ProtocolExecution::prot_exec = &e; p(r, k); return e.d.s(); }
	if (be == 1) { // the recorded file, byte for byte, and the counters
		std::string f = dir + "/o" + std::to_string(part) + ".txt"; setup_plain_prot(true, f); Bit pad(false, ALICE); p(r, k); PlainCircExec *x = static_cast<PlainCircExec *>(CircuitExecution::circ_exec); uint64_t na = x->num_and(); finalize_plain_prot();
		std::ifstream in(f); std::stringstream ss; ss << in.rdbuf(); Dig d; for (char c : ss.str()) d.u((uint8_t)c); d.u(na); unlink(f.c_str()); return d.s();
	}
	Session s(be - 1, 99); p(r, k); uint64_t tot = s.h ? s.h->io.total : s.p->io.total, g = s.h ? s.h->gates : s.p->gates, na = CircuitExecution::circ_exec->num_and(); Dig d; d.u(tot); d.u(g); d.u(na); return d.s();
}
static void group(const std::string &key, const Prog &p, bool garble) {
	if ((int)(turn++ % parts) != part) return;
	for (int be = 0; be < (garble ? 4 : 2); ++be) {
		std::vector<std::string> o; int n = deep ? 24 : be < 2 ? 8 : 4; for (int k = 0; k < n; ++k) o.push_back(observe(be, p, k, seed * 7919 + turn));
		std::string a = "["; for (size_t i = 0; i < o.size(); ++i) { if (i) a += ","; a += "\"" + o[i] + "\""; } a += "]"; vh::J j("group"); j.s("key", key).i("be", be).raw("runs", a); j.end();
	}
}
// an integer of n bits: bits where mask is set are secret (value drawn), the others public and fixed
struct Shape { int n; std::vector<int> party; std::vector<bool> pub; };
static Shape shape(int n, char how, vh::Rng &r) { Shape s; s.n = n; for (int i = 0; i < n; ++i) { s.party.push_back(how == 's' ? (r.coin() ? ALICE : BOB) : how == 'p' ? PUBLIC : (r.coin() ? PUBLIC : ALICE)); s.pub.push_back(r.coin()); } return s; }
static Integer draw(const Shape &s, const Bytes &v) { std::vector<Bit> b; for (int i = 0; i < s.n; ++i) b.push_back(Bit(s.party[i] == PUBLIC ? (bool)s.pub[i] : (bool)((v[i / 8] >> (i % 8)) & 1), s.party[i])); return Integer(b); }
static Bytes sec(vh::Rng &r, int n, int k) { return boundary(r, n, k < 2 ? k : k == 2 ? 2 : -1); }
static Float drawF(vh::Rng &r, int k, int party) { uint32_t u = (uint32_t)r.next(); if (k == 0) u = 0; if (k == 1) u = 0x7f800000; if (k == 2) u = 0x3f800000; if (k == 3) u = 0x00000001; if (k == 4) u &= 0x80ffffff; if (k == 5) u = 0x7fffffff; float f; memcpy(&f, &u, 4); return Float(f, party); }
static void ints() {
	std::vector<int> W = {1, 2, 5, 8, 31, 32, 33, 64}; if (deep) for (int w : {3, 16, 63, 65, 100, 128}) W.push_back(w);
	std::vector<std::string> ops = {"add", "sub", "mul", "and", "or", "xor", "xore", "neg", "abs", "div", "mod", "geq", "gt", "lt", "leq", "eq", "neq", "popc", "clz", "sel", "if", "swap", "shlby", "shrby"};
	for (auto &op : ops) for (int w : W) for (const char *cfg : {"ss", "sp", "ps", "mm"}) {
		if ((op == "mul" || op == "div" || op == "mod") && w > 40 && !deep && (op == "mod" || cfg[0] != 's' || cfg[1] != 's')) continue;
		vh::Rng fix(seed * 3 + w); Shape X = shape(w, cfg[0], fix), Y = shape(op == "shlby" || op == "shrby" ? std::min(w + 1, 8) : w, cfg[1], fix); bool same = fix.below(6) == 0;
		Prog p = [=](vh::Rng &r, int k) {
			Bytes vx = sec(r, X.n, k), vy = sec(r, Y.n, k / 2); if (k == 3 && X.n == Y.n) vy = vx; Integer a = draw(X, vx), b0 = draw(Y, vy); const Integer &b = same && X.n == Y.n ? a : b0; Bit s(r.coin(), BOB);
			if (op == "add") a + b; if (op == "sub") a - b; if (op == "mul") a * b; if (op == "and") a & b; if (op == "or") a | b; if (op == "xor") a ^ b; if (op == "xore") { Integer t = a; t ^= b; }
			if (op == "neg") -a; if (op == "abs") a.abs(); if (op == "div") a / b; if (op == "mod") a % b; if (op == "geq") a >= b; if (op == "gt") a > b; if (op == "lt") a < b; if (op == "leq") a <= b; if (op == "eq") a == b; if (op == "neq") a != b;
			if (op == "popc") a.hamming_weight(); if (op == "clz") a.leading_zeros(); if (op == "sel") a.select(s, b); if (op == "if") If(s, a, b); if (op == "swap") { Integer p1 = a, p2 = b; emp::swap(s, p1, p2); }
			if (op == "shlby") a << b; if (op == "shrby") a >> b;
		};
		group(op + "/" + std::to_string(w) + "/" + cfg, p, w <= 8);
	}
	for (int w : W) for (int sh : {0, 1, 3, w - 1, w, w + 5}) { vh::Rng fix(seed + w); Shape X = shape(w, "sm"[sh % 2], fix); group("shift/" + std::to_string(w) + "/" + std::to_string(sh), [=](vh::Rng &r, int k) { Integer a = draw(X, sec(r, w, k)); a << (size_t)sh; a >> (size_t)sh; Integer b = a; b.resize(w + sh, true); b.resize(w, false); Integer c = a; c.resize(sh + 1, false); }, w <= 8); }
	for (int w : {8, 12, 16}) for (int pw : {3, 6}) group("modexp/" + std::to_string(w) + "/" + std::to_string(pw), [=](vh::Rng &r, int k) { uint64_t q = 2 + r.below(1 << ((w - 2) / 2)), b = r.below(q); Integer a(w, b, ALICE), m(w, q, BOB), e(pw, k < 2 ? -k : (int64_t)r.next(), ALICE); a.modExp(e, m); }, w <= 8);
	// construction from machine integers and memory, revealing
	for (int w : {1, 7, 8, 31, 32, 64, 70, 128}) for (int party : {ALICE, BOB}) group("io/" + std::to_string(w) + "/" + std::to_string(party), [=](vh::Rng &r, int k) {
		Bytes v = sec(r, w, k); v.resize(32); Integer a(w, (int64_t)(k == 0 ? 0 : k == 1 ? -1 : (int64_t)r.next()), party), b(w, v.data(), party); uint64_t m = k ? r.next() : 0; Integer c(&m, party); a.reveal<std::string>(PUBLIC); b.reveal<uint64_t>(ALICE); c.reveal<int32_t>(BOB); Bytes o(32); b.reveal(o.data(), PUBLIC); Bit x(r.coin(), party), y(r.coin(), party); (x & y) | !x; x ^= y; (x == y).select(x != y, x).reveal<bool>(PUBLIC); }, true);
}
static void floats() {
	std::vector<std::string> ops = {"add", "sub", "mul", "div", "sqr", "sqrt", "sin", "cos", "exp2", "exp", "ln", "log2", "eq", "le", "lt", "neg", "abs", "xor", "and", "if", "reveal"};
	for (auto &op : ops) for (int pub = 0; pub < 3; ++pub) {
		Prog p = [=](vh::Rng &r, int k) {
			Float a = drawF(r, pub == 1 ? 2 : k, pub == 1 ? PUBLIC : ALICE), b = drawF(r, pub == 2 ? 2 : (k * 5) % 7, pub == 2 ? PUBLIC : BOB); Bit s(r.coin(), BOB);
			if (op == "add") a + b; if (op == "sub") a - b; if (op == "mul") a * b; if (op == "div") a / b; if (op == "sqr") a.sqr(); if (op == "sqrt") a.sqrt(); if (op == "sin") a.sin(); if (op == "cos") a.cos(); if (op == "exp2") a.exp2(); if (op == "exp") a.exp(); if (op == "ln") a.ln(); if (op == "log2") a.log2();
			if (op == "eq") a.equal(b); if (op == "le") a.less_equal(b); if (op == "lt") a.less_than(b); if (op == "neg") -a; if (op == "abs") a.abs(); if (op == "xor") a ^ b; if (op == "and") a & b; if (op == "if") a.If(s, b); if (op == "reveal") { a.reveal<double>(PUBLIC); b.reveal<std::string>(ALICE); }
		};
		group("float-" + op + "/" + std::to_string(pub), p, pub == 0);
	}
}
static void sorts() {
	for (int n : {2, 3, 5, 8, 13}) for (int pk = 0; pk < 3; ++pk) for (int d = 0; d < 3; ++d) group("sort/" + std::to_string(n) + "/" + std::to_string(pk) + "/" + std::to_string(d), [=](vh::Rng &r, int k) {
		int w = 6; std::vector<Integer> key, pay; std::vector<Bit> pb; for (int i = 0; i < n; ++i) { int64_t x = k == 0 ? 0 : k == 1 ? i : k == 2 ? -i : (int64_t)r.next(); key.push_back(Integer(w, x, ALICE)); pay.push_back(Integer(3, (int64_t)r.next(), BOB)); pb.push_back(Bit(r.coin(), BOB)); }
		Bit acc = d == 0 ? Bit(true, PUBLIC) : d == 1 ? Bit(false, PUBLIC) : Bit(r.coin(), ALICE); if (pk == 0) emp::sort(key.data(), n, (Bit *)nullptr, acc); if (pk == 1) emp::sort(key.data(), n, pay.data(), acc); if (pk == 2) emp::sort(key.data(), n, pb.data(), acc); }, n <= 5);
}
static void files(const std::string &root) {
	for (const char *nm : {"bristol_format/AES-non-expanded.txt", "bristol_format/sha-1.txt", "bristol_format/adder_32bit.txt"}) { std::string f = root + "/" + nm; FILE *t = fopen(f.c_str(), "r"); if (!t) continue; fclose(t); if (!deep && strstr(nm, "sha-1")) continue; auto bf = std::make_shared<BristolFormat>(f.c_str()); int n1 = bf->n1, n2 = bf->n2, n3 = bf->n3;
		group(std::string("file/") + nm, [=](vh::Rng &r, int k) { std::vector<Bit> a, b, o(n3); for (int i = 0; i < n1; ++i) a.push_back(Bit(k == 0 ? false : k == 1 ? true : r.coin(), ALICE)); for (int i = 0; i < n2; ++i) b.push_back(Bit(k == 0 ? false : k == 1 ? true : r.coin(), BOB)); bf->compute(o.data(), a.data(), b.data()); }, false); }
	for (const char *nm : {"bristol_fashion/aes_128.txt"}) { std::string f = root + "/" + nm; FILE *t = fopen(f.c_str(), "r"); if (!t) continue; fclose(t); auto bf = std::make_shared<BristolFashion>(f.c_str());
		group(std::string("file/") + nm, [=](vh::Rng &r, int k) { std::vector<Bit> a, o(bf->num_output); for (int i = 0; i < bf->num_input; ++i) a.push_back(Bit(k == 0 ? false : k == 1 ? true : r.coin(), i % 2 ? ALICE : BOB)); bf->compute(o.data(), a.data()); }, false); }
}
int main(int c, char **v) {
	// oblivious <seed> <part> <parts> <circuit files> <scratch> [deep]
	seed = strtoull(v[1], 0, 10); part = atoi(v[2]); parts = atoi(v[3]); dir = v[5]; deep = c > 6;
	ints(); floats(); sorts(); files(v[4]);
	return 0;
}
