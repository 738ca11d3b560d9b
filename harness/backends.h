// Backends for programs written against Bit/Integer/Float: the clear backend, and both parties of a garbling scheme run in
// lockstep (a label is an index into a table of generator/evaluator label pairs).
#ifndef BACKENDS_H
#define BACKENDS_H
#include "vh.h"
#include "emp-tool/emp-tool.h"
namespace bk {
using namespace emp;
struct VecIO : public IOChannel<VecIO> {
	std::vector<uint8_t> d; size_t pos = 0; uint64_t total = 0;
	void send_data_internal(const void *p, size_t n) { if (pos == d.size()) d.clear(), pos = 0; total += n; d.insert(d.end(), (const uint8_t *)p, (const uint8_t *)p + n); }
	void recv_data_internal(void *p, size_t n) { if (pos + n > d.size()) { memset(p, 0, n); return; } memcpy(p, &d[pos], n); pos += n; }
	void flush() {}
};
inline block idx(uint64_t i) { block b = zero_block; memcpy(&b, &i, 8); return b; }
inline uint64_t ix(const block &b) { uint64_t i; memcpy(&i, &b, 8); return i; }
template <class G, class E, bool PF> struct Twin : public CircuitExecution, public ProtocolExecution {
	VecIO io; G *g; E *e; std::vector<std::pair<block, block>> w; vh::Rng r; bool bad = false; uint64_t c[2]; uint64_t gates = 0;
	explicit Twin(uint64_t seed) : r(seed) { g = new G(&io); e = new E(&io); for (int i = 0; i < 2; ++i) c[i] = put(g->public_label(i), e->public_label(i)); }
	~Twin() { delete g; delete e; }
	uint64_t put(const block &a, const block &b) { w.push_back(std::make_pair(a, b)); return w.size() - 1; }
	block and_gate(const block &a, const block &b) override { ++gates; auto x = w[ix(a)], y = w[ix(b)]; block p = g->and_gate(x.first, y.first), q = e->and_gate(x.second, y.second); return idx(put(p, q)); }
	block xor_gate(const block &a, const block &b) override { ++gates; auto x = w[ix(a)], y = w[ix(b)]; return idx(put(g->xor_gate(x.first, y.first), e->xor_gate(x.second, y.second))); }
	block not_gate(const block &a) override { ++gates; auto x = w[ix(a)]; return idx(put(g->not_gate(x.first), e->not_gate(x.second))); }
	block public_label(bool b) override { return idx(c[b]); }
	uint64_t num_and() override { return g->num_and(); }
	void feed(block *l, int party, const bool *b, int n) override {
		for (int i = 0; i < n; ++i) {
			if (party == PUBLIC) { l[i] = public_label(b[i]); continue; }
			block x; uint8_t t[16]; r.fill(t, 16); if (PF) t[0] &= 0xfe; memcpy(&x, t, 16); l[i] = idx(put(x, b[i] ? x ^ g->delta : x));
		}
	}
	void reveal(bool *o, int, const block *l, int n) override {
		for (int i = 0; i < n; ++i) { auto x = w[ix(l[i])]; block d = x.first ^ x.second; if (!memcmp(&d, &zero_block, 16)) o[i] = false; else { o[i] = true; if (memcmp(&d, &g->delta, 16)) bad = true; } }
	}
};
typedef Twin<HalfGateGen<VecIO>, HalfGateEva<VecIO>, false> TwinHG;
typedef Twin<PrivacyFreeGen<VecIO>, PrivacyFreeEva<VecIO>, true> TwinPF;
// 128 evaluations at once, one per bit of a label: used to search for arguments worth recording
struct Lanes : public CircuitExecution, public ProtocolExecution {
	block one = makeBlock(~0ULL, ~0ULL); uint64_t ands = 0;
	Lanes() { CircuitExecution::circ_exec = this; ProtocolExecution::prot_exec = this; }
	~Lanes() { CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr; }
	block and_gate(const block &a, const block &b) override { ++ands; return a & b; }
	block xor_gate(const block &a, const block &b) override { return a ^ b; }
	block not_gate(const block &a) override { return a ^ one; }
	block public_label(bool b) override { return b ? one : zero_block; }
	uint64_t num_and() override { return ands; }
	void feed(block *l, int, const bool *b, int n) override { for (int i = 0; i < n; ++i) l[i] = public_label(b[i]); }
	void reveal(bool *o, int, const block *l, int n) override { for (int i = 0; i < n; ++i) o[i] = getLSB(l[i]); }
	// bit i of 128 values as one label, and back; rows are 64-bit words, bits taken from word k of each value
	static block pick(const uint64_t *v, int i) { uint64_t w[2] = {0, 0}; for (int j = 0; j < 128; ++j) w[j >> 6] |= ((v[j] >> i) & 1) << (j & 63); return makeBlock(w[1], w[0]); }
	static void add(uint64_t *v, int i, const block &b) { uint64_t w[2]; memcpy(w, &b, 16); for (int j = 0; j < 128; ++j) v[j] |= ((w[j >> 6] >> (j & 63)) & 1) << i; }
};
// the arguments with the highest scores seen
struct Best {
	size_t cap; std::vector<std::pair<double, std::pair<uint64_t, uint64_t>>> v; explicit Best(size_t c) : cap(c) {}
	void offer(double s, uint64_t x, uint64_t y) { if (v.size() == cap) { size_t m = 0; for (size_t i = 1; i < v.size(); ++i) if (v[i].first < v[m].first) m = i; if (!(s > v[m].first)) return; v[m] = {s, {x, y}}; } else v.push_back({s, {x, y}}); }
};
// Session: kind 0 clear, 1 half gates, 2 privacy-free
struct Session {
	int kind; TwinHG *h = nullptr; TwinPF *p = nullptr;
	Session(int kind, uint64_t seed) : kind(kind) {
		if (kind == 1) { h = new TwinHG(seed); CircuitExecution::circ_exec = h; ProtocolExecution::prot_exec = h; }
		else if (kind == 2) { p = new TwinPF(seed); CircuitExecution::circ_exec = p; ProtocolExecution::prot_exec = p; }
		else setup_plain_prot(false, "");
	}
	bool bad() { return h ? h->bad : p ? p->bad : false; }
	~Session() { if (kind == 0) finalize_plain_prot(); delete h; delete p; CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr; }
};
// n bits of value (little-endian bytes) as an integer whose bits are secret ('s'), public ('p') or a mixture ('m')
inline Integer make(const std::vector<uint8_t> &v, int n, char how, vh::Rng &r) {
	std::vector<Bit> b;
	for (int i = 0; i < n; ++i) {
		bool x = (v[i / 8] >> (i % 8)) & 1; int party = how == 'p' ? PUBLIC : how == 's' ? (i % 2 ? ALICE : BOB) : (r.coin() ? PUBLIC : ALICE);
		b.push_back(Bit(x, party));
	}
	return Integer(b);
}
inline std::vector<uint8_t> open(const Integer &x) {
	std::vector<uint8_t> o((x.bits.size() + 7) / 8, 0);
	for (size_t i = 0; i < x.bits.size(); ++i) { bool b; ProtocolExecution::prot_exec->reveal(&b, PUBLIC, &x.bits[i].bit, 1); if (b) o[i / 8] |= 1 << (i % 8); }
	return o;
}
inline bool openBit(const Bit &b) { bool x; ProtocolExecution::prot_exec->reveal(&x, PUBLIC, &b.bit, 1); return x; }
inline std::vector<uint8_t> val(uint64_t v, int n) { std::vector<uint8_t> o((n + 7) / 8, 0); for (int i = 0; i < n && i < 64; ++i) if ((v >> i) & 1) o[i / 8] |= 1 << (i % 8); return o; }
inline uint64_t num(const std::vector<uint8_t> &b) { uint64_t x = 0; for (size_t i = 0; i < b.size() && i < 8; ++i) x |= (uint64_t)b[i] << (8 * i); return x; }
inline std::vector<uint8_t> boundary(vh::Rng &r, int n, int pat = -1) {
	std::vector<uint8_t> o((n + 7) / 8, 0); auto set = [&](int i, bool v) { if (v) o[i / 8] |= 1 << (i % 8); else o[i / 8] &= ~(1 << (i % 8)); };
	int k = pat >= 0 ? pat % 14 : (int)r.below(14), p = (int)r.below(n);
	for (int i = 0; i < n; ++i) {
		bool b = false;
		switch (k) {
		case 0: b = false; break; case 1: b = true; break; case 2: b = i == 0; break; case 3: b = i == n - 1; break; case 4: b = i < n - 1; break;
		case 5: b = i == p; break; case 6: b = i < p; break; case 7: b = i >= p; break; case 8: b = i % 2; break; case 9: b = i != p; break;
		case 10: b = i < n / 2 && r.coin(); break; default: b = r.coin();
		}
		set(i, b);
	}
	return o;
}
// a value close to another: equal, one bit off, complement, successor, predecessor, negation
inline std::vector<uint8_t> related(vh::Rng &r, const std::vector<uint8_t> &x, int n) {
	std::vector<uint8_t> o = x; int k = (int)r.below(6), p = (int)r.below(n);
	if (k == 1) o[p / 8] ^= 1 << (p % 8);
	if (k == 2 || k == 5) for (auto &b : o) b = ~b;
	if (k == 3 || k == 5) for (auto &b : o) if (++b) break;
	if (k == 4) for (auto &b : o) if (b--) break;
	if (n % 8) o[n / 8] &= (1 << (n % 8)) - 1;
	return o;
}
}
#endif
