// Runs the shipped circuit files on structured and random inputs in the clear backend; wires are logged as bytes in the
// bit order users of each file rely on.
#include "vh.h"
#include "emp-tool/emp-tool.h"
using namespace emp;
typedef std::vector<uint8_t> Bytes;
// bit i of the wire vector: msb-first from byte 0 (be), or the same reversed as a whole (rev)
static void toBits(const Bytes &b, bool rev, std::vector<int> &o) { size_t n = 8 * b.size(); for (size_t i = 0; i < n; ++i) { size_t k = rev ? n - 1 - i : i; o.push_back((b[k / 8] >> (7 - k % 8)) & 1); } }
static Bytes fromBits(const std::vector<int> &v, bool rev) { size_t n = v.size(); Bytes b(n / 8, 0); for (size_t i = 0; i < n; ++i) { size_t k = rev ? n - 1 - i : i; if (v[i]) b[k / 8] |= 1 << (7 - k % 8); } return b; }
static Bytes pattern(vh::Rng &r, size_t n, int kind) {
	Bytes b(n, 0);
	switch (kind % 6) { case 0: break; case 1: b.assign(n, 0xff); break; case 2: b[r.below(n)] = 1 << r.below(8); break; case 3: b.assign(n, 0xff); b[r.below(n)] ^= 1 << r.below(8); break; default: r.fill(b.data(), n); }
	return b;
}
static PlainCircExec *pc() { return static_cast<PlainCircExec *>(CircuitExecution::circ_exec); }
template <class F> static std::vector<int> run(const std::vector<int> &in, size_t nout, F f) {
	std::vector<block> w(in.size() + 1), o(nout + 1); for (size_t i = 0; i < in.size(); ++i) w[i] = pc()->private_label(in[i]);
	f(o.data(), w.data()); std::vector<int> r; for (size_t i = 0; i < nout; ++i) r.push_back(pc()->get_value(o[i])); return r;
}
int main(int c, char **v) {
	// shipped <dir of circuit files> <seed> <per-circuit count> <part> <parts>
	std::string dir = v[1]; vh::Rng r(strtoull(v[2], 0, 10) * 31 + atoi(v[4])); int n = atoi(v[3]), part = atoi(v[4]), parts = atoi(v[5]);
	setup_plain_prot(false, "");
	for (int kb : {16, 24, 32}) {
		BristolFashion f((dir + "/bristol_fashion/aes_" + std::to_string(8 * kb) + ".txt").c_str());
		for (int i = part; i < n; i += parts) {
			Bytes k = pattern(r, kb, i < 36 ? i % 6 : 5), p = pattern(r, 16, i < 36 ? i / 6 : 5); std::vector<int> in; toBits(k, true, in); toBits(p, true, in);
			Bytes o = fromBits(run(in, 128, [&](block *o, block *w) { f.compute(o, w); }), true);
			vh::J j("aes"); j.s("file", "fashion").bytes("k", k.data(), k.size()).bytes("p", p.data(), 16).bytes("o", o.data(), o.size()); j.end();
		}
	}
	{
		BristolFormat f((dir + "/bristol_format/AES-non-expanded.txt").c_str());
		for (int i = part; i < n; i += parts) {
			Bytes k = pattern(r, 16, i < 36 ? i % 6 : 5), p = pattern(r, 16, i < 36 ? i / 6 : 5); std::vector<int> in; toBits(p, false, in); toBits(k, false, in);
			Bytes o = fromBits(run(in, 128, [&](block *o, block *w) { f.compute(o, w, w + 128); }), false);
			vh::J j("aes"); j.s("file", "format").bytes("k", k.data(), 16).bytes("p", p.data(), 16).bytes("o", o.data(), o.size()); j.end();
		}
	}
	{
		BristolFormat f1((dir + "/bristol_format/sha-1.txt").c_str()), f2((dir + "/bristol_format/sha-256.txt").c_str()); BristolFashion f3((dir + "/bristol_fashion/sha256.txt").c_str());
		for (int i = part; i < n; i += parts) {
			Bytes m = pattern(r, 64, i < 12 ? i % 6 : 5), h = pattern(r, 32, i < 36 ? i / 6 : 5); std::vector<int> in; toBits(m, false, in);
			Bytes o1 = fromBits(run(in, 160, [&](block *o, block *w) { f1.compute(o, w, w + 512); }), false);
			Bytes o2 = fromBits(run(in, 256, [&](block *o, block *w) { f2.compute(o, w, w + 512); }), false);
			std::vector<int> in3; toBits(m, true, in3); toBits(h, true, in3);
			Bytes o3 = fromBits(run(in3, 256, [&](block *o, block *w) { f3.compute(o, w); }), true);
			{ vh::J j("sha1"); j.bytes("m", m.data(), 64).bytes("o", o1.data(), o1.size()); j.end(); }
			{ vh::J j("sha256"); j.bytes("m", m.data(), 64).bytes("o", o2.data(), o2.size()); j.end(); }
			{ vh::J j("sha256h"); j.bytes("m", m.data(), 64).bytes("h", h.data(), 32).bytes("o", o3.data(), o3.size()); j.end(); }
		}
	}
	{
		BristolFormat f((dir + "/bristol_format/adder_32bit.txt").c_str());
		// carries generated at i, propagated up to j, by both forms of propagation; and random pairs
		std::vector<std::pair<uint32_t, uint32_t>> t;
		for (int i = 0; i < 32; ++i) for (int j = i; j < 32; ++j) {
			uint32_t run = (uint32_t)(((1ull << (j + 1)) - 1) & ~((1ull << i) - 1)), mix = (uint32_t)r.next() & run, one = 1u << i;
			if (j == i) { t.push_back({one, one}); t.push_back({one, 0}); t.push_back({0, one}); }
			else t.push_back({(mix & ~one) | one, ((run ^ mix) & ~one) | one}); // generate at i, propagate i+1..j
		}
		for (int i = 0; i < 5 * n; ++i) t.push_back({(uint32_t)r.next(), (uint32_t)r.next()});
		t.push_back({0, 0}); t.push_back({~0u, 1}); t.push_back({1, ~0u}); t.push_back({~0u, ~0u});
		for (size_t i = part; i < t.size(); i += parts) {
			std::vector<int> in; for (int k = 0; k < 32; ++k) in.push_back((t[i].first >> k) & 1); for (int k = 0; k < 32; ++k) in.push_back((t[i].second >> k) & 1);
			auto o = run(in, 33, [&](block *o, block *w) { f.compute(o, w, w + 32); }); uint64_t s = 0; for (int k = 0; k < 33; ++k) s |= (uint64_t)o[k] << k;
			vh::J j("add"); std::vector<int> q = {(int)(t[i].first & 0xffff), (int)(t[i].first >> 16), (int)(t[i].second & 0xffff), (int)(t[i].second >> 16), (int)(s & 0xffff), (int)((s >> 16) & 0xffff), (int)(s >> 32)}; j.ints("q", q); j.end();
		}
	}
	return 0;
}
