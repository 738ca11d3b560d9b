// Runs a gate program on a generator and an evaluator side by side over an in-memory channel and logs, for every
// operation, both labels, the bytes that crossed the channel and both AND counters.
#include "vh.h"
#include "emp-tool/emp-tool.h"
using namespace emp;
using vh::Val;
struct VecIO : public IOChannel<VecIO> {
	std::vector<uint8_t> d; size_t pos = 0; bool under = false, keep = true; uint64_t total = 0;
	void trim() { if (!keep && pos == d.size()) d.clear(), pos = 0; }
	void send_data_internal(const void *p, size_t n) { total += n; d.insert(d.end(), (const uint8_t *)p, (const uint8_t *)p + n); }
	void recv_data_internal(void *p, size_t n) { if (pos + n > d.size()) { under = true; memset(p, 0, n); return; } memcpy(p, &d[pos], n); pos += n; }
	void flush() {}
};
static std::string bb(const block &b) { uint8_t x[16]; memcpy(x, &b, 16); return vh::J::arr(x, 16); }
// repositioning the tweak counter, where the objects offer it
template <class G> static auto seek(G &g, uint64_t at, int) -> decltype(g.mitccrh.renew_ks(at), bool()) { g.mitccrh.renew_ks(2 * at); return true; }
template <class G> static auto seek(G &g, uint64_t at, long) -> decltype(g.gid, bool()) { g.gid = at; return true; }
template <class G> static bool seek(G &, uint64_t, ...) { return false; }
// the hash start point is the third block the half-gates generator sends
static block startOf(const VecIO &io) { block b = zero_block; if (io.d.size() >= 48) memcpy(&b, &io.d[32], 16); return b; }

static block special(int kind, const block &delta, vh::Rng &r, bool even) {
	block b; uint8_t x[16]; r.fill(x, 16); memcpy(&b, x, 16);
	switch (kind) { case 1: b = zero_block; break; case 2: b = delta; break; case 3: memset(&b, 0xff, 16); break; case 4: b = b & makeBlock(-1, ~1ULL); break; case 5: b = b | makeBlock(0, 1); break; }
	if (even) b = b & makeBlock(-1, ~1ULL);
	return b;
}
template <class Gen, class Eva> static void play(const Val &s, uint64_t seed, bool pf, bool tables) {
	vh::Rng r(seed); VecIO io;
	Gen *g = new Gen(&io); size_t afterGen = io.d.size();
	Eva *e = new Eva(&io);
	{
		vh::J j("new"); j.s("sch", pf ? "pf" : "hg").raw("delta", bb(g->delta)).i("tx", (long long)afterGen).i("rx", (long long)io.pos).raw("sent", vh::J::arr(io.d.data(), io.d.size()))
			.raw("start", bb(startOf(io))).raw("c0", bb(g->public_label(false))).raw("c1", bb(g->public_label(true))).i("ng", (long long)g->num_and()).i("ne", (long long)e->num_and()); j.end();
	}
	std::vector<block> G, E; std::vector<int> V;
	VecIO io2; Gen *g2 = nullptr; Eva *e2 = nullptr;   // another run of the same process
	const Val &ops = s["ops"];
	for (size_t i = 0; i < ops.size(); ++i) {
		const Val &o = ops[i]; std::string op = o["op"].s; int a = (int)o["a"].n, b = (int)o["b"].n;
		if (i % 3 == 1) { if (!g2) { g2 = new Gen(&io2); e2 = new Eva(&io2); } block p = g2->public_label(true), q = special(4, g2->delta, r, true), x = g2->and_gate(p, q), y = e2->and_gate(e2->public_label(true), q ^ g2->delta); g2->not_gate(x); e2->not_gate(y); if (i % 9 == 4) { g2->set_delta(q); e2->set_delta(); } }
		size_t t0 = io.d.size(), r0 = io.pos; block go = zero_block, eo = zero_block; bool lab = true; vh::J j(op.c_str());
		if (op == "in") { go = special(b, g->delta, r, pf); if (b == 6 && !G.empty()) go = G[r.below(G.size())]; eo = a ? go ^ g->delta : go; }
		else if (op == "const") { go = g->public_label(a); eo = e->public_label(a); }
		else if (op == "xor") { go = g->xor_gate(G[a], G[b]); eo = e->xor_gate(E[a], E[b]); }
		else if (op == "and") { go = g->and_gate(G[a], G[b]); eo = e->and_gate(E[a], E[b]); }
		else if (op == "not") { go = g->not_gate(G[a]); eo = e->not_gate(E[a]); }
		else if (op == "redelta") { uint8_t x[16]; r.fill(x, 16); if (a) x[0] &= 0xfe; block d; memcpy(&d, x, 16); g->set_delta(d); e->set_delta(); G.clear(); E.clear(); lab = false;
			j.raw("asked", bb(d)).raw("delta", bb(g->delta)).raw("c0", bb(g->public_label(false))).raw("c1", bb(g->public_label(true))).raw("sent", vh::J::arr(&io.d[t0], io.d.size() - t0)); }
		else if (op == "seek") { uint64_t at = a == 0 ? 126 : a == 1 ? 32766 : a == 2 ? (1ull << 31) - 2 : a == 3 ? (1ull << 32) - 2 : (1ull << 33) - 1; bool ok = seek(*g, at, 0) && seek(*e, at, 0); lab = false; if (!ok) continue;
			j.u64("at", 2 * at); }
		if (lab) { G.push_back(go); E.push_back(eo); j.i("a", a).i("b", b).raw("g", bb(go)).raw("v", bb(eo)); }
		j.i("tx", (long long)(io.d.size() - t0)).i("rx", (long long)(io.pos - r0)).i("ng", (long long)(g->num_and() & 0x7fffffff)).i("ne", (long long)(e->num_and() & 0x7fffffff));
		if (op == "and") j.raw("tab", tables ? vh::J::arr(&io.d[t0], io.d.size() - t0) : "[]");
		j.end();
	}
	vh::J j("end"); j.b("under", io.under).i("left", (long long)(io.d.size() - io.pos)); j.end();
	delete g; delete e; delete g2; delete e2;
}
// A long run: count AND gates, log only those whose index is listed; the others in between are executed silently.
template <class Gen, class Eva> static void longRun(bool pf, uint64_t n, std::vector<uint64_t> at, uint64_t seed) {
	vh::Rng r(seed); VecIO io;
	Gen *g = new Gen(&io); Eva *e = new Eva(&io);
	block x = special(4, g->delta, r, pf), y = special(4, g->delta, r, pf); block ex = x ^ g->delta, ey = y;
	{
		vh::J j("new"); j.s("sch", pf ? "pf" : "hg").raw("delta", bb(g->delta)).i("tx", (long long)io.d.size()).i("rx", (long long)io.pos).raw("sent", vh::J::arr(io.d.data(), io.d.size()))
			.raw("start", bb(startOf(io))).raw("c0", bb(g->public_label(false))).raw("c1", bb(g->public_label(true))).i("ng", 0).i("ne", 0); j.end();
	}
	io.keep = false; size_t k = 0; uint64_t bad = 0, cbad = 0;
	for (uint64_t i = 0; i < n; ++i) {
		bool log = k < at.size() && at[k] == i;
		io.trim(); uint64_t t0 = io.total; block gx = x, gy = y, vx = ex, vy = ey;
		block z = g->and_gate(x, y), ez = e->and_gate(ex, ey);
		if (g->num_and() != i + 1 || e->num_and() != i + 1) ++cbad;
		if (log) {
			vh::J j("far"); j.u64("idx", i).raw("ga", bb(gx)).raw("gb", bb(gy)).raw("va", bb(vx)).raw("vb", bb(vy)).raw("g", bb(z)).raw("v", bb(ez)).i("tx", (long long)(io.total - t0))
				.raw("tab", vh::J::arr(io.d.data() + io.d.size() - (io.total - t0), io.total - t0)).u64("ng", g->num_and()).u64("ne", e->num_and()); j.end();
			++k;
		}
		// next operands: mix so that labels and values keep changing
		x = z ^ y; ex = ez ^ ey; y = g->not_gate(z); ey = e->not_gate(ez);
		block d1 = x ^ ex, d2 = y ^ ey;
		if ((memcmp(&d1, &zero_block, 16) && memcmp(&d1, &g->delta, 16)) || (memcmp(&d2, &zero_block, 16) && memcmp(&d2, &g->delta, 16))) ++bad;
	}
	vh::J j("farend"); j.u64("n", n).u64("ng", g->num_and()).u64("ne", e->num_and()).i("bad", (long long)bad).i("cbad", (long long)cbad); j.end();
	delete g; delete e;
}
int main(int c, char **v) {
	// gc <scenarios> <seed> hg|pf [tables]   |   gc long <seed> hg|pf <n> idx...
	bool pf = !strcmp(v[3], "pf");
	if (!strcmp(v[1], "long")) {
		std::vector<uint64_t> at; for (int i = 5; i < c; ++i) at.push_back(strtoull(v[i], 0, 10));
		if (pf) longRun<PrivacyFreeGen<VecIO>, PrivacyFreeEva<VecIO>>(true, strtoull(v[4], 0, 10), at, strtoull(v[2], 0, 10));
		else longRun<HalfGateGen<VecIO>, HalfGateEva<VecIO>>(false, strtoull(v[4], 0, 10), at, strtoull(v[2], 0, 10));
		return 0;
	}
	auto sc = vh::readLines(v[1]); uint64_t seed = strtoull(v[2], 0, 10), k = 0; bool tables = c > 4;
	for (auto &s : sc) {
		++k;
		if (pf) play<PrivacyFreeGen<VecIO>, PrivacyFreeEva<VecIO>>(s, seed * 10007 + k, true, tables);
		else play<HalfGateGen<VecIO>, HalfGateEva<VecIO>>(s, seed * 10007 + k, false, tables);
	}
	return 0;
}
