#include "vh.h"
#include "emp-tool/utils/mitccrh.h"
using namespace emp;
using namespace vh;
static Rng *R;
static block ld(const void *p) { return _mm_loadu_si128((const block *)p); }
static void blk(uint8_t *k) { if (R->below(6) == 0) memset(k, R->coin() ? 255 : 0, 16); else R->fill(k, 16); }
// two objects side by side: "gen" hashes, "eva" follows with the same shapes; both are logged as separate histories
template <int K, int H, class M> void call(M &m, bool cir, const std::vector<uint8_t> &in, std::string &log) {
	GBuf b(16 * K * H, 0, R->coin()); memcpy(b.p, in.data(), 16 * K * H);
	if (cir) m.template hash_cir<K, H>((block *)b.p); else m.template hash<K, H>((block *)b.p);
	J("hash").i("k", K).i("h", H).b("cir", cir).bytes("in", in.data(), 16 * K * H).bytes("out", b.p, 16 * K * H).b("ok", b.intact()).end();
}
template <class M, int K> void callH(M &m, int h, bool cir, const std::vector<uint8_t> &in) {
	std::string s;
	switch (h) { case 1: call<K, 1>(m, cir, in, s); break; case 2: call<K, 2>(m, cir, in, s); break; case 3: call<K, 3>(m, cir, in, s); break; default: call<K, 4>(m, cir, in, s); }
}
template <int B> void run(const Val &scn) {
	struct { uint8_t pre[64]; MITCCRH<B> m; uint8_t post[64]; } *o = (decltype(o))aligned_alloc(64, (sizeof(*o) + 63) / 64 * 64);
	memset((void *)o, 0x5C, sizeof(*o)); MITCCRH<B> *m = new (&o->m) MITCCRH<B>();
	uint8_t s[16]; uint64_t at = 0; MITCCRH<B> other; other.setS(makeBlock(7, 9)); block ob[4] = {zero_block, zero_block, zero_block, zero_block};
	for (size_t q = 0; q < scn.size(); ++q) {
		const Val &v = scn[q]; const std::string &op = v["op"].s;
		if (q % 2) { other.template hash<1, 2>(ob); if (q % 3 == 0) other.renew_ks(q); } // another object used in between
		if (op == "new") { blk(s); m->setS(ld(s)); J("new").i("B", B).bytes("s", s, 16).b("ok", true).end(); }
		else if (op == "setS") { blk(s); m->setS(ld(s)); J("setS").bytes("s", s, 16).b("ok", true).end(); }
		else if (op == "renew") {
			static const uint64_t g[] = {0, 5, (1ULL << 31) - 3, (1ULL << 32) - 3, (1ULL << 63) - 3, ~0ULL - 2, 1ULL << 40};
			uint64_t x = v["g"].n < 7 ? g[v["g"].n] : v["g"].n == 7 ? at : v["g"].n == 8 ? at + B : v["g"].n == 9 ? at - B : at + 1; at = x; // absolute, or relative to the last position asked for
			m->renew_ks(x); J("renew").u64("g", x).b("ok", true).end();
		} else if (op == "renewhere") { m->renew_ks(); J("renewhere").b("ok", true).end(); }
		else {
			int k = v["k"].n, h = v["h"].n; bool cir = v["cir"].n; if (k > B) k = B;
			std::vector<uint8_t> in(16 * k * h); R->fill(in.data(), in.size());
			switch (k) { case 1: callH<MITCCRH<B>, 1>(*m, h, cir, in); break; case 2: callH<MITCCRH<B>, 2>(*m, h, cir, in); break;
				case 4: callH<MITCCRH<B>, 4>(*m, h, cir, in); break; default: callH<MITCCRH<B>, (B < 8 ? B : 8)>(*m, h, cir, in); }
		}
	}
	free(o);
}
int main(int argc, char **argv) {
	Rng r(strtoull(argv[2], 0, 10)); R = &r;
	for (auto &scn : readLines(argv[1])) {
		int b = scn[0]["b"].n;
		if (b == 4) run<4>(scn); else if (b == 16) run<16>(scn); else run<8>(scn);
	}
}
