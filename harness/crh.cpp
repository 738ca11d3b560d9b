#include "vh.h"
#include "emp-tool/utils/crh.h"
#include "emp-tool/utils/ccrh.h"
#include "emp-tool/utils/tccrh.h"
using namespace emp;
using namespace vh;
static Rng *R;
static uint64_t idOf(int k) {
	Rng &r = *R;
	switch (k) { case 0: return r.below(4); case 1: return (1ULL << 32) - 1 - r.below(5); case 2: return ~0ULL - r.below(6);
		case 3: return (1ULL << 31) - r.below(5); case 4: return (1ULL << 63) - r.below(5); default: return r.next(); }
}
static void key(uint8_t *k) { if (R->below(5) == 0) memset(k, R->coin() ? 255 : 0, 16); else R->fill(k, 16); }
static block ld(const void *p) { return _mm_loadu_si128((const block *)p); }
static const char *NAME[3] = {"crh", "ccrh", "tccrh"};
static void emit(int o, size_t n, uint64_t id, const std::vector<uint8_t> &in, const void *out, bool ok) {
	J(NAME[o]).i("n", n).u64("id", id).bytes("in", in.data(), in.size()).bytes("out", out, 16 * n).b("ok", ok).end();
}
struct Obj { int o; CRH *c = nullptr; CCRH *cc = nullptr; TCCRH *t = nullptr; ~Obj() { delete c; delete cc; delete t; } };
template <int n> void tmpl(Obj &b, uint64_t id, bool alias) {
	GBuf in(16 * n, 0, R->coin()), out(16 * n, 0, R->coin()); R->fill(in.p, 16 * n); R->fill(out.p, 16 * n);
	std::vector<uint8_t> vin(in.p, in.p + 16 * n); block *I = (block *)in.p, *O = alias ? I : (block *)out.p;
	if (b.o == 0) b.c->H<n>(O, I); else if (b.o == 1) b.cc->H<n>(O, I); else b.t->H<n>(O, I, id);
	bool ok = in.intact() && out.intact() && (alias || !memcmp(in.p, vin.data(), 16 * n));
	emit(b.o, n, id, vin, O, ok);
}
int main(int argc, char **argv) {
	Rng r(strtoull(argv[2], 0, 10)); R = &r;
	for (auto &scn : readLines(argv[1])) {
		Obj b;
		for (size_t q = 0; q < scn.size(); ++q) {
			const Val &v = scn[q]; const std::string &op = v["op"].s; size_t n = v["n"].n; uint64_t id = idOf(v["id"].n); bool alias = v["alias"].n;
			if (op == "new") {
				uint8_t k[16]; key(k); b.o = v["o"].n; bool def = v["k"].n == 0; if (def) memset(k, 0, 16);
				if (b.o == 0) b.c = def ? new CRH() : new CRH(ld(k)); else if (b.o == 1) b.cc = def ? new CCRH() : new CCRH(ld(k)); else b.t = def ? new TCCRH() : new TCCRH(ld(k));
				J("key").bytes("key", k, 16).b("ok", true).end();
			} else if (op == "rekey") {
				uint8_t k[16]; key(k);
				if (b.o == 0) b.c->aes_set_key(ld(k)); else if (b.o == 1) b.cc->aes_set_key(ld(k)); else b.t->aes_set_key(ld(k));
				J("key").bytes("key", k, 16).b("ok", true).end();
			} else if (op == "one") {
				std::vector<uint8_t> in(16); R->fill(in.data(), 16); if (R->below(8) == 0) memset(in.data(), 0, 16);
				block x = ld(in.data()), y; if (b.o == 0) y = b.c->H(x); else if (b.o == 1) y = b.cc->H(x); else y = b.t->H(x, id);
				emit(b.o, 1, id, in, &y, true);
			} else if (op == "tmpl") {
				switch (n) { case 1: tmpl<1>(b, id, alias); break; case 2: tmpl<2>(b, id, alias); break; case 3: tmpl<3>(b, id, alias); break; case 4: tmpl<4>(b, id, alias); break;
					case 7: tmpl<7>(b, id, alias); break; case 8: tmpl<8>(b, id, alias); break; case 9: tmpl<9>(b, id, alias); break; case 12: tmpl<12>(b, id, alias); break;
					case 16: tmpl<16>(b, id, alias); break; default: tmpl<17>(b, id, alias); }
			} else if (op == "arr") {
				GBuf in(16 * n, 0, r.coin()), out(16 * n, 0, r.coin()), sc(16 * n, 0, r.coin()); r.fill(in.p, 16 * n); r.fill(out.p, 16 * n);
				std::vector<uint8_t> vin(in.p, in.p + 16 * n); block *I = (block *)in.p, *O = alias ? I : (block *)out.p, *S = v["scratch"].n ? (block *)sc.p : nullptr;
				if (b.o == 0) b.c->Hn(O, I, n, S); else if (b.o == 1) b.cc->Hn(O, I, n, S); else b.t->Hn(O, I, id, n, S);
				bool ok = in.intact() && out.intact() && sc.intact() && (alias || !memcmp(in.p, vin.data(), 16 * n));
				emit(b.o, n, id, vin, O, ok);
			} else if (op == "bulk") { // one array call against as many single calls
				GBuf out(16 * n, 0, true), in(16 * n, 0, true); r.fill(in.p, 16 * n); std::vector<uint8_t> vin(in.p, in.p + 16 * n);
				block *I = (block *)in.p, *O = alias ? I : (block *)out.p; long long bad = -1;
				if (b.o == 0) b.c->Hn(O, I, (int)n); else if (b.o == 1) b.cc->Hn(O, I, (int)n); else b.t->Hn(O, I, id, (int)n);
				for (size_t i = 0; i < n && bad < 0; ++i) { block x = ld(&vin[16 * i]), y = b.o == 0 ? b.c->H(x) : b.o == 1 ? b.cc->H(x) : b.t->H(x, id + i); if (memcmp(&y, O + i, 16)) bad = (long long)i; }
				bool ok = in.intact() && out.intact() && bad < 0 && (alias || !memcmp(in.p, vin.data(), 16 * n));
				size_t at = n - 3; std::vector<uint8_t> tail(vin.begin() + 16 * at, vin.end());
				emit(b.o, 3, id + at, tail, O + at, ok);
			} else if (op == "sigma") {
				uint8_t k[16]; R->fill(k, 16); if (R->below(4) == 0) { memset(k, 0, 16); k[R->below(16)] = 1 << R->below(8); }
				block y = sigma(ld(k)); J("sigma").bytes("in", k, 16).bytes("out", &y, 16).b("ok", true).end();
			}
		}
	}
}
