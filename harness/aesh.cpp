#include "vh.h"
#include "emp-tool/utils/prp.h"
#include "emp-tool/utils/aes_opt.h"
using namespace emp;
using namespace vh;
static void key(Rng &r, uint8_t *k) {
	switch (r.below(6)) { case 0: memset(k, 0, 16); break; case 1: memset(k, 255, 16); break;
		case 2: memset(k, 0, 16); k[r.below(16)] = 1 << r.below(8); break; default: r.fill(k, 16); }
}
static block ld(const void *p) { return _mm_loadu_si128((const block *)p); }
template <int K, int M> void para(Rng &r) {
	GBuf keys(16 * K, 0, true), in(16 * K * M, 0, true);
	for (int i = 0; i < K; ++i) key(r, keys.p + 16 * i);
	r.fill(in.p, 16 * K * M);
	std::vector<uint8_t> kin(keys.p, keys.p + 16 * K), pin(in.p, in.p + 16 * K * M);
	GBuf ks(sizeof(AES_KEY) * K, 0, false);
	AES_opt_key_schedule<K>((block *)keys.p, (AES_KEY *)ks.p);
	ParaEnc<K, M>((block *)in.p, (AES_KEY *)ks.p);
	bool ok = ks.intact() && in.intact() && !memcmp(kin.data(), keys.p, 16 * K);
	// the schedule must also drive the single-key routine
	for (int i = 0; i < K; ++i) {
		block b[3]; for (auto &x : b) x = ld(pin.data());
		AES_ecb_encrypt_blks(b, 1, &((AES_KEY *)ks.p)[i]);
		if (i == 0) ok = ok && !memcmp(&b[0], in.p, 16);
	}
	J("para").i("k", K).i("m", M).bytes("keys", kin.data(), kin.size()).bytes("in", pin.data(), pin.size()).bytes("out", in.p, 16 * K * M).b("ok", ok).end();
}
#define PR(K) {para<K, 1>, para<K, 2>, para<K, 3>, para<K, 4>, para<K, 5>, para<K, 6>, para<K, 7>, para<K, 8>}
template <int Nn> void encT(GBuf &b, AES_KEY *k) { AES_ecb_encrypt_blks<Nn>((block *)b.p, k); }
int main(int argc, char **argv) {
	Rng r(strtoull(argv[2], 0, 10));
	for (auto &scn : readLines(argv[1])) {
		PRP *p = nullptr;
		for (size_t q = 0; q < scn.size(); ++q) {
			const Val &o = scn[q]; const std::string &op = o["op"].s; size_t n = o["n"].n;
			uint8_t k[16]; key(r, k);
			if (op == "new") {
				delete p; GBuf kb(16 + 0, n == 2 ? r.below(16) : 0, n == 2 && r.coin()); memcpy(kb.p, k, 16);
				if (n == 0) { p = new PRP(); memset(k, 0, 16); }
				else if (n == 1) { p = new PRP(ld(k)); }
				else if (n == 2) { p = new PRP((const char *)kb.p); }
				else { p = new PRP((const char *)nullptr); memset(k, 0, 16); }
				J("setkey").bytes("key", k, 16).b("ok", true).end();
			} else if (op == "rekey") {
				p->aes_set_key(ld(k)); J("setkey").bytes("key", k, 16).b("ok", true).end();
			} else if (op == "perm") {
				GBuf b(16 * n, 0, r.coin()); r.fill(b.p, 16 * n); std::vector<uint8_t> in(b.p, b.p + 16 * n);
				p->permute_block((block *)b.p, n);
				J("perm").i("n", n).bytes("in", in.data(), in.size()).bytes("out", b.p, 16 * n).b("ok", b.intact()).end();
			} else if (op == "enc" || op == "dec" || op == "encT") {
				GBuf ks(sizeof(AES_KEY), 0), b(16 * n, 0, r.coin()); r.fill(b.p, 16 * n); std::vector<uint8_t> in(b.p, b.p + 16 * n);
				AES_KEY *ak = (AES_KEY *)ks.p;
				if (op == "dec") {
					if (r.coin()) AES_set_decrypt_key(ld(k), ak); else { AES_KEY t; AES_set_encrypt_key(ld(k), &t); ak->rounds = 77; AES_set_decrypt_key_fast(ak, &t); if (ak->rounds == 77) ak->rounds = 10; }
					AES_ecb_decrypt_blks((block *)b.p, n, ak);
				} else {
					AES_set_encrypt_key(ld(k), ak);
					if (op == "enc") AES_ecb_encrypt_blks((block *)b.p, n, ak);
					else switch (n) { case 1: encT<1>(b, ak); break; case 2: encT<2>(b, ak); break; case 3: encT<3>(b, ak); break; case 4: encT<4>(b, ak); break;
						case 5: encT<5>(b, ak); break; case 7: encT<7>(b, ak); break; case 8: encT<8>(b, ak); break; case 9: encT<9>(b, ak); break; default: encT<16>(b, ak); }
				}
				J(op == "dec" ? "dec" : "enc").bytes("key", k, 16).i("n", n).bytes("in", in.data(), in.size()).bytes("out", b.p, 16 * n).b("ok", b.intact() && ks.intact()).end();
			} else if (op == "para") {
				typedef void (*PF)(Rng &);
				static const PF T[9][8] = {PR(1), PR(2), PR(3), PR(4), PR(5), PR(6), PR(7), PR(8), PR(16)};
				T[n / 8][n % 8](r);
			} else if (op == "bulk") { // one call on many blocks against as many calls on one block
				bool dec = o["dec"].n, prp = o["prp"].n; AES_KEY ak; PRP pp(ld(k));
				std::vector<uint8_t> in(16 * n); r.fill(in.data(), 16 * n);
				GBuf b(16 * n, 0, true); memcpy(b.p, in.data(), 16 * n); long long bad = -1; std::string sm = "[";
				if (dec) AES_set_decrypt_key(ld(k), &ak); else AES_set_encrypt_key(ld(k), &ak);
				if (prp) pp.permute_block((block *)b.p, (int)n); else if (dec) AES_ecb_decrypt_blks((block *)b.p, (unsigned)n, &ak); else AES_ecb_encrypt_blks((block *)b.p, (unsigned)n, &ak);
				for (size_t i = 0; i < n && bad < 0; ++i) { block x = ld(&in[16 * i]); if (prp) pp.permute_block(&x, 1); else if (dec) AES_ecb_decrypt_blks(&x, 1, &ak); else AES_ecb_encrypt_blks(&x, 1, &ak); if (memcmp(&x, b.p + 16 * i, 16)) bad = (long long)i; }
				std::vector<uint8_t> si, so; for (int q2 = 0; q2 < 6; ++q2) { size_t i = q2 == 0 ? 0 : q2 == 1 ? n - 1 : r.below(n); si.insert(si.end(), &in[16 * i], &in[16 * i] + 16); so.insert(so.end(), b.p + 16 * i, b.p + 16 * i + 16); }
				J("bulk").bytes("key", k, 16).i("n", n).i("bad", bad).b("dec", dec).bytes("in", si.data(), si.size()).bytes("out", so.data(), so.size()).b("ok", b.intact()).end();
			}
		}
		delete p;
	}
}
