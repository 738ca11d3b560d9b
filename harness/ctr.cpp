// argv: seed rounds
#include "vh.h"
#include "emp-tool/emp-tool.h"
#include "emp-tool/circuits/aes_128_ctr.h"
using namespace emp;
using namespace vh;
static Rng *R;
typedef std::vector<uint8_t> By;
static block ld(const void *p) { return _mm_loadu_si128((const block *)p); }
static void gen(uint8_t *key, uint8_t *iv, uint64_t &st) {
	R->fill(key, 16); R->fill(iv, 16);
	switch (R->below(7)) { case 0: memset(iv, 255, 16); iv[15] -= R->below(4); break; case 1: memset(iv + 8, 255, 8); iv[15] -= R->below(4); break;
		case 2: memset(iv + 1, 255, 15); iv[15] -= R->below(3); break; case 3: memset(iv, 0, 16); break; case 4: memset(iv + 12, 255, 4); break; case 5: memset(iv + 6, 255, 9); break; default:; }
	static const uint64_t s[] = {0, 0, 1, 2, 255, (1ULL << 32) - 1, 1ULL << 32, 1ULL << 63, ~0ULL, ~0ULL - 1, 77777};
	st = s[R->below(11)]; if (R->below(6) == 0) st = R->next();
	if (R->below(8) == 0) { // low half + start just below / at / above the wrap
		uint64_t lo = 0; for (int i = 0; i < 8; ++i) lo = lo << 8 | iv[8 + i]; st = 0 - lo - R->below(3); }
}
static void outside() {
	uint8_t key[16], iv[16]; uint64_t st; gen(key, iv, st);
	static const int ls[] = {0, 1, 7, 15, 16, 17, 31, 32, 33, 40, 47, 48, 50, 64, 80};
	int n = ls[R->below(15)], mode = R->below(4), ty = R->below(3), sz = ty == 0 ? 1 : ty == 1 ? 4 : 8; if (mode == 2) sz = 1; n = n / sz * sz;
	GBuf in(n, R->below(16), R->coin()), out(n, R->below(16), R->coin()); R->fill(in.p, n); By c(in.p, in.p + n);
	uint8_t *ip = mode == 2 ? nullptr : in.p, *op = mode == 1 ? nullptr : out.p; int rc;
	if (mode == 3 && st == 0) { st = 0; }
	if (sz == 1) rc = emp::aes_128_ctr(ld(key), ld(iv), ip, op, n, st);
	else if (sz == 4) rc = emp::aes_128_ctr(ld(key), ld(iv), (uint32_t *)ip, op, n / 4, st);
	else rc = emp::aes_128_ctr(ld(key), ld(iv), (uint64_t *)ip, op, n / 8, st);
	uint8_t *res = mode == 1 ? in.p : out.p; bool ok = rc == 0 && in.intact() && out.intact() && (mode == 1 || !memcmp(c.data(), in.p, n));
	if (mode == 2) memset(c.data(), 0, n);
	J("bytes").bytes("key", key, 16).bytes("iv", iv, 16).u64("start", st).bytes("in", c.data(), n).bytes("out", res, n).i("mode", mode).b("ok", ok).end();
}
// message encrypted in pieces by the caller: reported as one encryption
static void pieces(AES_128_CTR_Calculator *calc) {
	uint8_t key[16], iv[16]; uint64_t st; gen(key, iv, st); int nb = 3 + R->below(3), tail = R->below(16); size_t n = 16 * nb + tail;
	By in(n), out(n); R->fill(in.data(), n);
	size_t pos = 0; bool ok = true;
	while (pos < n) { size_t k = std::min(n - pos, (size_t)16 * (1 + R->below(2))); ok = ok && emp::aes_128_ctr(ld(key), ld(iv), in.data() + pos, out.data() + pos, k, st + pos / 16) == 0; pos += k; }
	if (st + nb < st) return; // the caller's own start chunk wrapped
	J("bytes").bytes("key", key, 16).bytes("iv", iv, 16).u64("start", st).bytes("in", in.data(), n).bytes("out", out.data(), n).b("ok", ok).end();
}
static void inside(AES_128_CTR_Calculator *calc, int form) {
	uint8_t key[16], iv[16]; uint64_t st; gen(key, iv, st);
	static const int ls[] = {1, 8, 127, 128, 128, 129, 136, 256, 257, 300, 64};
	int n = ls[R->below(11)], mode = R->below(3); int owner = R->coin() ? ALICE : PUBLIC, kowner = R->below(3) == 0 ? PUBLIC : ALICE;
	bool *b = new bool[n]; for (int i = 0; i < n; ++i) b[i] = R->coin();
	By bits(128); std::vector<block> kl(128), il(128), inl(n), outl(n, zero_block);
	bool kb[128], ib[128]; for (int i = 0; i < 128; ++i) { kb[i] = key[i / 8] >> (i % 8) & 1; ib[i] = iv[i / 8] >> (i % 8) & 1; }
	ProtocolExecution::prot_exec->feed(kl.data(), kowner, kb, 128); ProtocolExecution::prot_exec->feed(il.data(), R->coin() ? ALICE : kowner, ib, 128); ProtocolExecution::prot_exec->feed(inl.data(), ALICE, b, n);
	std::vector<block> keep = inl, kk = kl, ik = il;
	block *ip = mode == 2 ? nullptr : inl.data(), *op = mode == 1 ? nullptr : outl.data(); int rc;
	if (form == 0) rc = calc->aes_128_ctr(kl.data(), il.data(), ip, op, n, owner, st);
	else if (form == 1) rc = calc->aes_128_ctr(kl.data(), ld(iv), ip, op, n, owner, st);
	else rc = calc->aes_128_ctr(ld(key), ld(iv), ip, op, n, owner, st);
	bool same = !memcmp(kk.data(), kl.data(), 2048) && !memcmp(ik.data(), il.data(), 2048) && (mode == 1 || !memcmp(keep.data(), inl.data(), 16 * n));
	bool *o = new bool[n]; ProtocolExecution::prot_exec->reveal(o, PUBLIC, mode == 1 ? inl.data() : outl.data(), n);
	if (mode == 2) memset(b, 0, n);
	J("bits").bytes("key", key, 16).bytes("iv", iv, 16).u64("start", st).bytes("in", b, n).bytes("out", o, n).i("form", form).i("mode", mode).b("ok", rc == 0 && same).end();
	delete[] b; delete[] o;
}
// long messages: at once against block by block, and in circuit against outside
static void bulk(size_t n, bool neg) {
	uint8_t key[16], iv[16]; R->fill(key, 16); R->fill(iv, 16); memset(iv + 9, 255, 6); uint64_t st = neg ? ~0ULL - 3 * n : R->below(1000);
	By in(n), ref(n), seg(n); R->fill(in.data(), n); GBuf out(n, 3, true), inp(n, 5, true), ks(n, 1, true); memcpy(inp.p, in.data(), n);
	bool rc = true;
	for (size_t i = 0; i < n; i += 16) rc &= emp::aes_128_ctr(ld(key), ld(iv), in.data() + i, ref.data() + i, std::min<size_t>(16, n - i), st + i / 16) == 0;
	rc &= emp::aes_128_ctr(ld(key), ld(iv), in.data(), out.p, n, st) == 0; rc &= emp::aes_128_ctr(ld(key), ld(iv), inp.p, nullptr, n, st) == 0; rc &= emp::aes_128_ctr(ld(key), ld(iv), (uint8_t *)nullptr, ks.p, n, st) == 0;
	long long bad = -1; for (size_t i = 0; i < n && bad < 0; ++i) if (out.p[i] != ref[i] || inp.p[i] != ref[i] || (ks.p[i] ^ in[i]) != ref[i]) bad = (long long)i;
	J("bulk").s("what", "bytes").i("n", (long long)n).i("bad", bad).b("ok", rc && out.intact() && inp.intact() && ks.intact()).end();
}
static void bulkIn(AES_128_CTR_Calculator *calc, size_t n, int form, int mode) {
	uint8_t key[16], iv[16]; R->fill(key, 16); R->fill(iv, 16); iv[15] = 200; uint64_t st = R->below(300);
	By in(n / 8 + 1), ref(n / 8 + 1); R->fill(in.data(), in.size()); if (mode == 2) memset(in.data(), 0, in.size());
	emp::aes_128_ctr(ld(key), ld(iv), in.data(), ref.data(), in.size(), st);
	bool *b = new bool[n], kb[128], ib[128]; for (size_t i = 0; i < n; ++i) b[i] = in[i / 8] >> (i % 8) & 1; for (int i = 0; i < 128; ++i) { kb[i] = key[i / 8] >> (i % 8) & 1; ib[i] = iv[i / 8] >> (i % 8) & 1; }
	std::vector<block> kl(128), il(128), inl(n), outl(n, zero_block);
	ProtocolExecution::prot_exec->feed(kl.data(), ALICE, kb, 128); ProtocolExecution::prot_exec->feed(il.data(), ALICE, ib, 128); ProtocolExecution::prot_exec->feed(inl.data(), ALICE, b, n);
	block *ip = mode == 2 ? nullptr : inl.data(), *op = mode == 1 ? nullptr : outl.data(); int rc;
	if (form == 0) rc = calc->aes_128_ctr(kl.data(), il.data(), ip, op, n, PUBLIC, st);
	else if (form == 1) rc = calc->aes_128_ctr(kl.data(), ld(iv), ip, op, n, PUBLIC, st);
	else rc = calc->aes_128_ctr(ld(key), ld(iv), ip, op, n, PUBLIC, st);
	ProtocolExecution::prot_exec->reveal(b, PUBLIC, mode == 1 ? inl.data() : outl.data(), n);
	long long bad = -1; for (size_t i = 0; i < n && bad < 0; ++i) if (b[i] != (ref[i / 8] >> (i % 8) & 1)) bad = (long long)i;
	J("bulk").s("what", "bits").i("n", (long long)n).i("form", form).i("mode", mode).i("bad", bad).b("ok", rc == 0).end();
	delete[] b;
}
int main(int argc, char **argv) {
	Rng r(strtoull(argv[1], 0, 10)); R = &r; int rounds = atoi(argv[2]);
	setup_plain_prot(false, "");
	AES_128_CTR_Calculator calc, other;
	for (size_t n : {1000, 4095, 4096, 65535, 65536, 65551, 300007, 1 << 20}) bulk(n, n % 2);
	for (int f = 0; f < 3; ++f) { bulkIn(&calc, 128 * 259 + 77, f, f); bulkIn(&calc, 2000, f, (f + 1) % 3); }
	for (int i = 0; i < rounds; ++i) {
		for (int k = 0; k < 6; ++k) outside();
		pieces(&calc);
		for (int f = 0; f < 3; ++f) inside(r.coin() ? &calc : &other, f);
	}
}
