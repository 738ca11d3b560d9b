#include "vh.h"
#include <openssl/evp.h>
#include "emp-tool/utils/hash.h"
using namespace emp;
using namespace vh;
int main(int argc, char **argv) {
	Rng r(strtoull(argv[2], 0, 10));
	Group G;
	for (auto &scn : readLines(argv[1])) {
		Hash *o[3] = {0, 0, 0};
		for (size_t q = 0; q < scn.size(); ++q) {
			const Val &v = scn[q]; const std::string &op = v["op"].s; int k = v["o"].n; size_t n = v["n"].n;
			if (op == "new") { o[k] = new Hash(); J("new").i("o", k).b("ok", true).end(); }
			else if (op == "put" || op == "blk") {
				size_t len = op == "blk" ? 16 * n : n; bool blk = op == "blk";
				GBuf d(len, blk ? 0 : r.below(16), !blk && r.coin()); r.fill(d.p, len);
				std::vector<uint8_t> c(d.p, d.p + len);
				if (blk) { if (n == 1 && r.coin()) o[k]->put_block((block *)d.p); else o[k]->put_block((block *)d.p, n); } else o[k]->put(d.p, len);
				bool same = d.intact() && memcmp(c.data(), d.p, len) == 0;
				memset(d.p, 0xEE, len); // the caller may reuse its memory at once
				J("put").i("o", k).bytes("data", c.data(), len).b("ok", same).end();
			} else if (op == "digest") {
				GBuf d(32, n ? r.below(16) : 0, r.coin()); o[k]->digest(d.p);
				J("digest").i("o", k).bytes("out", d.p, 32).b("ok", d.intact()).end();
			} else if (op == "reset") { o[k]->reset(); J("reset").i("o", k).b("ok", true).end(); }
			else if (op == "once" || op == "block") {
				GBuf d(n, r.below(16), r.coin()); r.fill(d.p, n); std::vector<uint8_t> c(d.p, d.p + n);
				if (op == "once") { GBuf x(32, r.below(16), r.coin()); Hash::hash_once(x.p, d.p, n);
					J("once").bytes("data", c.data(), n).bytes("out", x.p, 32).b("ok", x.intact() && d.intact() && !memcmp(c.data(), d.p, n)).end(); }
				else { block b = Hash::hash_for_block(d.p, n); J("block").bytes("data", c.data(), n).bytes("out", &b, 16).b("ok", d.intact() && !memcmp(c.data(), d.p, n)).end(); }
			} else if (op == "bulk") { // a long message, whole and in uneven pieces, against the library's own digest
				std::vector<uint8_t> d(n + 1); r.fill(d.data(), n); uint8_t x[32], y[32], z[32]; unsigned zl = 32; Hash::hash_once(x, d.data(), (int)n);
				Hash h; size_t st = 1 + r.below(20000); for (size_t i = 0; i < n;) { size_t m = std::min(st, n - i); h.put(d.data() + i, (int)m); i += m; st = 1 + (st * 7 + 13) % 300000; } h.digest(y);
				EVP_Digest(d.data(), n, z, &zl, EVP_sha256(), nullptr); block b = Hash::hash_for_block(d.data(), (int)n);
				J("bulk").i("n", (long long)n).bytes("once", x, 32).bytes("put", y, 32).bytes("blk", &b, 16).bytes("ref", z, 32).b("ok", true).end();
			} else if (op == "kdf") {
				BigInt m; G.get_rand_bn(m); Point p = G.mul_gen(m); if (r.below(5) == 0) { Point i = p.inv(); p = p.add(i); }
				static const uint64_t ids[] = {1, 0, 255, 256, 1ULL << 32, ~0ULL, 0x0102030405060708ULL};
				uint64_t id = ids[r.below(7)];
				std::vector<uint8_t> pb(p.size()); p.to_bin(pb.data(), pb.size());
				block b = (id == 1 && r.coin()) ? Hash::KDF(p) : Hash::KDF(p, id);
				J("kdf").bytes("point", pb.data(), pb.size()).u64("id", id).bytes("out", &b, 16).b("ok", true).end();
			}
		}
		delete o[1]; delete o[2];
	}
}
