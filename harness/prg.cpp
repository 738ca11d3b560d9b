#include "vh.h"
#include <sys/wait.h>
#include "emp-tool/utils/prg.h"
using namespace emp;
using namespace vh;
template <class P> auto seek(P &p, uint64_t v, int) -> decltype(p.counter = v, bool()) { p.counter = v; return true; }
template <class P> bool seek(P &, uint64_t, long) { return false; }
static uint64_t idOf(Rng &r, int k, bool ctor) {
	switch (k) { case 0: return 0; case 1: return r.below(5); case 2: return ctor ? (uint64_t)(int64_t)(int)r.next() : r.next();
		default: return ctor ? (uint64_t)(int64_t)(int)-(int)r.below(4) : (1ULL << 32) + r.below(9); }
}
// what fresh generators of several processes produce first, before and after the parent has made some of its own
static void processes(int n) {
	for (int round = 0; round < 2; ++round) {
		int fd[2]; if (pipe(fd)) exit(77);
		for (int c = 0; c < n; ++c) { pid_t q = fork(); if (q < 0) exit(77); if (q == 0) { uint8_t o[32]; { PRG a; a.random_block((block *)memset(o, 0, 32), 1); } { PRG b(nullptr, 3); block x; b.random_block(&x, 1); memcpy(o + 16, &x, 16); } if (write(fd[1], o, 32) != 32) _exit(77); _exit(0); } }
		close(fd[1]); uint8_t o[32]; int got = 0; while (read(fd[0], o, 32) == 32) { J("fresh").bytes("out", o, 16).b("ok", true).end(); J("fresh").bytes("out", o + 16, 16).b("ok", true).end(); ++got; }
		close(fd[0]); while (wait(nullptr) > 0) {} if (got != n) J("fresh").bytes("out", o, 16).b("ok", false).end();
		PRG p; block x; p.random_block(&x, 1); J("fresh").bytes("out", &x, 16).b("ok", true).end();
	}
}
static void evSeed(const uint8_t *s, uint64_t id, bool ok) { J("seed").bytes("seed", s, 16).u64("id", id).b("ok", ok).end(); }
int main(int argc, char **argv) {
	Rng r(strtoull(argv[2], 0, 10)); processes(60); uint8_t last[16] = {0}; uint64_t lastId = 0;
	for (auto &scn : readLines(argv[1])) {
		PRG *p = nullptr; PRG other("other generator", 1); uint8_t junk[64];
		for (size_t k = 0; k < scn.size(); ++k) {
			const Val &o = scn[k]; const std::string &op = o["op"].s; size_t n = o["n"].n, off = o["off"].n;
			if (k % 2) { other(); if (k % 3 == 0) other.random_data_unaligned(junk + 1, 40); if (k % 5 == 0) other.reseed((const block *)"another seed...", k); } // a generator drawn from in between
			if (op == "new" || op == "reseed") {
				uint8_t s[16]; r.fill(s, 16);
				if (r.below(6) == 0) memset(s, r.coin() ? 0 : 255, 16);
				bool again = op == "reseed" && n >= 4; if (again) memcpy(s, last, 16); // the seed in use, with its id or another
				GBuf b(16, off, (k & 1)); memcpy(b.p, s, 16);
				uint64_t id = again && n == 4 ? lastId : idOf(r, n & 3, op == "new"); memcpy(last, s, 16); lastId = id;
				if (op == "new") { delete p; if (id == 0 && r.coin()) p = new PRG(b.p); else p = new PRG(b.p, (int)id); }
				else if (id == 0 && r.coin()) p->reseed((const block *)b.p); else p->reseed((const block *)b.p, id);
				evSeed(s, id, b.intact() && memcmp(b.p, s, 16) == 0);
			} else if (op == "block") {
				GBuf b(n * 16, 0, r.coin()); 
				if (n == 1 && r.coin()) p->random_block((block *)b.p); else p->random_block((block *)b.p, n);
				J("block").i("n", n).bytes("out", b.p, n * 16).b("ok", b.intact()).end();
			} else if (op == "data" || op == "unal") {
				bool al = op == "data";
				size_t nn = n; bool atend = r.coin(); if (al && n % 16) atend = false;
				GBuf b(nn, off, atend, (uint8_t)r.next());
				if (al) p->random_data(b.p, n); else p->random_data_unaligned(b.p, n);
				J("data").i("n", n).bytes("out", b.p, n).b("ok", b.intact()).end();
			} else if (op == "bool") {
				GBuf b(n, off, r.coin(), 0);
				p->random_bool((bool *)b.p, n);
				J("bool").i("n", n).bytes("out", b.p, n).b("ok", b.intact()).end();
			} else if (op == "word") {
				for (size_t i = 0; i < n; ++i) { uint64_t w = (*p)(); J("word").u64("out", w).b("ok", PRG::min() == 0 && PRG::max() == ~0ULL).end(); }
			} else if (op == "bulk") { // one large draw against a twin read block by block
				uint8_t sd[16]; r.fill(sd, 16); block z = _mm_loadu_si128((block *)sd); delete p; p = new PRG(&z, 7); PRG tw(&z, 7); evSeed(sd, 7, true);
				int kind = (int)o["kind"].n; size_t bytes = kind == 0 ? 16 * n : n, nb = (bytes + 15) / 16; GBuf b(bytes, kind < 2 ? 0 : off, true, 0x55);
				if (kind == 0) p->random_block((block *)b.p, (int)n); else if (kind == 1) p->random_data(b.p, (int)n); else if (kind == 2) p->random_data_unaligned(b.p, (int)n); else p->random_bool((bool *)b.p, (int)n);
				long long bad = -1;
				for (size_t i = 0; i < nb; ++i) { block x; tw.random_block(&x, 1); uint8_t w[16]; memcpy(w, &x, 16); size_t m = std::min<size_t>(16, bytes - 16 * i);
					for (size_t j = 0; j < m && bad < 0; ++j) if (b.p[16 * i + j] != (kind == 3 ? w[j] & 1 : w[j])) bad = (long long)(16 * i + j); }
				size_t at = nb / 2; J("bulk").i("n", (long long)bytes).i("kind", kind).i("bad", bad).i("at", (long long)at).bytes("out", b.p + 16 * at, std::min<size_t>(16, bytes - 16 * at)).b("ok", b.intact()).end();
			} else if (op == "seek") {
				static const uint64_t base[] = {0, 1ULL << 16, (1ULL << 31) - 10, (1ULL << 32) - 10, (1ULL << 63) - 10, ~0ULL - 9, 1ULL << 40};
				uint64_t v = base[n] + off;
				if (seek(*p, v, 0)) J("seek").u64("p", v).b("ok", true).end();
			} else if (op == "fresh") {
				PRG q; block x; q.random_block(&x, 1); J("fresh").bytes("out", &x, 16).b("ok", true).end();
			}
		}
		delete p;
	}
	return 0;
}
