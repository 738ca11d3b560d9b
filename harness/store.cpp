// MemIO and FileIO as stores: every byte ever written gets its own position in one global stream; what is read back
// is reported as runs of such positions.
#include <fcntl.h>
#include <sys/stat.h>
#include "vh.h"
#include "emp-tool/emp-tool.h"
using namespace emp;
using vh::Val;
static uint64_t salt, wpos; static std::vector<std::pair<uint64_t, uint64_t>> segs;
static inline uint8_t sb(uint64_t k) { return (uint8_t)((k * 7 + k / 251 * 31 + k / 4001 * 17) % 251); }   // as in Store.tla
static std::vector<uint8_t> fresh(size_t n) { std::vector<uint8_t> b(n + 1); for (size_t i = 0; i < n; ++i) b[i] = sb(wpos + i); if (n) segs.push_back({wpos, n}); wpos += n; return b; }
static uint64_t lastEnd;
static std::string runs(const uint8_t *b, size_t n) {
	std::string r = "["; size_t i = 0; bool f = true; int cnt = 0;
	while (i < n && cnt++ < 300) {
		uint64_t best = 0; size_t bl = 0;
		auto tryAt = [&](uint64_t a) { size_t k = 0; while (i + k < n && a + k < wpos && b[i + k] == sb(a + k)) ++k; if (k > bl) { bl = k; best = a; } };
		tryAt(lastEnd);
		if (bl < n - i && bl < 16) { for (auto &s : segs) tryAt(s.first); for (uint64_t a = 0; a < wpos && bl < n - i && bl < 24; ++a) if (b[i] == sb(a)) tryAt(a); }
		if (!bl) { bl = 1; best = 0; r += f ? "[-1,1]" : ",[-1,1]"; f = false; i += 1; continue; }
		r += (f ? "[" : ",[") + std::to_string(best) + "," + std::to_string(bl) + "]"; f = false;
		i += bl; lastEnd = best + bl;
	}
	return r + "]";
}
int main(int c, char **v) {
	if (c > 3 && !strcmp(v[3], "huge")) {
		const size_t n = (1ull << 31) + 4099; alarm(100);
		uint8_t *b = (uint8_t *)mmap(0, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		uint64_t wctr;
		{ FileIO w("/dev/null", false); w.send_data(b, n); wctr = w.counter; }
		memset(b + n - 2, 0x77, 4); b[0] = b[(1ull << 31) - 1] = b[1ull << 31] = 0x77;
		{ FileIO r("/dev/zero", true); r.recv_data(b, n); }
		bool ok = b[0] == 0 && b[(1ull << 31) - 1] == 0 && b[1ull << 31] == 0 && b[n - 1] == 0 && b[n] == 0x77;
		{ // a memory channel holding more than 2^31 bytes
			const size_t h = 1ull << 31; size_t at[] = {0, 5, h - 1, h, h + 77, n - 1}; int k = 0;
			for (size_t a : at) b[a] = 0x80 + ++k;
			MemIO m((int64_t)n / 3); m.send_data(b, 70); m.send_data(b + 70, n - 70);
			madvise(b, n + 4096, MADV_DONTNEED);
			m.recv_data(b, 3); m.recv_data(b + 3, n - 8); m.recv_data(b + n - 5, 5);
			k = 0; for (size_t a : at) ok = ok && b[a] == 0x80 + ++k;
			ok = ok && b[1] == 0 && b[h + 1] == 0 && b[n - 2] == 0 && b[n] == 0 && m.counter == n;
		}
		// channels that grew, were cleared and are filled again: the second filling is what comes back
		for (size_t cap : {size_t(1), size_t(4096), size_t(6) << 20}) for (size_t big : {size_t(70) << 10, size_t(5) << 20, size_t(40) << 20}) for (size_t again : {size_t(1) << 20, (size_t(3) << 20) + 5, size_t(45) << 20}) {
			MemIO m((int64_t)cap); memset(b, 0x11, big); m.send_data(b, big); m.recv_data(b, big / 2); m.clear();
			std::vector<uint8_t> x(again), y(again, 0); uint64_t q = cap + big; for (auto &e : x) e = (uint8_t)((q = q * 6364136223846793005ull + 1) >> 56);
			m.send_data(x.data(), again / 2 + 1); m.send_data(x.data() + again / 2 + 1, again - again / 2 - 1);
			m.recv_data(y.data(), again / 3); m.recv_data(y.data() + again / 3, again - again / 3); ok = ok && x == y;
		}
		std::vector<long long> w = {(long long)(wctr >> 16), (long long)(wctr & 65535)};
		vh::J j("huge"); j.ints("ctr", w).b("match", ok); j.end(); return 0;
	}
	auto sc = vh::readLines(v[1]); uint64_t seed = strtoull(v[2], 0, 10), k = 0;
	char dir[] = "/tmp/vh-store-XXXXXX"; if (!mkdtemp(dir)) return 77;
	std::string path = std::string(dir) + "/f";
	FILE *quiet = freopen("/dev/null", "w", stderr); (void)quiet;
	// other stores of the same process, used in between
	std::string path2 = std::string(dir) + "/g"; FileIO *of = new FileIO(path2.c_str(), false); MemIO *om = new MemIO(100); uint64_t ost = 0;
	auto stir = [&] { uint8_t x[3000]; memset(x, 0xEE, sizeof x); ++ost; om->send_data(x, 1 + ost % 700); om->recv_data(x, 1 + ost % 300); if (ost % 50 == 0) om->clear();
		if (ost % 3) of->send_data(x, 1 + (ost * 331) % 2999); if (ost % 11 == 0) of->reset(); };
	for (auto &s : sc) {
		salt = seed * 7919 + ++k * 104729; wpos = 0; segs.clear(); lastEnd = 0;
		MemIO *m = nullptr; FileIO *f = nullptr; uint64_t fc = 0, mc = 0;
		const Val &ops = s["ops"];
		{ vh::J j("reset"); j.end(); unlink(path.c_str()); }
		for (size_t i = 0; i < ops.size(); ++i) {
			std::string op = ops[i]["op"].s; size_t n = (size_t)ops[i]["n"].n; stir();
			if (op == "mnew") { delete m; m = ops[i]["z"].n ? new MemIO(0) : n ? new MemIO((int64_t)n) : new MemIO(); mc = 0; vh::J j("mnew"); j.i("n", n); j.end(); }
			else if (op == "msend") { uint64_t at = wpos; auto b = fresh(n); m->send_data(b.data(), n); mc = m->counter; vh::J j("msend"); j.i("at", at).i("n", n).i("ctr", (long long)mc); j.end(); }
			else if (op == "mrecv") {
				vh::GBuf g(n, i % 9); memset(g.p, 0xFE, n); m->recv_data(g.p, n);
				bool un = true; for (size_t q = 0; q < n; ++q) if (g.p[q] != 0xFE) un = false;
				vh::J j("mrecv"); j.i("n", n).b("un", un).b("intact", g.intact()).raw("runs", un ? "[]" : runs(g.p, n)); j.end();
			}
			else if (op == "mclear") { m->clear(); vh::J j("mclear"); j.end(); }
			else if (op == "mload") { m->load_from_file(f, (int64_t)n); vh::J j("mload"); j.i("n", n); j.end(); }
			else if (op == "fnew") { delete f; f = nullptr; bool rd = n != 0; f = new FileIO(path.c_str(), rd); vh::J j("fnew"); j.b("read", rd); j.end(); }
			else if (op == "fsend") { uint64_t at = wpos; auto b = fresh(n); f->send_data(b.data(), n); vh::J j("fsend"); j.i("at", at).i("n", n).i("ctr", (long long)f->counter); j.end(); }
			else if (op == "frecv") { vh::GBuf g(n, i % 9); memset(g.p, 0xFE, n); f->recv_data(g.p, n); vh::J j("frecv"); j.i("n", n).b("intact", g.intact()).raw("runs", runs(g.p, n)); j.end(); }
			else if (op == "freset") { f->reset(); vh::J j("freset"); j.end(); }
			else if (op == "fflush") { f->flush(); struct stat st; stat(path.c_str(), &st); vh::J j("fflush"); j.i("len", (long long)st.st_size); j.end(); }
			else if (op == "fclose") { delete f; f = nullptr; struct stat st; stat(path.c_str(), &st); vh::J j("fclose"); j.i("len", (long long)st.st_size); j.end(); }
		}
		delete m; delete f;
	}
	delete of; delete om; unlink(path2.c_str()); unlink(path.c_str()); rmdir(dir);
	return 0;
}
