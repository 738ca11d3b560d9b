// Two parties on real loopback TCP channels, each running its projection of a TLC-generated exchange in its own
// thread; optionally through a proxy that re-segments and records the wire. Events are logged in one total order.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <dirent.h>
#include <signal.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <functional>
#include <mutex>
#include <new>
#include <thread>
#include "vh.h"
#include "proxy.h"
#include "emp-tool/emp-tool.h"
using namespace emp;
using vh::Val;

// heap memory handed out is filled with noise, so anything leaking onto the wire is visible
static std::atomic<uint32_t> noise{1};
void *operator new[](size_t n) {
	void *p = malloc(n ? n : 1); if (!p) abort();
	uint32_t s = noise.fetch_add(0x9E3779B9u) | 1;
	for (size_t i = 0; i < n; ++i) { s = s * 1664525u + 1013904223u; ((uint8_t *)p)[i] = (uint8_t)(s >> 24) | 1; }
	return p;
}
void operator delete[](void *p) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

// every descriptor number released while a channel is being destroyed is immediately taken by somebody else;
// a second close of the same number would hit that victim
static std::atomic<int> hunting{0};
static std::mutex vm; static std::vector<int> victims;
static void take() { std::lock_guard<std::mutex> g(vm); int f = (int)syscall(2 /*open*/, "/dev/null", O_RDONLY); if (f >= 0) victims.push_back(f); }
extern "C" int close(int fd) {
	int r = (int)syscall(3 /*close*/, fd); int e = errno;
	if (hunting && r == 0) take();
	errno = e; return r;
}
extern "C" int fclose(FILE *f) {
	static int (*real)(FILE *) = (int (*)(FILE *))dlsym(RTLD_NEXT, "fclose");
	int r = real(f); int e = errno;
	if (hunting) take();
	errno = e; return r;
}
static int victimsAlive() {
	std::lock_guard<std::mutex> g(vm); int dead = 0;
	for (int f : victims) { if (fcntl(f, F_GETFD) < 0) ++dead; else syscall(3, f); }
	victims.clear(); return dead;
}
static int openFds() {
	int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n;
}

// stream content: nonzero, position dependent, different per direction
static inline uint8_t sb(int p, uint64_t k, uint64_t salt) {
	uint64_t z = (k + 1) * 0x9E3779B97F4A7C15ULL + p * 0x1234567ULL + salt; z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ULL; z ^= z >> 32;
	return (uint8_t)(1 + z % 255);
}
static uint64_t salt;
static std::mutex lm; static std::condition_variable lcv; static long progress = 0;
static uint64_t got[2];      // bytes of stream p received so far (for await)
static void ev(vh::J &j) { std::lock_guard<std::mutex> g(lm); j.end(); ++progress; lcv.notify_all(); }

// where in stream p do these bytes lie? (hint first)
static long long locate(int p, const uint8_t *b, size_t n, uint64_t hint, uint64_t total) {
	auto eq = [&](uint64_t a) { for (size_t i = 0; i < n; ++i) if (b[i] != sb(p, a + i, salt)) return false; return true; };
	if (eq(hint)) return (long long)hint;
	if (n < 4) return -1;
	for (uint64_t a = 0; a + n <= total && a < 3000000; ++a) if (b[0] == sb(p, a, salt) && eq(a)) return (long long)a;
	return -1;
}

// another connection of the same process, busy at the same time
template <class IO> struct Decoy { static IO *at[2]; static int left[2];
	static void open(std::function<IO *(int)> mk) { std::thread t([&] { at[0] = mk(0); }); at[1] = mk(1); t.join(); }
	static void stir(int p, size_t i) { if (!at[p] || left[p] <= 0 || i % 3 == 2) return; uint8_t b[300]; memset(b, 0xD0 + p, sizeof b); size_t n = 1 + (i * 37) % 299; at[p]->send_data(b, n); left[p] -= (int)n; if (i % 7 == 3) at[p]->flush(); }
};
template <class IO> IO *Decoy<IO>::at[2] = {nullptr, nullptr}; template <class IO> int Decoy<IO>::left[2] = {80000, 80000};
template <class IO> static void party(int p, const Val &ops, std::function<IO *()> mk) {
	IO *io = mk();
	uint64_t sent = 0, rcv = 0;
	for (size_t i = 0; i < ops.size(); ++i) {
		const Val &o = ops[i];
		if (o["p"].n != p && o["p"].n != 2) continue;
		std::string op = o["op"].s; size_t n = (size_t)o["n"].n;
		Decoy<IO>::stir(p, i);
		{ vh::J j("b"); j.i("p", p).s("op", op).i("n", n); ev(j); }
		if (op == "send") {
			std::vector<uint8_t> b(n + 1);
			for (size_t k = 0; k < n; ++k) b[k] = sb(p, sent + k, salt);
			io->send_data(b.data(), n); sent += n;
			vh::J j("e"); j.i("p", p).s("op", op).i("n", n).i("at", 0).i("ctr", (long long)io->counter); ev(j);
		} else if (op == "recv") {
			std::vector<uint8_t> b(n + 64, 0);
			io->recv_data(b.data() + 32, n);
			bool clean = true; for (int k = 0; k < 32; ++k) if (b[k] || b[n + 32 + k]) clean = false;
			long long at = n == 0 ? (long long)rcv : locate(1 - p, b.data() + 32, n, rcv, 1ull << 40);
			if (!clean) at = -2;
			rcv += n;
			vh::J j("e"); j.i("p", p).s("op", op).i("n", n).i("at", at).i("ctr", (long long)io->counter);
			std::lock_guard<std::mutex> g(lm); got[1 - p] = rcv; j.end(); ++progress; lcv.notify_all();
		} else {
			if (op == "flush") io->flush();
			else if (op == "sync") io->sync();
			else if (op == "await") { std::unique_lock<std::mutex> g(lm); lcv.wait(g, [&] { return got[p] >= sent; }); }
			vh::J j("e"); j.i("p", p).s("op", op).i("n", n).i("at", 0).i("ctr", (long long)io->counter); ev(j);
		}
	}
	{ vh::J j("b"); j.i("p", p).s("op", "close").i("n", 0); ev(j); }
	++hunting;
	delete io;
	--hunting;
	{ vh::J j("e"); j.i("p", p).s("op", "close").i("n", 0).i("at", 0).i("ctr", -1); ev(j); }
}
static void wireEvents(int p, const std::vector<uint8_t> &w) {
	// runs: payload at position k.. / zeros / anything else
	std::string r = "["; uint64_t pos = 0; size_t i = 0; bool f = true; int cnt = 0;
	while (i < w.size()) {
		size_t j = i; std::string kind; uint64_t at = 0;
		if (w[i] == 0) { kind = "zero"; while (j < w.size() && w[j] == 0) ++j; }
		else if (w[i] == sb(p, pos, salt)) { kind = "data"; at = pos; while (j < w.size() && w[j] != 0 && w[j] == sb(p, pos, salt)) { ++j; ++pos; } }
		else { kind = "other"; while (j < w.size() && w[j] != 0 && w[j] != sb(p, pos, salt)) ++j; }
		if (!f) r += ","; f = false;
		r += "{\"k\":\"" + kind + "\",\"at\":" + std::to_string(at) + ",\"n\":" + std::to_string(j - i) + "}";
		i = j; if (++cnt > 400) break;
	}
	r += "]";
	vh::J j("wire"); j.i("p", p).i("n", (long long)w.size()).raw("runs", r); ev(j);
}
// one call each way around 2^31 bytes; lengths are logged as (n div 65536, n mod 65536)
template <class IO> static void hugeRun(const char *kind, std::function<IO *(int)> mk) {
	const size_t n = (1ull << 31) + 4099; const size_t marks[] = {0, 1, 32767, 32768, 1ull << 20, (1ull << 31) - 1, 1ull << 31, (1ull << 31) + 1, n - 1};
	uint8_t *src = (uint8_t *)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	uint8_t *dst = (uint8_t *)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	uint8_t k = 1; for (size_t m : marks) src[m] = k++;
	uint8_t more[5] = {9, 8, 7, 6, 5}, tail[5] = {0}; uint64_t ctr = 0;
	uint8_t back[3] = {4, 3, 2}, bk[3] = {0}, last[7] = {1, 2, 3, 4, 5, 6, 7}, lg[7] = {0};
	std::thread a([&] { IO *io = mk(0); io->send_data(src, n); io->send_data(more, 5); ctr = io->counter; io->recv_data(bk, 3); io->send_data(last, 7); delete io; });
	IO *io = mk(1); io->recv_data(dst, n); io->recv_data(tail, 5);
	io->send_data(back, 3); io->recv_data(lg, 7);
	bool ok = !memcmp(tail, more, 5) && !memcmp(lg, last, 7); k = 1;
	for (size_t m : marks) if (dst[m] != k++) ok = false;
	size_t nz = 0; for (size_t i = 0; i < n; i += 1) { if (i % 4096 == 0 && i + 4096 < n) { static uint8_t z[4096]; if (!memcmp(dst + i, z, 4096)) { i += 4095; continue; } } nz += dst[i] != 0; }
	a.join(); delete io; ok = ok && !memcmp(bk, back, 3);
	std::vector<long long> w = {(long long)(n >> 16), (long long)(n & 65535)}, g = {(long long)(ctr >> 16), (long long)(ctr & 65535)};
	vh::J j("huge"); j.s("kind", kind).ints("n", w).ints("ctr", g).b("match", ok).i("marks", 9).i("nonzero", (long long)nz); j.end();
}
int main(int c, char **v) {
	if (c > 3 && !strncmp(v[3], "huge", 4)) {
		int k0, k1; int p = freePort(k0), q = freePort(k1); alarm(200);
		if (!strcmp(v[3], "hugenet")) hugeRun<NetIO>("net", [&](int s) { return s ? new NetIO("127.0.0.1", p, true) : new NetIO(nullptr, p, true); });
		else hugeRun<HighSpeedNetIO>("hs", [&](int s) { return s ? new HighSpeedNetIO("127.0.0.1", p, q, true) : new HighSpeedNetIO(nullptr, p, q, true); });
		return 0;
	}
	// chan <scenarios> <seed> net|hs
	auto sc = vh::readLines(v[1]); uint64_t seed = strtoull(v[2], 0, 10); bool hs = c > 3 && !strcmp(v[3], "hs");
	int patience = c > 4 ? atoi(v[4]) : 6;
	signal(SIGPIPE, SIG_IGN);
	{ int k0, k1; int p = freePort(k0), q = freePort(k1);
		if (hs) Decoy<HighSpeedNetIO>::open([&](int s) { return s ? new HighSpeedNetIO("127.0.0.1", p, q, true) : new HighSpeedNetIO(nullptr, p, q, true); });
		else Decoy<NetIO>::open([&](int s) { return s ? new NetIO("127.0.0.1", p, true) : new NetIO(nullptr, p, true); }); }
	uint64_t k = 0;
	for (auto &s : sc) {
		salt = seed * 1000003 + ++k; got[0] = got[1] = 0;
		const Val &ops = s["ops"];
		int fds = openFds();
		int seg = (int)s["seg"].n;       // 0: direct, else proxy with segments up to seg (negative: unlimited)
		{ vh::J j("new"); j.s("kind", hs ? "hs" : "net").b("proxy", seg != 0); ev(j); }
		int keep[2]; int port = freePort(keep[0]), port2 = hs ? freePort(keep[1]) : 0;
		Proxy *px = nullptr, *px2 = nullptr; int cp = port, cp2 = port2;
		if (seg) { px = new Proxy(port, salt, seg > 0 ? seg : 0); cp = px->lp; if (hs) { px2 = new Proxy(port2, salt + 1, seg > 0 ? seg : 0); cp2 = px2->lp; } }
		std::atomic<int> left{2};
		auto wrap = [&](int p) {
			if (hs) party<HighSpeedNetIO>(p, ops, [&] { return p == 0 ? new HighSpeedNetIO(nullptr, port, port2, true) : new HighSpeedNetIO("127.0.0.1", cp, cp2, true); });
			else party<NetIO>(p, ops, [&] { return p == 0 ? new NetIO(nullptr, port, true) : new NetIO("127.0.0.1", cp, true); });
			--left; std::lock_guard<std::mutex> g(lm); ++progress; lcv.notify_all();
		};
		std::thread a(wrap, 0), b(wrap, 1);
		{
			std::unique_lock<std::mutex> g(lm);
			while (left) {
				long pr = progress;
				if (!lcv.wait_for(g, std::chrono::seconds(patience), [&] { return progress != pr || !left; })) {
					g.unlock(); vh::J j("stuck"); j.i("left", left); j.end(); _exit(0);
				}
			}
		}
		a.join(); b.join();
		if (px) px->th.join(); if (px2) px2->th.join();
		if (hs) {
			// the client sends on the first connection, the server on the second
			if (px) { wireEvents(1, px->wire[1]); wireEvents(0, px2->wire[0]);
			          vh::J j("back"); j.i("n", (long long)(px->wire[0].size() + px2->wire[1].size())); ev(j); }
		} else if (px) { vh::J j("wirelen"); j.i("n0", (long long)px->wire[0].size()).i("n1", (long long)px->wire[1].size()); ev(j); }
		delete px; delete px2;
		syscall(3, keep[0]); if (hs) syscall(3, keep[1]);
		int hit = victimsAlive();
		{ vh::J j("over"); j.i("victims", hit).i("leaked", openFds() - fds); ev(j); }
	}
	return 0;
}
