// Endpoints meeting each other: every scenario runs in a child process, both sides as threads. connect() is interposed so
// that a chosen attempt gets the destination port as its source port, which the kernel may do with any attempt.
#include <arpa/inet.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <atomic>
#include <chrono>
#include <mutex>
#include <thread>
#include "vh.h"
#include "emp-tool/emp-tool.h"
using namespace emp;
using vh::Val;

static const int MAXP = 8;
static int port_[MAXP];                       // ports of the running scenario
static std::atomic<int> tries[MAXP], listens[MAXP];
static int selfAt[MAXP], holdIt[MAXP]; static in_addr_t want; static std::atomic<int> wrong;
static void nap(int us) { struct timespec t = {us / 1000000, (us % 1000000) * 1000L}; syscall(SYS_nanosleep, &t, (void *)0); }
static int slot(const struct sockaddr *a) { if (a && a->sa_family == AF_INET) for (int i = 0; i < MAXP; ++i) if (port_[i] && ntohs(((const sockaddr_in *)a)->sin_port) == port_[i]) return i; return -1; }
extern "C" int connect(int fd, const struct sockaddr *a, socklen_t n) {
	int i = slot(a); bool mine = false;
	if (i >= 0 && tries[i] + 1 == selfAt[i]) mine = syscall(SYS_bind, fd, a, n) == 0;
	int r = (int)syscall(SYS_connect, fd, a, n), e = errno;
	if (i >= 0) {
		++tries[i]; if (((const sockaddr_in *)a)->sin_addr.s_addr != want) ++wrong;
		if (mine && r == 0 && holdIt[i]) for (int k = 0; k < 300 && !listens[i]; ++k) nap(1000);
	}
	errno = e; return r;
}
static thread_local int bound = -1;
extern "C" int bind(int fd, const struct sockaddr *a, socklen_t n) noexcept { bound = slot(a); return (int)syscall(SYS_bind, fd, a, n); }
extern "C" int listen(int fd, int n) noexcept { int r = (int)syscall(SYS_listen, fd, n), e = errno; if (bound >= 0) ++listens[bound]; errno = e; return r; }

// a descriptor closed twice may by then belong to another pair
extern "C" int close(int fd) { int r = (int)syscall(SYS_close, fd), e = errno; if (r && e == EBADF && fd >= 0) ++wrong; errno = e; return r; }
// sleeps of the code under test are skipped while a client is to make very many attempts
static std::atomic<bool> hurry;
extern "C" int usleep(useconds_t us) { if (!hurry) nap((int)us); return 0; }
extern "C" int nanosleep(const struct timespec *a, struct timespec *b) { return hurry ? 0 : (int)syscall(SYS_nanosleep, a, b); }
extern "C" int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { return hurry ? 0 : syscall(SYS_clock_nanosleep, c, f, a, b) ? errno : 0; }

static int freePort() {
	static uint32_t next = 0; if (!next) next = (uint32_t)getpid() * 7919u;
	for (;;) {
		int p = 33000 + (int)((next += 13) % 27000);
		int s = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a);
		a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_ANY); a.sin_port = htons(p);
		int r = (int)syscall(SYS_bind, s, &a, sizeof a);           // without reuse: nobody holds it at all
		close(s); if (r == 0) return p;
	}
}
static bool isOpen(int port) {
	struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
	int s = socket(AF_INET, SOCK_STREAM, 0), r = (int)syscall(SYS_connect, s, &a, sizeof a);
	bool self = false; if (r == 0) { struct sockaddr_in m; socklen_t l = sizeof m; getsockname(s, (struct sockaddr *)&m, &l); self = m.sin_port == a.sin_port; }
	close(s); return r == 0 && !self;
}
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }

static int out; static std::mutex mu;
static void say(vh::J &j) { std::lock_guard<std::mutex> g(mu); std::string s = j.str() + "\n"; size_t o = 0; while (o < s.size()) { ssize_t k = write(out, s.data() + o, s.size() - o); if (k <= 0) _exit(3); o += k; } }
static void say(const char *e, int q, int p) { vh::J j(e); j.i("q", q).i("p", p); say(j); }
struct Gate { std::atomic<int> n; Gate() : n(0) {} void come(int all) { ++n; while (n < all) nap(200); } };

template <class IO> static void side(std::function<IO *()> make, int q, int p, int sess, int len, int before, const std::function<void()> &probe, Gate &met, Gate &probed, int shut) {
	if (before) nap(before);
	say("beg", q, p);
	IO *io = make();
	say("up", q, p);
	int mine = 1000 * sess + 10 * q + p, got = -1; std::vector<uint8_t> a(len), b(len);
	for (int i = 0; i < len; ++i) a[i] = (uint8_t)(i * 7 + mine);
	io->send_data(&mine, 4); if (len) io->send_data(a.data(), len); io->flush();
	io->recv_data(&got, 4); if (len) io->recv_data(b.data(), len);
	bool ok = true; for (int i = 0; i < len; ++i) if (b[i] != (uint8_t)(i * 7 + got)) ok = false;
	{ vh::J j("heard"); j.i("q", q).i("p", p).i("token", got).b("ok", ok); say(j); }
	met.come(2); if (p == 0) probe(); probed.come(2);
	if (shut != 2 && shut != p) nap(3000);
	delete io;
	say("shut", q, p);
}
template <class F> static void bad(const char *kind, int port, F f) {
	int n0 = fds(); bool threw = false; try { f(); } catch (const std::exception &) { threw = true; }
	vh::J j("bad"); j.s("kind", kind).i("port", port).b("threw", threw).i("delta", fds() - n0); say(j);
}
static void scenario(const Val &s) {
	bool hs = s["kind"].s == "hs"; int K = (int)s["pairs"].n; const Val &ss = s["sess"];
	for (int i = 0; i < 2 * K; ++i) { do { port_[i] = freePort(); for (int j = 0; j < i; ++j) if (port_[j] == port_[i]) port_[i] = 0; } while (!port_[i]); }
	{ vh::J j("new"); j.i("pairs", K).s("kind", s["kind"].s); say(j); }
	{ NetIO *warm = nullptr; (void)warm; std::thread([] {}).join(); }
	for (size_t n = 0; n < ss.size(); ++n) {
		const Val &c = ss[n]; int n0 = fds();
		for (int i = 0; i < MAXP; ++i) { tries[i] = 0; listens[i] = 0; selfAt[i] = 0; holdIt[i] = 0; }
		bool server = c["first"].n == 0; int self = (int)c["self"].n, hold = (int)c["hold"].n, len = (int)c["len"].n, delay = (int)c["delay"].n * 1000, many = server ? 0 : (int)c["many"].n; hurry = many > 0;
		std::string addr = "127.0.0.1"; if (!self && c["addr"].n) addr = c["addr"].n == 1 ? "127.0.0.2" : "127.9.8.7";
		want = inet_addr(addr.c_str()); wrong = 0;
		std::vector<std::thread> th; std::vector<Gate> met(K), probed(K);
		for (int q = 1; q <= K; ++q) {
			int i0 = 2 * (q - 1), i1 = i0 + 1;
			if (self) { int i = hs && c["port"].n ? i1 : i0; selfAt[i] = self; holdIt[i] = hold; }
			int p0 = port_[i0], p1 = port_[i1];
			for (int p = 0; p < 2; ++p) th.emplace_back([=, &c, &met, &probed] {
				bool later = server == (p == 1); int before = later ? delay : 0;
				if (later && p == 0 && self && (!hs || !c["port"].n)) for (int k = 0; k < 1500 && tries[i0] < self + (hold ? -1 : 1); ++k) nap(1000);   // until the client had that attempt
				if (later && p == 0 && many) { for (int k = 0; k < 6000 && tries[i0] < many; ++k) nap(1000); hurry = false; }
				if (later && p == 0 && self && hold) nap(20000);
				std::function<void()> probe = [=] { vh::J j("probe"); j.i("q", q).b("open", isOpen(p0) || (hs && isOpen(p1))); say(j); };
				if (hs) side<HighSpeedNetIO>([=] { return new HighSpeedNetIO(p ? addr.c_str() : nullptr, p0, p1, true); }, q, p, (int)n, len, before, probe, met[q - 1], probed[q - 1], (int)c["shut"].n);
				else side<NetIO>([=] { return new NetIO(p ? addr.c_str() : nullptr, p0, true); }, q, p, (int)n, len, before, probe, met[q - 1], probed[q - 1], (int)c["shut"].n);
			});
		}
		for (auto &t : th) t.join();
		vh::J j("end"); j.i("sess", n).i("delta", fds() - n0).i("wrong", wrong); say(j);
		int b = (int)c["bad"].n;
		if (b) {
			const char *addr = n % 2 ? "127.0.0.1" : nullptr; int good = port_[0];
			if (!hs) bad("net", b, [=] { delete new NetIO(addr, b, true); });
			else if (c["port"].n) bad("hs-send", b, [=] { delete new HighSpeedNetIO(addr, b, good, true); });
			else bad("hs-recv", b, [=] { delete new HighSpeedNetIO(addr, good, b, true); });
		}
	}
}
int main(int c, char **v) {
	auto sc = vh::readLines(v[1]); signal(SIGPIPE, SIG_IGN);
	for (auto &s : sc) {
		int pp[2]; if (pipe(pp)) exit(77);
		fflush(stdout); pid_t ch = fork();
		if (!ch) { close(pp[0]); out = pp[1]; int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2); scenario(s); _exit(0); }
		close(pp[1]);
		std::string ev; char buf[4096]; bool hang = false; int budget = 20000;
		auto t0 = std::chrono::steady_clock::now();
		for (;;) {
			int left = budget - (int)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
			struct pollfd f = {pp[0], POLLIN, 0}; if (left <= 0 || poll(&f, 1, left) <= 0) { hang = true; break; }
			ssize_t k = read(pp[0], buf, sizeof buf); if (k <= 0) break; ev.append(buf, k);
		}
		if (hang) kill(ch, SIGKILL);
		int st = 0; waitpid(ch, &st, 0); close(pp[0]);
		while (!ev.empty() && ev.back() != '\n') ev.pop_back();
		fwrite(ev.data(), 1, ev.size(), stdout);
		vh::J j("fin"); j.i("code", hang ? 1000 : WIFEXITED(st) ? WEXITSTATUS(st) : 2000 + WTERMSIG(st)); j.end();
		if (hang) return 0;
	}
	return 0;
}
