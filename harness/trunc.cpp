// Streams that end early: each case runs the receiving side in a child process of its own.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <thread>
#include "vh.h"
#include "emp-tool/emp-tool.h"
using namespace emp;
using vh::Val;
static inline uint8_t sb(uint64_t k) { uint64_t z = (k + 1) * 0x9E3779B97F4A7C15ULL; z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ULL; return (uint8_t)(1 + (z >> 32) % 255); }
static int freePort(int &keep) {
	int s = socket(AF_INET, SOCK_STREAM, 0);
	struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_ANY);
	if (bind(s, (struct sockaddr *)&a, sizeof a)) exit(77);
	int one = 1; setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
	socklen_t l = sizeof a; getsockname(s, (struct sockaddr *)&a, &l); keep = s; return ntohs(a.sin_port);
}
static int dial(int port) {
	struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
	for (int i = 0; i < 4000; ++i) { int s = socket(AF_INET, SOCK_STREAM, 0); if (!connect(s, (struct sockaddr *)&a, sizeof a)) return s; close(s); usleep(500); }
	exit(77);
}
static int answer(int port) {
	struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_ANY); a.sin_port = htons(port);
	int s = socket(AF_INET, SOCK_STREAM, 0), one = 1; setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
	if (bind(s, (struct sockaddr *)&a, sizeof a) || listen(s, 1)) exit(77);
	int c = accept(s, 0, 0); close(s); return c;
}
static void put(int fd, const std::vector<uint8_t> &w, uint64_t seed) {
	vh::Rng r(seed); size_t o = 0;
	while (o < w.size()) { size_t n = 1 + r.below(r.coin() ? 50 : 60000); if (n > w.size() - o) n = w.size() - o; ssize_t k = ::send(fd, &w[o], n, MSG_NOSIGNAL); if (k <= 0) break; o += k; }
}
// child: perform the receives, report each through the pipe
static uint64_t pos; static int pfd;
static void say(int i, int at, int untouched) { int m[3] = {i, at, untouched}; if (write(pfd, m, sizeof m)) {} }
template <class IO> static void receives(IO *io, const Val &reqs, bool mem) {
	for (size_t i = 0; i < reqs.size(); ++i) {
		std::string k = reqs[(int)i]["k"].s; size_t n = (size_t)reqs[(int)i]["n"].n;
		size_t bytes = k == "block" ? 16 * n : k == "bool" ? n / 8 + n % 8 : n;
		size_t dst = k == "block" ? 16 * n : n;
		vh::GBuf g(dst + 16, k == "block" ? 0 : i % 7); memset(g.p, 0xEE, dst);
		static const int stale[] = {0, EINTR, EAGAIN, EINVAL, EPIPE}; errno = stale[(i + bytes) % 5];
		if (k == "block") io->recv_block((block *)g.p, n); else if (k == "bool") io->recv_bool((bool *)g.p, n); else io->recv_data(g.p, n);
		bool un = true; for (size_t j = 0; j < dst; ++j) if (g.p[j] != 0xEE) un = false;
		bool ok = g.intact();
		for (size_t j = 0; j < 16; ++j) if (g.p[dst + j] != 0xA5) ok = false;
		if (k == "bool") { for (size_t j = 0; j < n; ++j) { bool e = j < n / 8 * 8 ? (sb(pos + j / 8) >> (j % 8)) & 1 : 0; if (j < n / 8 * 8) { if (g.p[j] != e) ok = false; } else if (g.p[j] != sb(pos + n / 8 + (j - n / 8 * 8))) ok = false; } }
		else for (size_t j = 0; j < n * (k == "block" ? 16 : 1); ++j) if (g.p[j] != sb(pos + j)) { ok = false; break; }
		bool partial = mem && un && dst > 0;      // the memory channel reports failure by leaving the destination alone
		if (!partial) pos += bytes;
		say((int)i, partial ? -1 : ok ? 1 : 0, un);
	}
}
// bytes a HighSpeedNetIO puts on the wire for one byte and a flush: the size of its chunks
static int chunk() {
	int k0, k1, p0 = freePort(k0), p1 = freePort(k1); fflush(stdout); pid_t ch = fork();
	if (!ch) { dup2(open("/dev/null", O_WRONLY), 1); HighSpeedNetIO io("127.0.0.1", p0, p1, true); char x = 1; io.send_data(&x, 1); io.flush(); _exit(0); }
	int a = answer(p0), b = answer(p1), n = 0; char buf[65536]; ssize_t k; while ((k = recv(a, buf, sizeof buf, 0)) > 0) n += (int)k;
	close(a); close(b); close(k0); close(k1); waitpid(ch, 0, 0); return n > 0 ? n : 1;
}
int main(int c, char **v) {
	auto sc = vh::readLines(v[1]); uint64_t seed = strtoull(v[2], 0, 10), k = 0;
	int patience = 8; const int CH = chunk();
	for (auto &s : sc) {
		++k; std::string kind = s["kind"].s; const Val &reqs = s["reqs"]; size_t len = (size_t)s["len"].n, avail = (size_t)s["avail"].n;
		bool server = s["server"].n;
		std::vector<uint8_t> w(len); for (size_t i = 0; i < len; ++i) w[i] = sb(i);
		if (kind == "hs") w.resize((len + CH - 1) / CH * CH, 0);      // what a HighSpeedNetIO peer would have written
		if (avail < w.size()) w.resize(avail); else if (kind == "hs") avail = w.size();
		char file[] = "/tmp/vh-trunc-XXXXXX"; bool madefile = false;
		if (kind == "file") { int f = mkstemp(file); madefile = true; if (!w.empty() && write(f, w.data(), w.size()) != (ssize_t)w.size()) exit(77); close(f); }
		int k0 = -1, k1 = -1, p0 = 0, p1 = 0; if (kind == "net" || kind == "hs") { p0 = freePort(k0); p1 = freePort(k1); }
		int pp[2], ep[2]; if (pipe(pp) || pipe(ep)) exit(77);
		fflush(stdout);
		pid_t ch = fork();
		if (!ch) {
			close(pp[0]); close(ep[0]); dup2(ep[1], 2); dup2(ep[1], 1); pfd = pp[1];
			if (kind == "net") { NetIO *io = server ? new NetIO(nullptr, p0, true) : new NetIO("127.0.0.1", p0, true); receives(io, reqs, false); }
			else if (kind == "hs") { auto *io = server ? new HighSpeedNetIO(nullptr, p0, p1, true) : new HighSpeedNetIO("127.0.0.1", p0, p1, true); receives(io, reqs, false); }
			else if (kind == "file") { FileIO *io = new FileIO(file, true); receives(io, reqs, false); }
			else if (kind == "load") { FileIO *f; { char t[] = "/tmp/vh-load-XXXXXX"; int fd = mkstemp(t); if (!w.empty() && write(fd, w.data(), w.size())) {} close(fd); f = new FileIO(t, true); unlink(t); }
				MemIO *io = new MemIO(64); io->load_from_file(f, (int64_t)len); receives(io, reqs, true); }
			else { MemIO *io = new MemIO((int64_t)s["cap"].n); if (avail) io->send_data(w.data(), avail); receives(io, reqs, true); }
			_exit(0);
		}
		close(pp[1]); close(ep[1]);
		std::thread peer([&] {
			if (kind == "net") { int fd = server ? dial(p0) : answer(p0); put(fd, w, seed + k); close(fd); }
			else if (kind == "hs") {      // data for a server arrives on the first port, for a client on the second
				int a, b; if (server) { a = dial(p0); b = dial(p1); put(a, w, seed + k); } else { a = answer(p0); b = answer(p1); put(b, w, seed + k); }
				close(a); close(b);
			}
		});
		int st = 0; bool hang = true;
		for (int i = 0; i < patience * 1000; ++i) { pid_t r = waitpid(ch, &st, WNOHANG); if (r == ch) { hang = false; break; } usleep(i < 200 ? 100 : 1000); }
		if (hang) { kill(ch, SIGKILL); waitpid(ch, &st, 0); }
		peer.join();
		std::vector<int> res; int m[3]; while (read(pp[0], m, sizeof m) == sizeof m) res.push_back(m[1]);
		char eb[400]; ssize_t en = read(ep[0], eb, sizeof eb); close(pp[0]); close(ep[0]);
		if (k0 >= 0) { close(k0); close(k1); }
		if (madefile) unlink(file);
		std::string rq = "["; for (size_t i = 0; i < reqs.size(); ++i) { std::string q = reqs[(int)i]["k"].s; long long n = reqs[(int)i]["n"].n; if (i) rq += ","; rq += std::to_string(q == "block" ? 16 * n : q == "bool" ? n / 8 + n % 8 : n); } rq += "]";
		vh::J j("trunc"); j.s("kind", kind).i("server", server).i("len", (long long)len).i("avail", (long long)avail).i("ch", CH).raw("reqs", rq).ints("res", res)
			.b("hang", hang).i("sig", WIFSIGNALED(st) ? WTERMSIG(st) : 0).i("code", WIFEXITED(st) ? WEXITSTATUS(st) : -1).b("said", en > 0); j.end();
	}
	return 0;
}
