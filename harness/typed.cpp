// Typed transfers (raw bytes, blocks, bools, curve points) in any mixture over MemIO, FileIO and NetIO, with sender and
// receiver buffers at arbitrary addresses.
#include <sys/stat.h>
#include <thread>
#include "vh.h"
#include "proxy.h"
#include "emp-tool/emp-tool.h"
using namespace emp;
using vh::Val;
static std::vector<uint8_t> ptBytes(Point &p) { size_t n = p.size(); std::vector<uint8_t> b(n); p.to_bin(b.data(), n); return b; }
struct Msg { std::string k; size_t n; std::vector<uint8_t> v; size_t so, ro; };
static Group *G;
static Msg make(const Val &o, vh::Rng &r) {
	Msg m; m.k = o["k"].s; m.n = (size_t)o["n"].n; m.so = (size_t)o["so"].n; m.ro = (size_t)o["ro"].n;
	size_t b = m.k == "block" ? 16 * m.n : m.k == "pt" ? 0 : m.n;
	m.v.resize(b); r.fill(m.v.data(), b);
	if (m.k[0] == 'b' && m.k[1] == 'o') for (auto &x : m.v) x &= 1;
	return m;
}
static std::vector<Point> pts(Group *g, size_t n, vh::Rng &r) {
	std::vector<Point> v;
	for (size_t i = 0; i < n; ++i) { BigInt k; uint8_t b[32]; r.fill(b, 32); int sp = (int)r.below(8); if (sp < 2) memset(b, 0, 31); if (sp == 2) memset(b, 0, 32); b[0] &= 0x7f; k.from_bin(b, 32); v.push_back(g->mul_gen(k)); }
	return v;
}
template <class IO> static void tx(IO *io, Msg &m, Group *g, vh::Rng &r, const char *ch) {
	uint64_t c0 = io->counter;
	bool same = true;
	if (m.k == "pt") {
		auto v = pts(g, m.n, r); m.v.clear(); for (auto &p : v) { auto b = ptBytes(p); m.v.insert(m.v.end(), b.begin(), b.end()); }
		io->send_pt(v.data(), m.n);
	} else {
		vh::GBuf s(m.v.size(), m.k == "block" ? m.so / 16 * 16 : m.k == "boola" ? m.so / 8 * 8 : m.so, m.v.size() % 3 == 1 && m.k != "block" && m.k != "boola");
		memcpy(s.p, m.v.data(), m.v.size());
		if (m.k == "block") io->send_block((const block *)s.p, m.n); else if (m.k == "bool") io->send_bool((bool *)s.p, m.n);
		else if (m.k == "boola") io->send_bool_aligned((const bool *)s.p, m.n); else io->send_data(s.p, m.n);
		same = s.intact() && !memcmp(s.p, m.v.data(), m.v.size());
	}
	vh::J j("tx"); j.s("ch", ch).s("k", m.k).i("n", m.n).bytes("v", m.v.data(), m.v.size()).i("d", (long long)(io->counter - c0)).b("same", same); j.end();
}
template <class IO> static std::string rx(IO *io, Msg &m, Group *g, const char *ch) {
	std::vector<uint8_t> got; bool intact = true;
	if (m.k == "pt") {
		std::vector<Point> v(m.n);
		if (m.ro & 1) for (size_t i = 0; i < m.n; ++i) { BigInt k; uint8_t b[2] = {(uint8_t)(m.ro + i), 7}; k.from_bin(b, m.ro & 2 ? 2 : 0); v[i] = g->mul_gen(k); } // destinations that held another point
		io->recv_pt(g, v.data(), m.n);
		for (auto &p : v) { auto b = ptBytes(p); got.insert(got.end(), b.begin(), b.end()); }
	} else {
		size_t b = m.k == "block" ? 16 * m.n : m.n;
		vh::GBuf d(b, m.k == "block" ? m.ro / 16 * 16 : m.k == "boola" ? m.ro / 8 * 8 : m.ro, b % 3 == 2 && m.k != "block" && m.k != "boola");
		if (m.k == "block") io->recv_block((block *)d.p, m.n); else if (m.k == "bool") io->recv_bool((bool *)d.p, m.n);
		else if (m.k == "boola") io->recv_bool_aligned((bool *)d.p, m.n); else io->recv_data(d.p, m.n);
		intact = d.intact(); got.assign(d.p, d.p + b);
	}
	vh::J j("rx"); j.s("ch", ch).s("k", m.k).i("n", m.n).bytes("v", got.data(), got.size()).b("intact", intact); return j.str();
}
// a transport that only counts, for volumes no real one could carry here
struct Sink : public IOChannel<Sink> {
	uint64_t total = 0;
	void send_data_internal(const void *, size_t n) { total += n; }
	void recv_data_internal(void *p, size_t n) { memset(p, 0, n); }
	void flush() {}
};
static void volumes() {
	Sink io; static uint8_t buf[64];
	auto lim = [](uint64_t x) { std::vector<long long> q; for (int i = 0; i < 4; ++i) q.push_back((long long)((x >> (16 * i)) & 65535)); return q; };
	for (uint64_t n : {1ull, (1ull << 31) - 1, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 33) + 7, 1ull << 40}) {
		io.send_data(buf, n); io.send_block((const block *)buf, n);
		vh::J j("vol"); j.ints("n", lim(n)).ints("ctr", lim(io.counter)).ints("transport", lim(io.total)); j.end();
	}
}
// a memory channel that counts what it is given
struct Tap : public IOChannel<Tap> {
	MemIO m{64}; uint64_t held = 0;
	void send_data_internal(const void *p, size_t n) { held += n; m.send_data(p, n); }
	void recv_data_internal(void *p, size_t n) { m.recv_data(p, n); }
	void flush() {}
};
// long vectors of each kind through one memory channel: first place that differs, and the counter
static void longVectors(vh::Rng &r) {
	Tap io; uint64_t c = 0;
	for (size_t n : {4096ull, 65535ull, 65536ull, 65543ull, 200001ull, 1048579ull}) {
		for (int kind = 0; kind < 4; ++kind) {
			size_t b = kind == 0 ? 16 * n : n; vh::GBuf s(b, kind == 0 ? 0 : kind == 2 ? 8 : n % 13), d(b, kind == 0 ? 16 : kind == 2 ? 24 : n % 7);
			r.fill(s.p, b); if (kind == 1 || kind == 2) for (size_t i = 0; i < b; ++i) s.p[i] &= 1;
			uint64_t c0 = io.counter;
			if (kind == 0) { io.send_block((const block *)s.p, n); io.recv_block((block *)d.p, n); }
			else if (kind == 1) { io.send_bool((bool *)s.p, n); io.recv_bool((bool *)d.p, n); }
			else if (kind == 2) { io.send_bool_aligned((const bool *)s.p, n); io.recv_bool_aligned((bool *)d.p, n); }
			else { io.send_data(s.p, n); io.recv_data(d.p, n); }
			long long bad = -1; for (size_t i = 0; i < b && bad < 0; ++i) if (s.p[i] != d.p[i]) bad = (long long)i;
			vh::J j("long"); j.s("k", kind == 0 ? "block" : kind == 3 ? "data" : "bool").i("n", (long long)n).i("d", (long long)(io.counter - c0)).i("held", (long long)(io.held - c)).i("bad", bad).b("intact", s.intact() && d.intact()); j.end();
			c = io.held;
		}
	}
}
static void put(const std::string &s) { fputs((s + "\n").c_str(), stdout); }
int main(int c, char **v) {
	{ vh::Rng r0(77); longVectors(r0); }
	volumes(); auto sc = vh::readLines(v[1]); uint64_t seed = strtoull(v[2], 0, 10), k = 0;
	char dir[] = "/tmp/vh-typed-XXXXXX"; if (!mkdtemp(dir)) return 77;
	std::string path = std::string(dir) + "/f";
	for (auto &s : sc) {
		vh::Rng r(seed * 31337 + ++k); const Val &ops = s["ops"]; std::string ch = s["ch"].s;
		Group g, g2;
		put("{\"e\":\"new\",\"ch\":\"" + ch + "\"}");
		std::vector<Msg> q; size_t head = 0;
		if (ch == "mem") {      // interleaved
			MemIO io((int64_t)s["cap"].n);
			for (size_t i = 0; i < ops.size(); ++i) {
				if (ops[i]["k"].s == "get") { if (head < q.size()) { put(rx(&io, q[head], &g2, "mem")); ++head; } }
				else { q.push_back(make(ops[i], r)); tx(&io, q.back(), &g, r, "mem"); }
			}
			for (; head < q.size(); ++head) put(rx(&io, q[head], &g2, "mem"));
			uint64_t total = io.counter;      // what was handed over can be read again from a fresh position: count it
			vh::J j("done"); j.i("ctr", (long long)total).i("transport", -1); j.end();
		} else if (ch == "file") {
			FileIO io(path.c_str(), false); long long last = 0;
			for (size_t i = 0; i < ops.size(); ++i) if (ops[i]["k"].s != "get") {
				q.push_back(make(ops[i], r)); tx(&io, q.back(), &g, r, "file"); io.flush();
				struct stat st; stat(path.c_str(), &st); vh::J j("len"); j.i("ctr", (long long)io.counter).i("transport", (long long)st.st_size); j.end(); last = st.st_size;
			}
			io.reset();
			for (auto &m : q) put(rx(&io, m, &g2, "file"));
			vh::J j("done"); j.i("ctr", (long long)io.counter).i("transport", last); j.end();
		} else {
			int keep; int port = freePort(keep); Proxy px(port, seed + k, (int)r.below(3) == 0 ? 7 : 0);
			for (size_t i = 0; i < ops.size(); ++i) if (ops[i]["k"].s != "get") q.push_back(make(ops[i], r));
			std::vector<std::string> logs; uint64_t ctr = 0;
			{
				std::thread t([&] { NetIO io(nullptr, port, true); io.sync(); std::vector<Msg> qq = q; for (auto &m : qq) logs.push_back(rx(&io, m, &g2, "net")); });
				NetIO *io = new NetIO("127.0.0.1", px.lp, true); io->sync();
				for (auto &m : q) tx(io, m, &g, r, "net");
				ctr = io->counter; delete io; t.join();
			}
			px.th.join(); syscall(3, keep);
			for (auto &l : logs) put(l);
			vh::J j("done"); j.i("ctr", (long long)ctr).i("transport", (long long)px.wire[1].size() - 1); j.end();      // minus the sync byte
		}
	}
	unlink(path.c_str()); rmdir(dir);
	return 0;
}
