// Loopback helpers: a free port, and a TCP proxy that re-segments and records both directions.
#ifndef PROXY_H
#define PROXY_H
#include <arpa/inet.h>
#include <errno.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <thread>
#include "vh.h"
static int freePort(int &keep) {
	int s = socket(AF_INET, SOCK_STREAM, 0);
	struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_ANY);
	if (bind(s, (struct sockaddr *)&a, sizeof a)) exit(77);
	int one = 1; setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
	socklen_t l = sizeof a; getsockname(s, (struct sockaddr *)&a, &l); keep = s; return ntohs(a.sin_port);
}

struct Proxy {      // client -> port lp -> server port sp; records what each side wrote
	int ls, sp, lp; std::thread th; std::vector<uint8_t> wire[2]; uint64_t seed; int maxseg;
	Proxy(int sp, uint64_t seed, int maxseg) : sp(sp), seed(seed), maxseg(maxseg) {
		ls = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		if (bind(ls, (struct sockaddr *)&a, sizeof a) || listen(ls, 1)) exit(77);
		socklen_t l = sizeof a; getsockname(ls, (struct sockaddr *)&a, &l); lp = ntohs(a.sin_port);
		th = std::thread([this] { run(); });
	}
	void run() {
		vh::Rng r(seed);
		int c = accept(ls, nullptr, nullptr), s;
		struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(sp);
		for (;;) { s = socket(AF_INET, SOCK_STREAM, 0); if (!connect(s, (struct sockaddr *)&a, sizeof a)) break; syscall(3, s); usleep(500); }
		syscall(3, ls);
		int one = 1; setsockopt(c, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
		int fd[2] = {s, c}; bool open_[2] = {true, true};   // index = party whose bytes arrive on fd
		std::vector<uint8_t> pend[2]; size_t off[2] = {0, 0};
		std::vector<uint8_t> buf(262144);
		while (open_[0] || open_[1] || off[0] < pend[0].size() || off[1] < pend[1].size()) {
			struct pollfd pf[2];
			for (int i = 0; i < 2; ++i) {
				pf[i].fd = fd[i]; pf[i].events = (short)((open_[i] && pend[i].size() - off[i] < 4000000 ? POLLIN : 0) | (off[1 - i] < pend[1 - i].size() ? POLLOUT : 0)); pf[i].revents = 0;
				if (!pf[i].events) pf[i].fd = -1;
			}
			if (poll(pf, 2, 10000) <= 0) break;
			for (int i = 0; i < 2; ++i) {
				if (open_[i] && (pf[i].revents & (POLLIN | POLLHUP | POLLERR))) {
					size_t want = maxseg ? 1 + r.below(maxseg) : buf.size(); if (want > buf.size()) want = buf.size();
					ssize_t k = recv(fd[i], buf.data(), want, 0);
					if (k <= 0) { open_[i] = false; if (off[i] >= pend[i].size()) shutdown(fd[1 - i], SHUT_WR); }
					else { wire[i].insert(wire[i].end(), buf.data(), buf.data() + k); pend[i].insert(pend[i].end(), buf.data(), buf.data() + k); }
				}
				int o = 1 - i;      // write to fd[i] what o sent
				if (off[o] < pend[o].size() && (pf[i].revents & POLLOUT)) {
					size_t want = pend[o].size() - off[o]; if (maxseg) { size_t m = 1 + r.below(maxseg); if (m < want) want = m; }
					ssize_t k = ::send(fd[i], pend[o].data() + off[o], want, MSG_NOSIGNAL | MSG_DONTWAIT);
					if (k > 0) off[o] += k; else if (errno != EAGAIN) { off[o] = pend[o].size(); }
					if (off[o] == pend[o].size()) { pend[o].clear(); off[o] = 0; if (!open_[o]) shutdown(fd[i], SHUT_WR); }
				}
			}
		}
		syscall(3, c); syscall(3, s);
	}
};

#endif
