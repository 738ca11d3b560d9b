// Common harness helpers: deterministic RNG, ndjson event writer, tiny JSON reader, guarded buffers.
#ifndef VH_H
#define VH_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <map>
#include <string>
#include <vector>

namespace vh {
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { for(int i=0;i<4;++i) next(); }
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int64_t range(int64_t a, int64_t b) { return a + (int64_t)below(b - a + 1); }
	bool coin() { return next() >> 63; }
	void fill(void *p, size_t n) { uint8_t *b = (uint8_t *)p; for (size_t i = 0; i < n; ++i) b[i] = (uint8_t)(next() >> 33); }
};

struct J {
	std::string o;
	bool first = true;
	J() { o = "{"; }
	explicit J(const char *e) { o = "{"; s("e", e); }
	void k(const char *key) { if (!first) o += ","; first = false; o += "\""; o += key; o += "\":"; }
	J &s(const char *key, const std::string &v) { k(key); o += "\""; o += v; o += "\""; return *this; }
	J &i(const char *key, long long v) { k(key); o += std::to_string(v); return *this; }
	J &b(const char *key, bool v) { k(key); o += v ? "true" : "false"; return *this; }
	J &raw(const char *key, const std::string &v) { k(key); o += v; return *this; }
	static std::string arr(const uint8_t *p, size_t n) {
		std::string r = "[";
		for (size_t i = 0; i < n; ++i) { if (i) r += ","; r += std::to_string((int)p[i]); }
		return r + "]";
	}
	J &bytes(const char *key, const void *p, size_t n) { k(key); o += arr((const uint8_t *)p, n); return *this; }
	template <class V> J &ints(const char *key, const V &v) {
		k(key); o += "["; bool f = true;
		for (auto x : v) { if (!f) o += ","; f = false; o += std::to_string((long long)x); }
		o += "]"; return *this;
	}
	// 64-bit value as 8 little-endian bytes
	J &u64(const char *key, uint64_t v) { return bytes(key, &v, 8); }
	// n bits of little-endian memory as limbs of 12 bits, little-endian
	void end() { o += "}\n"; fwrite(o.data(), 1, o.size(), stdout); fflush(stdout); }
	std::string str() { return o + "}"; }
};

struct Val {
	enum T { NUL, NUM, STR, ARR, OBJ, BOOL } t = NUL;
	long long n = 0;
	std::string s;
	std::vector<Val> a;
	std::map<std::string, Val> o;
	const Val &operator[](const char *k) const { static Val z; auto it = o.find(k); return it == o.end() ? z : it->second; }
	const Val &operator[](size_t i) const { return a[i]; }
	const Val &operator[](int i) const { return a[i]; }
	size_t size() const { return a.size(); }
	bool has(const char *k) const { return o.count(k); }
	std::vector<uint8_t> bytes() const { std::vector<uint8_t> r; for (auto &x : a) r.push_back((uint8_t)x.n); return r; }
};
struct Parser {
	const char *p;
	void ws() { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') ++p; }
	Val val() {
		ws(); Val v;
		if (*p == '{') {
			v.t = Val::OBJ; ++p; ws();
			while (*p != '}') { Val k = val(); ws(); ++p; v.o[k.s] = val(); ws(); if (*p == ',') { ++p; ws(); } }
			++p;
		} else if (*p == '[') {
			v.t = Val::ARR; ++p; ws();
			while (*p != ']') { v.a.push_back(val()); ws(); if (*p == ',') { ++p; ws(); } }
			++p;
		} else if (*p == '"') {
			v.t = Val::STR; ++p;
			while (*p != '"') { if (*p == '\\') ++p; v.s += *p++; }
			++p;
		} else if (*p == 't') { v.t = Val::BOOL; v.n = 1; p += 4; }
		else if (*p == 'f') { v.t = Val::BOOL; v.n = 0; p += 5; }
		else if (*p == 'n') { p += 4; }
		else { v.t = Val::NUM; char *e; v.n = strtoll(p, &e, 10); p = e; }
		return v;
	}
};
inline std::vector<Val> readLines(const char *file) {
	std::vector<Val> r; FILE *f = fopen(file, "r"); if (!f) { fprintf(stderr, "no %s\n", file); exit(77); }
	std::string l; int c;
	while ((c = fgetc(f)) != EOF) { if (c == '\n') { if (!l.empty()) { Parser q{l.c_str()}; r.push_back(q.val()); } l.clear(); } else l += (char)c; }
	if (!l.empty()) { Parser q{l.c_str()}; r.push_back(q.val()); }
	fclose(f); return r;
}

// Buffer of n bytes at address = misalign (mod 64), with canaries on both sides; with atend the last
// byte touches an unmapped page, so reads or writes past the end crash.
struct GBuf {
	uint8_t *map = nullptr, *p = nullptr; size_t n, total; bool atend;
	static const size_t M = 128;
	GBuf(size_t n, size_t misalign = 0, bool atend = false, uint8_t fill = 0xA5) : n(n), atend(atend) {
		size_t pg = 4096, body = ((n + 2 * M + 64 + pg - 1) / pg) * pg;
		total = body + pg;
		map = (uint8_t *)mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (map == (uint8_t *)MAP_FAILED) exit(77);
		mprotect(map + body, pg, PROT_NONE);
		memset(map, 0xC7, body);
		if (atend) p = map + body - n; else p = map + M + misalign;
		memset(p, fill, n);
		total = body + pg;
	}
	~GBuf() { munmap(map, total); }
	GBuf(const GBuf &) = delete;
	bool intact() const {
		uint8_t *e = map + total - 4096;
		for (uint8_t *q = map; q < p; ++q) if (*q != 0xC7) return false;
		for (uint8_t *q = p + n; q < e; ++q) if (*q != 0xC7) return false;
		return true;
	}
};
}
#endif
