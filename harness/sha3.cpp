// SHA3-256: the OpenSSL front end on plain memory and the in-circuit calculator, in the clear and garbled. The Keccak-f
// circuit file is not shipped, so one generated here from the definition of the permutation is linked in its place.
#include "backends.h"
#include "emp-tool/circuits/sha3_256.h"
unsigned char emp_tool_circuits_files_bristol_fashion_Keccak_f_txt[12 << 20];
unsigned int emp_tool_circuits_files_bristol_fashion_Keccak_f_txt_len = 0;
using namespace emp;
static int pos(int b) { return 8 * (199 - b / 8) + b % 8; }      // wire of state bit b
static void genKeccak() {
	static const int R[25] = {0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14};
	struct Gt { char t; int a, b, o; }; std::vector<Gt> g; int nw = 1600;
	auto mk = [&](char t, int a, int b) { g.push_back({t, a, b, nw}); return nw++; };
	std::vector<int> A(1600), B(1600), C(320), D(320);
	for (int i = 0; i < 1600; ++i) A[i] = pos(i);
	int lf = 1; auto rc = [&] { int o = lf & 1; lf <<= 1; if (lf & 256) lf ^= 0x171; return o; };
	for (int r = 0; r < 24; ++r) {
		for (int x = 0; x < 5; ++x) for (int z = 0; z < 64; ++z) { int t = A[64 * x + z]; for (int y = 1; y < 5; ++y) t = mk('X', t, A[64 * (x + 5 * y) + z]); C[64 * x + z] = t; }
		for (int x = 0; x < 5; ++x) for (int z = 0; z < 64; ++z) D[64 * x + z] = mk('X', C[64 * ((x + 4) % 5) + z], C[64 * ((x + 1) % 5) + (z + 63) % 64]);
		for (int i = 0; i < 1600; ++i) A[i] = mk('X', A[i], D[64 * ((i / 64) % 5) + i % 64]);
		for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) for (int z = 0; z < 64; ++z) B[64 * (y + 5 * ((2 * x + 3 * y) % 5)) + (z + R[x + 5 * y]) % 64] = A[64 * (x + 5 * y) + z];
		for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) for (int z = 0; z < 64; ++z) {
			int n = mk('N', B[64 * ((x + 1) % 5 + 5 * y) + z], 0), a = mk('A', n, B[64 * ((x + 2) % 5 + 5 * y) + z]);
			A[64 * (x + 5 * y) + z] = mk('X', B[64 * (x + 5 * y) + z], a);
		}
		for (int j = 0; j < 7; ++j) if (rc()) A[(1 << j) - 1] = mk('N', A[(1 << j) - 1], 0);
	}
	// the outputs must be the last 1600 wires, in order: renumber
	std::vector<int> nn(nw, -1); for (int i = 0; i < 1600; ++i) nn[A[i]] = nw - 1600 + pos(i);
	int c = 0; for (int i = 0; i < nw; ++i) if (nn[i] < 0) nn[i] = c++;
	std::string s = std::to_string(g.size()) + " " + std::to_string(nw) + "\n1 1600\n1 1600\n\n";
	for (auto &q : g) s += q.t == 'N' ? "1 1 " + std::to_string(nn[q.a]) + " " + std::to_string(nn[q.o]) + " INV\n" : "2 1 " + std::to_string(nn[q.a]) + " " + std::to_string(nn[q.b]) + " " + std::to_string(nn[q.o]) + (q.t == 'X' ? " XOR\n" : " AND\n");
	if (s.size() > sizeof(emp_tool_circuits_files_bristol_fashion_Keccak_f_txt)) exit(78);
	memcpy(emp_tool_circuits_files_bristol_fashion_Keccak_f_txt, s.data(), s.size()); emp_tool_circuits_files_bristol_fashion_Keccak_f_txt_len = (unsigned)s.size();
}
template <class T> static void plain(vh::Rng &r, size_t n) {
	vh::GBuf in(n * sizeof(T), 0, true); r.fill(in.p, n * sizeof(T)); std::vector<uint8_t> d(in.p, in.p + n * sizeof(T));
	vh::GBuf out(32, 0, true); int rc = sha3_256(out.p, (const T *)in.p, n);
	vh::J j("plain"); j.i("w", sizeof(T)).i("rc", rc).bytes("data", d.data(), d.size()).bytes("out", out.p, 32).b("ok", out.intact() && in.intact()); j.end();
}
static void bulk(vh::Rng &r, size_t n) { // long inputs against the library called directly
	std::vector<uint64_t> d(n / 8 + 2); r.fill(d.data(), 8 * d.size()); std::string outs = "["; int rc = 0;
	auto one = [&](int w, int got, const uint8_t *o) { size_t bytes = n / w * w; uint8_t z[32]; unsigned zl = 32; EVP_Digest(d.data(), bytes, z, &zl, EVP_sha3_256(), nullptr); rc |= got; outs += (outs.size() > 1 ? "," : "") + ("[" + vh::J::arr(o, 32) + "," + vh::J::arr(z, 32)) + "]"; };
	uint8_t o[32]; int q;
	q = sha3_256(o, (const uint8_t *)d.data(), n); one(1, q, o); q = sha3_256(o, (const uint16_t *)d.data(), n / 2); one(2, q, o);
	q = sha3_256(o, (const uint32_t *)d.data(), n / 4); one(4, q, o); q = sha3_256(o, (const uint64_t *)d.data(), n / 8); one(8, q, o);
	vh::J j("bulk"); j.i("n", (long long)n).i("rc", rc).raw("pairs", outs + "]").b("ok", true); j.end();
}
static block bitBlock(bool v, int party) { return Bit(v, party).bit; }
int main(int, char **v) {
	auto sc = vh::readLines(v[1]); uint64_t seed = strtoull(v[2], 0, 10), k = 0; genKeccak();
	for (auto &s : sc) {
		vh::Rng r(seed * 7919 + ++k); const vh::Val &ops = s["ops"];
		bk::Session ses((int)s["kind"].n, seed + k); SHA3_256_Calculator calc;
		for (size_t q = 0; q < ops.size(); ++q) {
			std::string api = ops[q]["api"].s; const vh::Val &sz = ops[q]["sizes"]; int pat = (int)ops[q]["pat"].n;
			if (api == "bulk") { bulk(r, (size_t)sz[0].n); continue; }
			if (api == "plain") { int n = (int)sz[0].n; switch (n % 4) { case 0: plain<uint8_t>(r, n); break; case 1: plain<uint16_t>(r, n); break; case 2: plain<uint32_t>(r, n / 2); break; default: plain<uint64_t>(r, n / 4); } continue; }
			size_t m = sz.size(); std::vector<std::vector<bool>> bits(m); std::vector<std::vector<block>> lab(m); std::vector<const block *> ptr(m + 1); std::vector<size_t> len(m + 1); std::vector<Integer> ints(m);
			std::string parts = "[";
			for (size_t i = 0; i < m; ++i) {
				size_t n = (size_t)sz[i].n; std::vector<Bit> bb; std::vector<uint8_t> lb;
				for (size_t t = 0; t < n; ++t) { bool x = pat == 0 ? false : pat == 1 ? true : r.coin(); int pub = (int)ops[q]["pub"].n; Bit b(x, (pub == 1 || (pub == 2 && r.coin())) ? PUBLIC : r.coin() ? ALICE : BOB); bb.push_back(b); lab[i].push_back(b.bit); lb.push_back(x); }
				lab[i].push_back(zero_block); ptr[i] = lab[i].data(); len[i] = n; ints[i].bits = bb; parts += (i ? "," : "") + vh::J::arr(lb.data(), lb.size());
			}
			parts += "]";
			std::vector<block> o(258, zero_block); Integer oi((int)ops[q]["osz"].n, 0, PUBLIC); bool integer = ops[q]["oint"].n;
			if (api == "blocks") { if (integer) calc.sha3_256(&oi, ptr.data(), len.data(), m); else calc.sha3_256(&o[1], ptr.data(), len.data(), m); }
			else if (api == "ints") { if (integer) calc.sha3_256(&oi, ints.data(), m); else calc.sha3_256(&o[1], ints.data(), m); }
			else { if (integer) calc.sha3_256(&oi, ptr[0], len[0]); else calc.sha3_256(&o[1], ptr[0], len[0]); }
			bool ok = !memcmp(&o[0], &zero_block, 16) && !memcmp(&o[257], &zero_block, 16);
			if (integer) ok = ok && oi.size() == 256; else { oi.bits.clear(); for (int t = 1; t <= 256; ++t) { Bit b; b.bit = o[t]; oi.bits.push_back(b); } }
			for (size_t i = 0; i < m; ++i) for (size_t t = 0; t < len[i]; ++t) if (memcmp(&lab[i][t], &ints[i].bits[t].bit, 16)) ok = false;
			auto out = bk::open(oi);
			vh::J j("circ"); j.s("api", api).raw("parts", parts).bytes("out", out.data(), out.size()).b("ok", ok && !ses.bad()); j.end();
		}
	}
	return 0;
}
