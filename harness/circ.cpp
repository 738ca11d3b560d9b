// Programs over secret bits in the clear backend (mode plain), recorded circuits (mode rec), and circuit files and gate
// arrays (mode load). Every program is executed on 16 input assignments; a wire is logged as a 16-bit mask of its values.
#include "vh.h"
#include "emp-tool/emp-tool.h"
#include <set>
using namespace emp;
using vh::Val;
static std::string scratch;
static const int COLS = 16;
struct VecIO : public IOChannel<VecIO> {
	std::vector<uint8_t> d; size_t pos = 0;
	void send_data_internal(const void *p, size_t n) { d.insert(d.end(), (const uint8_t *)p, (const uint8_t *)p + n); }
	void recv_data_internal(void *p, size_t n) { if (pos + n > d.size()) { memset(p, 0, n); return; } memcpy(p, &d[pos], n); pos += n; }
	void flush() {}
};
static std::string ints(const std::vector<long long> &v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(v[i]); return r + "]"; }
static PlainCircExec *pc() { return static_cast<PlainCircExec *>(CircuitExecution::circ_exec); }
static void start(bool rec, const std::string &f) { setup_plain_prot(rec, f); }
struct Step { std::vector<int> val, pub; long long ands; int rev; };

// one program on one assignment; in[i] is the value of the i-th secret input fed
static std::vector<Step> runProg(const Val &ops, const std::vector<int> &in, std::vector<block> *labels = nullptr) {
	std::vector<Bit> w; std::vector<Step> out; size_t fed = 0;
	for (size_t i = 0; i < ops.size(); ++i) {
		const Val &o = ops[i]; const std::string &op = o["op"].s; int a = (int)o["a"].n, b = (int)o["b"].n, c = (int)o["c"].n;
		Step s; s.rev = -1; size_t before = w.size(); CircuitExecution *ce = CircuitExecution::circ_exec;
		if (op == "feed") { // a values for party b, in one call (c = 0), or bit by bit
			int party = b ? BOB : ALICE;
			if (c == 0) { std::vector<block> l(a + 1); bool *v = new bool[a + 1]; for (int k = 0; k < a; ++k) v[k] = in[fed + k]; ProtocolExecution::prot_exec->feed(l.data(), party, v, a); for (int k = 0; k < a; ++k) w.push_back(Bit(l[k])); delete[] v; }
			else for (int k = 0; k < a; ++k) w.push_back(Bit((bool)in[fed + k], party));
			fed += a;
		}
		else if (op == "pub") { if (b) w.push_back(Bit((bool)a, PUBLIC)); else w.push_back(Bit(ce->public_label(a))); }
		else if (op == "pubfeed") { block l; bool v = a; ProtocolExecution::prot_exec->feed(&l, PUBLIC, &v, 1); w.push_back(Bit(l)); }
		else if (op == "and") w.push_back(Bit(ce->and_gate(w[a].bit, w[b].bit)));
		else if (op == "xor") w.push_back(Bit(ce->xor_gate(w[a].bit, w[b].bit)));
		else if (op == "not") w.push_back(Bit(ce->not_gate(w[a].bit)));
		else if (op == "band") w.push_back(w[a] & w[b]);
		else if (op == "bxor") w.push_back(w[a] ^ w[b]);
		else if (op == "bor") w.push_back(w[a] | w[b]);
		else if (op == "bnot") w.push_back(!w[a]);
		else if (op == "beq") w.push_back(w[a] == w[b]);
		else if (op == "bne") w.push_back(w[a] != w[b]);
		else if (op == "bxe") { Bit t = w[a]; if (a == b) t ^= t; else t ^= w[b]; w.push_back(t); }
		else if (op == "sel") w.push_back(w[a].select(w[b], w[c]));
		else if (op == "if") w.push_back(If(w[a], w[b], w[c]));
		else if (op == "swap") { Bit x = w[b], y = w[c]; emp::swap(w[a], x, y); w.push_back(x); w.push_back(y); }
		else if (op == "reveal") { if (c) { std::string t = w[a].reveal<std::string>(b); s.rev = t == "true" ? 1 : t == "false" ? 0 : 7; } else s.rev = w[a].reveal<bool>(b) ? 1 : 0; }
		else if (op == "revealn") { std::vector<block> l; for (int k = 0; k < b; ++k) l.push_back(w[a + k].bit); bool *v = new bool[b]; ProtocolExecution::prot_exec->reveal(v, a % 3, l.data(), b); s.rev = b ? 0 : -1; for (int k = 0; k < b; ++k) s.val.push_back(v[k] ? 1 : 0); delete[] v; }
		for (size_t k = before; k < w.size(); ++k) { s.val.push_back(pc()->get_value(w[k].bit) ? 1 : 0); s.pub.push_back(pc()->is_public(w[k].bit, PUBLIC) ? 1 : 0); }
		s.ands = (long long)pc()->num_and(); out.push_back(s);
	}
	return out;
}
static void endPlain() { finalize_plain_prot(); }

static void plain(const Val &s) {
	const Val &ops = s["ops"]; std::vector<std::vector<Step>> r(COLS);
	for (int c = 0; c < COLS; ++c) { std::vector<int> in; for (int k = 0; k < 4; ++k) in.push_back((c >> k) & 1); start(false, ""); r[c] = runProg(ops, in); endPlain(); }
	{ vh::J j("begin"); j.end(); }
	for (size_t i = 0; i < ops.size(); ++i) {
		const Val &o = ops[i]; std::vector<long long> t, p; long long n = r[0][i].ands, rev = 0;
		for (size_t k = 0; k < r[0][i].val.size(); ++k) { long long m = 0; for (int c = 0; c < COLS; ++c) m |= (long long)(r[c][i].val[k] != 0) << c; t.push_back(m); }
		for (size_t k = 0; k < r[0][i].pub.size(); ++k) { long long m = 0; for (int c = 0; c < COLS; ++c) m |= (long long)(r[c][i].pub[k] != 0) << c; p.push_back(m); }
		for (int c = 0; c < COLS; ++c) { if (r[c][i].ands != n) n = -1; rev |= (long long)(r[c][i].rev > 0) << c; }
		vh::J j(o["op"].s.c_str()); j.i("a", o["a"].n).i("b", o["b"].n).i("c", o["c"].n).raw("t", ints(t)).raw("p", ints(p)).i("n", n).i("rev", rev); j.end();
	}
}
// file contents as tokens: header numbers and gate lines, every line checked for shape only
static std::string gatesOf(const std::string &f, std::string &hdr) {
	FILE *h = fopen(f.c_str(), "r"); std::string txt; int ch; if (!h) { hdr = "[]"; return "[]"; }
	while ((ch = fgetc(h)) != EOF) txt += (char)ch;
	fclose(h);
	std::vector<std::string> tok; std::string cur;
	for (char x : txt) { if (isspace((unsigned char)x)) { if (!cur.empty()) tok.push_back(cur); cur.clear(); } else cur += x; }
	if (!cur.empty()) tok.push_back(cur);
	std::vector<long long> hd; size_t i = 0;
	for (; i < 5 && i < tok.size(); ++i) hd.push_back(atoll(tok[i].c_str()));
	hdr = ints(hd); std::string g = "["; bool first = true;
	while (i < tok.size()) {
		long long ni = atoll(tok[i].c_str()); size_t len = (size_t)(2 + ni + 1); std::vector<long long> v; std::string name = "BAD";
		if (ni >= 1 && ni <= 2 && i + len < tok.size() + 0 && i + len <= tok.size() - 1) { for (size_t k = 1; k < len; ++k) v.push_back(atoll(tok[i + k].c_str())); name = tok[i + len]; i += len + 1; }
		else i = tok.size();
		int type = name == "AND" ? 0 : name == "XOR" ? 1 : name == "INV" ? 2 : 9;
		v.insert(v.begin(), type); g += (first ? "" : ",") + ints(v); first = false;
	}
	return g + "]";
}
static std::vector<long long> evalFormat(BristolFormat &bf, const std::vector<long long> &m, int n1, int n2, int n3) {
	std::vector<long long> o(n3, 0);
	for (int c = 0; c < COLS; ++c) {
		start(false, ""); std::vector<Bit> i1, i2;
		for (int k = 0; k < n1; ++k) i1.push_back(Bit((bool)((m[k] >> c) & 1), ALICE));
		for (int k = 0; k < n2; ++k) i2.push_back(Bit((bool)((m[n1 + k] >> c) & 1), BOB));
		std::vector<Bit> out(n3 + 1);
		bf.compute(out.data(), i1.data(), i2.data());
		for (int k = 0; k < n3; ++k) o[k] |= (long long)(out[k].reveal<bool>() != 0) << c;
		endPlain();
	}
	return o;
}
static void rec(const Val &s, uint64_t seed) {
	const Val &ops = s["ops"]; vh::Rng r(seed); std::string f = scratch + "/rec.txt";
	int n1 = 0, n2 = 0, n3 = 0;
	for (size_t i = 0; i < ops.size(); ++i) { const Val &o = ops[i]; if (o["op"].s == "feed") (o["b"].n ? n2 : n1) += (int)o["a"].n; if (o["op"].s == "reveal") ++n3; if (o["op"].s == "revealn") n3 += (int)o["b"].n; }
	int col = (int)r.below(COLS); std::vector<long long> m; std::vector<int> in;
	static const long long canon[4] = {0xAAAA, 0xCCCC, 0xF0F0, 0xFF00};
	for (int k = 0; k < n1 + n2; ++k) { m.push_back(n1 + n2 <= 4 ? canon[k] : (long long)r.below(65536)); in.push_back((m[k] >> col) & 1); }
	unlink(f.c_str());
	start(true, f); std::vector<Step> st = runProg(ops, in); endPlain();
	std::vector<long long> rv; for (auto &x : st) if (x.rev >= 0) { if (x.pub.empty() && !x.val.empty()) for (int y : x.val) rv.push_back(y); else rv.push_back(x.rev); }
	std::string hdr, g = gatesOf(f, hdr);
	BristolFormat bf(f.c_str());
	std::vector<long long> o = evalFormat(bf, m, n1, n2, n3), o2 = evalFormat(bf, m, n1, n2, n3);
	std::string prog = "["; bool first = true;
	for (size_t i = 0; i < ops.size(); ++i) { const Val &x = ops[i]; prog += std::string(first ? "" : ",") + "{\"op\":\"" + x["op"].s + "\",\"a\":" + std::to_string(x["a"].n) + ",\"b\":" + std::to_string(x["b"].n) + ",\"c\":" + std::to_string(x["c"].n) + "}"; first = false; }
	vh::J j("rec"); j.raw("prog", prog + "]").i("n1", n1).i("n2", n2).i("n3", n3).raw("m", ints(m)).i("col", col).raw("rv", ints(rv)).raw("hdr", hdr).raw("g", g).raw("out", ints(o)).raw("out2", ints(o2))
		.i("lg", bf.num_gate).i("lw", bf.num_wire).i("l1", bf.n1).i("l2", bf.n2).i("l3", bf.n3); j.end();
}

// a recording with millions of gates: out[i] = a[i] op b[i]; results of recording and of the loaded file against the program
static void recbig(int n, uint64_t seed) {
	vh::Rng r(seed); std::string f = scratch + "/rec.txt"; unlink(f.c_str()); bool *a = new bool[n], *b = new bool[n], *o = new bool[n]; bool ok = true;
	std::vector<uint8_t> want(n);
	for (int i = 0; i < n; ++i) { uint64_t x = r.next(); a[i] = x & 1; b[i] = x & 2; want[i] = i % 3 == 2 ? a[i] != b[i] : a[i] && b[i]; }
	start(true, f); { std::vector<block> la(n), lb(n), lo(n); auto *p = ProtocolExecution::prot_exec; p->feed(la.data(), ALICE, a, n); p->feed(lb.data(), BOB, b, n);
		for (int i = 0; i < n; ++i) lo[i] = i % 3 == 2 ? CircuitExecution::circ_exec->xor_gate(la[i], lb[i]) : CircuitExecution::circ_exec->and_gate(la[i], lb[i]);
		p->reveal(o, PUBLIC, lo.data(), n); for (int i = 0; i < n; ++i) ok = ok && o[i] == (bool)want[i]; }
	endPlain();
	FILE *h = fopen(f.c_str(), "r"); char line[512]; long long lines = 0; std::vector<long long> hd; bool shape = h;
	while (h && fgets(line, sizeof line, h)) { char *s = line; while (isspace((unsigned char)*s)) ++s; if (!*s) continue;
		if (hd.size() < 5) { long long v; int k; while (hd.size() < 5 && sscanf(s, "%lld%n", &v, &k) == 1) { hd.push_back(v); s += k; } while (isspace((unsigned char)*s)) ++s; if (!*s) continue; }
		++lines; int ni = 0, no = 0; shape = shape && sscanf(s, "%d%d", &ni, &no) == 2 && (ni == 1 || ni == 2) && no == 1; }
	if (h) fclose(h);
	BristolFormat bf(f.c_str()); std::vector<long long> ld = {bf.num_gate, bf.num_wire, bf.n1, bf.n2, bf.n3};
	if (ok && shape && bf.n1 == n && bf.n2 == n && bf.n3 == n) { for (int i = 0; i < n; ++i) { a[i] = !a[i]; want[i] = i % 3 == 2 ? a[i] != b[i] : a[i] && b[i]; }
		start(false, ""); std::vector<block> la(n), lb(n), lo(n); auto *p = ProtocolExecution::prot_exec; p->feed(la.data(), ALICE, a, n); p->feed(lb.data(), BOB, b, n);
		bf.compute(lo.data(), la.data(), lb.data()); p->reveal(o, PUBLIC, lo.data(), n); for (int i = 0; i < n; ++i) ok = ok && o[i] == (bool)want[i]; endPlain(); }
	vh::J j("recbig"); j.i("n", n).ints("hdr", hd).ints("ld", ld).i("lines", lines).b("ok", ok && shape); j.end(); delete[] a; delete[] b; delete[] o;
}

// ---- load: circuits given as {nin:[..], nout:[..], w, g:[[type,a,b,out]..]}
static const char *NAME[] = {"AND", "XOR", "INV"};
static void writeFile(const std::string &f, const Val &s, bool fashion, int style) {
	FILE *h = fopen(f.c_str(), "w"); const Val &g = s["g"]; const char *nl = style & 1 ? "\n\n" : "\n", *sp = style & 2 ? "  " : " ", *tail = style & 4 ? " \n" : "\n";
	if (style & 8) nl = style & 1 ? "\r\n\r\n" : "\r\n", tail = "\r\n";
	fprintf(h, "%zu%s%d%s", g.size(), sp, (int)s["w"].n, tail);
	if (fashion) {
		fprintf(h, "%zu", s["nin"].size()); for (size_t i = 0; i < s["nin"].size(); ++i) fprintf(h, "%s%d", sp, (int)s["nin"][i].n); fprintf(h, "%s", tail);
		fprintf(h, "%zu", s["nout"].size()); for (size_t i = 0; i < s["nout"].size(); ++i) fprintf(h, "%s%d", sp, (int)s["nout"][i].n); fprintf(h, "%s", nl);
	} else { int no = 0; for (size_t i = 0; i < s["nout"].size(); ++i) no += (int)s["nout"][i].n; fprintf(h, "%d%s%d%s%s%d%s", (int)s["nin"][0].n, sp, (int)s["nin"][1].n, sp, sp, no, nl); }
	for (size_t i = 0; i < g.size(); ++i) {
		const Val &x = g[i];
		if (x[0].n == 2) fprintf(h, "1%s1%s%d%s%d%sINV%s", sp, sp, (int)x[1].n, sp, (int)x[3].n, sp, i + 1 < g.size() ? tail : "");
		else fprintf(h, "2%s1%s%d%s%d%s%d%s%s%s", sp, sp, (int)x[1].n, sp, (int)x[2].n, sp, (int)x[3].n, sp, NAME[x[0].n], i + 1 < g.size() ? tail : "");
	}
	if (!(style & 16)) fprintf(h, "%s", tail);
	fclose(h);
}
struct Backend { // clear (0) or half gates (1); values in, values out
	int kind; VecIO io; HalfGateGen<VecIO> *g = nullptr; HalfGateEva<VecIO> *e = nullptr;
	explicit Backend(int k) : kind(k) { if (k) { g = new HalfGateGen<VecIO>(&io); e = new HalfGateEva<VecIO>(&io); } else start(false, ""); }
	~Backend() { if (kind) { delete g; delete e; CircuitExecution::circ_exec = nullptr; } else { endPlain(); CircuitExecution::circ_exec = nullptr; } }
	// run f(wires in, wires out) once for each party
	template <class F> std::vector<int> go(const std::vector<int> &in, size_t nout, vh::Rng &r, F f) {
		std::vector<int> o(nout);
		if (!kind) {
			std::vector<block> w(in.size() + 1), x(nout + 1); for (size_t i = 0; i < in.size(); ++i) w[i] = pc()->private_label(in[i]);
			f(w.data(), x.data()); for (size_t i = 0; i < nout; ++i) o[i] = pc()->get_value(x[i]);
			return o;
		}
		std::vector<block> a(in.size() + 1), b(in.size() + 1), x(nout + 1), y(nout + 1); r.fill(a.data(), 16 * in.size());
		for (size_t i = 0; i < in.size(); ++i) b[i] = in[i] ? a[i] ^ g->delta : a[i];
		CircuitExecution::circ_exec = g; f(a.data(), x.data()); CircuitExecution::circ_exec = e; f(b.data(), y.data());
		for (size_t i = 0; i < nout; ++i) { block d = x[i] ^ y[i]; o[i] = !memcmp(&d, &zero_block, 16) ? 0 : !memcmp(&d, &g->delta, 16) ? 1 : 2; }
		return o;
	}
};
template <class F> static std::string columns(const std::vector<long long> &m, size_t nout, int kind, vh::Rng &r, F f) {
	std::vector<long long> o(nout, 0); Backend be(kind);
	for (int c = 0; c < COLS; ++c) {
		std::vector<int> in; for (auto x : m) in.push_back((x >> c) & 1);
		auto v = be.go(in, nout, r, f); for (size_t k = 0; k < nout; ++k) { if (v[k] == 2) o[k] = 1 << 20; o[k] |= (long long)v[k] << c; }
	}
	return ints(o);
}
template <class T> static std::vector<T> arr(const Val &s, bool withOr) { std::vector<T> r; const Val &g = s["g"]; for (size_t i = 0; i < g.size(); ++i) { r.push_back((T)g[i][1].n); r.push_back((T)g[i][2].n); r.push_back((T)g[i][3].n); r.push_back((T)g[i][0].n); } return r; }

static void load(const Val &s, const Val &prev, uint64_t seed, int idx) {
	vh::Rng r(seed); std::string f = scratch + "/c.txt", f2 = scratch + "/d.txt"; int nin = 0, nout = 0, n1 = (int)s["nin"][0].n;
	for (size_t i = 0; i < s["nin"].size(); ++i) nin += (int)s["nin"][i].n;
	for (size_t i = 0; i < s["nout"].size(); ++i) nout += (int)s["nout"][i].n;
	bool hasOr = false; std::string gs = "["; for (size_t i = 0; i < s["g"].size(); ++i) { const Val &x = s["g"][i]; if (x[0].n == 3) hasOr = true; gs += std::string(i ? "," : "") + "[" + std::to_string(x[0].n) + "," + std::to_string(x[1].n) + "," + std::to_string(x[2].n) + "," + std::to_string(x[3].n) + "]"; } gs += "]";
	static const long long canon[4] = {0xAAAA, 0xCCCC, 0xF0F0, 0xFF00};
	std::vector<long long> m; for (int k = 0; k < nin; ++k) m.push_back(nin <= 4 ? canon[k] : (long long)r.below(65536));
	int num_wire = (int)s["w"].n; int kind = (int)(r.below(3) == 0);
	{ vh::J j("circ"); j.i("nin", nin).i("nout", nout).i("w", num_wire).raw("g", gs).raw("m", ints(m)); j.end(); }
	auto ev = [&](const char *how, const std::string &o) { vh::J j("out"); j.s("how", how).i("be", kind).raw("o", o); j.end(); };
	// gate-array executor, with different index types
	auto exec = [&](const char *how, int ty) {
		ev(how, columns(m, nout, kind, r, [&](block *in, block *out) {
			std::vector<block> w(num_wire + 1); memcpy(w.data(), in, 16 * (size_t)nin);
			if (ty == 0) { auto a = arr<int>(s, true); execute_circuit(w.data(), a.data(), s["g"].size()); }
			else if (ty == 1) { auto a = arr<uint16_t>(s, true); execute_circuit(w.data(), a.data(), s["g"].size()); }
			else { auto a = arr<int64_t>(s, true); execute_circuit(w.data(), a.data(), s["g"].size()); }
			memcpy(out, w.data() + (num_wire - nout), 16 * (size_t)nout); }));
	};
	exec("exec-int", 0); exec("exec-u16", 1); exec("exec-i64", 2);
	if (hasOr) return;
	int style = (int)r.below(32);
	if (s["nin"].size() == 2) {
		writeFile(f, s, false, style);
		auto run = [&](BristolFormat &bf, const char *how, bool alias) {
			ev(how, columns(m, nout, kind, r, [&](block *in, block *out) {
				if (alias) { std::vector<block> buf(nin + nout + 1); memcpy(buf.data(), in, 16 * (size_t)nin); bf.compute(buf.data(), buf.data(), buf.data() + n1); memcpy(out, buf.data(), 16 * (size_t)nout); }
				else { std::vector<Bit> o2; o2.reserve(nout); bf.compute(out, in, in + n1); } }));
			vh::J j("hdr"); j.s("how", how).i("lg", bf.num_gate).i("lw", bf.num_wire).i("li", bf.n1 + bf.n2).i("lo", bf.n3); j.end();
		};
		{ BristolFormat bf(f.c_str()); run(bf, "format-path", false); run(bf, "format-again", false); run(bf, "format-alias", true); }
		{ FILE *h = fopen(f.c_str(), "r"); BristolFormat bf(h); fclose(h); run(bf, "format-stream", false); }
		auto a = arr<int>(s, false); BristolFormat ba((int)s["g"].size(), num_wire, n1, nin - n1, nout, a.data()); std::fill(a.begin(), a.end(), 0);
		run(ba, "format-array", false);
		if (prev.t == Val::OBJ && prev["nin"].size() == 2) { writeFile(f2, prev, false, style ^ 1); BristolFormat bf(f2.c_str());
			{ Backend be(0); std::vector<block> z(num_wire + 4096), o(4096); for (auto &q : z) q = pc()->private_label(1); bf.compute(o.data(), z.data(), z.data()); }
			if (r.coin()) bf.from_file(f.c_str()); else { FILE *h = fopen(f.c_str(), "r"); bf.from_file(h); fclose(h); } run(bf, "format-reload", false); }
		// written out as a C array and read back
		std::string cf = scratch + "/arr.h"; ba.to_file(cf.c_str(), "x"); run(ba, "format-array", false);
		FILE *h = fopen(cf.c_str(), "r"); std::string txt; int ch; while ((ch = fgetc(h)) != EOF) txt += (char)ch; fclose(h);
		std::vector<int> nums; int hd[5] = {0}; const char *keys[5] = {"int x_num_gate = ", "int x_num_wire = ", "int x_n1 = ", "int x_n2 = ", "int x_n3 = "};
		for (int k = 0; k < 5; ++k) { size_t p = txt.find(keys[k]); hd[k] = p == std::string::npos ? -1 : atoi(txt.c_str() + p + strlen(keys[k])); }
		size_t p = txt.find("= {"); bool okf = p != std::string::npos && hd[0] >= 0 && hd[1] >= 0;
		if (okf) { const char *q = txt.c_str() + p + 3; while (*q && *q != '}') { if (isdigit((unsigned char)*q) || *q == '-') { char *e; nums.push_back((int)strtol(q, &e, 10)); q = e; } else ++q; } }
		okf = okf && (int)nums.size() == 4 * hd[0] && hd[0] == (int)s["g"].size() && hd[1] == num_wire && hd[2] == n1 && hd[3] == nin - n1 && hd[4] == nout;
		if (!okf) { vh::J j("badarray"); j.end(); }
		else { BristolFormat bc(hd[0], hd[1], hd[2], hd[3], hd[4], nums.data()); run(bc, "format-cfile", false); }
	}
	writeFile(f, s, true, style);
	auto runF = [&](BristolFashion &bf, const char *how, bool alias) {
		ev(how, columns(m, nout, kind, r, [&](block *in, block *out) {
			if (alias) { std::vector<block> buf(nin + nout + 1); memcpy(buf.data(), in, 16 * (size_t)nin); bf.compute(buf.data(), buf.data()); memcpy(out, buf.data(), 16 * (size_t)nout); }
			else bf.compute((Bit *)out, (const Bit *)in); }));
		vh::J j("hdr"); j.s("how", how).i("lg", bf.num_gate).i("lw", bf.num_wire).i("li", bf.num_input).i("lo", bf.num_output); j.end();
	};
	{ BristolFashion bf(f.c_str()); runF(bf, "fashion-path", false); runF(bf, "fashion-again", false); runF(bf, "fashion-alias", true); }
	{ FILE *h = fopen(f.c_str(), "r"); BristolFashion bf(h); fclose(h); runF(bf, "fashion-stream", false); }
	if (prev.t == Val::OBJ) { writeFile(f2, prev, true, style ^ 1); BristolFashion bf(f2.c_str());
		{ Backend be(0); std::vector<block> z(num_wire + 4096), o(4096); for (auto &q : z) q = pc()->private_label(1); bf.compute(o.data(), z.data()); }
		if (r.coin()) bf.from_file(f.c_str()); else { FILE *h = fopen(f.c_str(), "r"); bf.from_file(h); fclose(h); } runF(bf, "fashion-reload", false); }
}
int main(int c, char **v) {
	// circ <scenarios> <seed> plain|rec|load <scratchdir>
	auto sc = vh::readLines(v[1]); uint64_t seed = strtoull(v[2], 0, 10); std::string mode = v[3]; uint64_t k = 0;
	scratch = std::string(v[4]) + "/s" + std::to_string(getpid()); if (system(("mkdir -p " + scratch).c_str())) return 77;
	Val prev;
	for (auto &s : sc) {
		++k;
		if (mode == "plain") plain(s);
		else if (mode == "rec" && s["big"].n) recbig((int)s["big"].n, seed * 7919 + k);
		else if (mode == "rec") rec(s, seed * 7919 + k);
		else { bool o = false; for (size_t i = 0; i < s["g"].size(); ++i) if (s["g"][i][0].n == 3) o = true; load(s, prev, seed * 7919 + k, (int)k); if (!o) prev = s; }
	}
	for (const char *n : {"rec.txt", "c.txt", "d.txt", "arr.h"}) unlink((scratch + "/" + n).c_str());
	rmdir(scratch.c_str());
	return 0;
}
