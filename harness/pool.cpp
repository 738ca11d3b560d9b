// Runs ThreadPool under a deterministic scheduler: the header is compiled with controlled stand-ins for
// std::thread, std::mutex and std::condition_variable, so one thread runs at a time and every choice
// (who runs next, whom notify_one wakes, spurious wake-ups) comes from a seeded or enumerated script.
#include <bits/stdc++.h>
#include <semaphore.h>
#include <set>
#include "vh.h"

namespace sched {
struct T { int id; sem_t s; std::function<bool()> ready; bool done = false; bool *timer = nullptr; std::thread os; };
static std::vector<T *> ts;
static thread_local T *me = nullptr;
static std::vector<int> script, taken, width;   // choices forced, made, and how many options each had
static vh::Rng *rng = nullptr;
static int spurious = 0, timeouts = 0, preempt = -1;
static std::vector<std::string> log_;
static bool dead = false;
static void ev(const std::string &s) { log_.push_back(s); }
static int choose(int n) {
	if (n <= 1) return 0;
	size_t k = taken.size();
	int c = k < script.size() ? script[k] : rng ? (int)rng->below(n) : 0;
	if (c >= n) c = n - 1;
	taken.push_back(c); width.push_back(n);
	return c;
}
static void finish_dead() {
	dead = true; sem_post(&ts[0]->s);   // main reports; everybody else stays parked
	for (;;) pause();
}
static long steps = 0, limit = 200000;
static void pass(bool self_ok) {
	if (++steps > limit) { ev("{\"e\":\"livelock\"}"); if (me->id == 0) { dead = true; return; } finish_dead(); }
	// options: keep running first (so choice 0 = no preemption), then others in id order
	std::vector<T *> r;
	if (self_ok && (!me->ready || me->ready())) r.push_back(me);
	bool cur = !r.empty();
	for (T *t : ts) if (t != me && !t->done && (!t->ready || t->ready())) r.push_back(t);
	// timed waits end early a few times in a run, and otherwise when nothing else can run
	if (r.empty()) for (T *t : ts) if (!t->done && t->timer && !*t->timer && (t != me || self_ok)) { *t->timer = true; if (!t->ready || t->ready()) r.push_back(t); }
	if (r.empty()) { ev("{\"e\":\"deadlock\"}"); if (me->id == 0) { dead = true; return; } finish_dead(); }
	int c = 0;
	if (cur && preempt == 0) c = 0;
	else { c = choose((int)r.size()); if (cur && c && preempt > 0) --preempt; }
	T *n = r[c];
	if (n == me) return;
	T *m = me;
	sem_post(&n->s);
	if (!m->done) sem_wait(&m->s);
}
static void point() { if (me && !dead) pass(true); }
static void block(std::function<bool()> f) { if (!me || dead) return; me->ready = f; pass(true); me->ready = nullptr; }
struct Dead {};
}

namespace std {
class vmutex {
public:
	sched::T *own = nullptr;
	vmutex() {}
	vmutex(const vmutex &) = delete;
	void lock() {
		sched::point();
		if (own == sched::me) { sched::block([] { return false; }); }   // self deadlock
		sched::block([this] { return !own; });
		if (sched::dead && sched::me->id) for (;;) pause();
		own = sched::me;
	}
	bool try_lock() { sched::point(); if (own) return false; own = sched::me; return true; }
	void unlock() { if (own != sched::me) sched::ev("{\"e\":\"badunlock\"}"); own = nullptr; sched::point(); }
};
enum class vcv_status { a };
class vcond {
public:
	std::list<std::pair<sched::T *, bool *>> w;
	vcond() {}
	vcond(const vcond &) = delete;
	~vcond() { if (!w.empty() && !sched::dead) sched::ev("{\"e\":\"cvdestroyed\"}"); }
	void drop(bool *f) { for (auto it = w.begin(); it != w.end(); ++it) if (it->second == f) { w.erase(it); return; } }
	template <class L> bool slp(L &l, bool timed) {
		sched::point();
		bool woken = false, spur = sched::spurious > 0 && sched::choose(8) == 7;
		if (spur) --sched::spurious;
		w.push_back({sched::me, &woken});
		l.mutex()->own = nullptr;
		bool expired = timed && sched::timeouts > 0 && sched::choose(3) == 2; if (expired) --sched::timeouts; if (timed) sched::me->timer = &expired;
		sched::block([&] { return woken || spur || expired; });
		sched::me->timer = nullptr;
		drop(&woken);
		sched::block([&] { return !l.mutex()->own; });
		l.mutex()->own = sched::me;
		return woken;
	}
	template <class L> void wait(L &l) { slp(l, false); }
	template <class L, class P> void wait(L &l, P p) { while (!p()) { wait(l); if (sched::dead) return; } }
	template <class L, class D> cv_status wait_for(L &l, const D &) { return slp(l, true) ? cv_status::no_timeout : cv_status::timeout; }
	template <class L, class D, class P> bool wait_for(L &l, const D &, P p) { for (int i = 0; i < 2; ++i) { if (p()) return true; slp(l, true); } return p(); }
	template <class L, class D> cv_status wait_until(L &l, const D &d) { return wait_for(l, d); }
	template <class L, class D, class P> bool wait_until(L &l, const D &d, P p) { return wait_for(l, d, p); }
	void notify_one() {
		sched::point();
		std::vector<std::pair<sched::T *, bool *>> c;
		for (auto &x : w) if (!*x.second) c.push_back(x);
		if (!c.empty()) *c[sched::choose((int)c.size())].second = true;
	}
	void notify_all() { sched::point(); for (auto &x : w) *x.second = true; }
};
class vthread {
	sched::T *t = nullptr;
public:
	typedef std::thread::id id;
	vthread() {}
	template <class F, class... A, class = typename enable_if<!is_same<typename decay<F>::type, vthread>::value>::type>
	explicit vthread(F &&f, A &&...a) {
		t = new sched::T; t->id = (int)sched::ts.size(); sem_init(&t->s, 0, 0);
		sched::ts.push_back(t);
		sched::T *m = t;
		std::function<void()> g = std::bind(std::forward<F>(f), std::forward<A>(a)...);
		m->os = std::thread([m, g] {
			sched::me = m; sem_wait(&m->s);
			try { g(); } catch (...) { sched::ev("{\"e\":\"uncaught\"}"); }
			m->done = true; sched::pass(false);
		});
		sched::point();
	}
	vthread(vthread &&o) : t(o.t) { o.t = nullptr; }
	vthread &operator=(vthread &&o) { if (t) sched::ev("{\"e\":\"lostthread\"}"); t = o.t; o.t = nullptr; return *this; }
	~vthread() { if (t && !sched::dead) sched::ev("{\"e\":\"unjoined\"}"); }
	bool joinable() const { return t; }
	void join() { if (!t) { sched::ev("{\"e\":\"badjoin\"}"); return; } sched::T *m = t; sched::block([m] { return m->done; }); t = nullptr; }
	void detach() { t = nullptr; }
	id get_id() const { return t ? t->os.get_id() : id(); }
	void swap(vthread &o) { std::swap(t, o.t); }
	static unsigned hardware_concurrency() { return 4; }
};
}
#define thread vthread
#define mutex vmutex
#define condition_variable vcond
#define condition_variable_any vcond
#include "emp-tool/utils/ThreadPool.h"
#undef thread
#undef mutex
#undef condition_variable
#undef condition_variable_any

using vh::Val;
static std::string E(const char *e, int t, int w = -1) { vh::J j(e); j.i("t", t); if (w >= 0) j.i("w", w); return j.str(); }
struct MyErr { int t; };
struct Run {
	ThreadPool *pool = nullptr;
	struct F { int t, kind; std::future<int> i; std::future<void> v; std::future<std::string> s; bool got = false; };
	std::list<F> futs;
	int nextt = 1, producers = 0;
	bool issued = false;
	void body(int t) { sched::ev(E("start", t, sched::me->id)); sched::point(); }
	void fin(int t) { sched::ev(E("end", t, sched::me->id)); }
	// kinds: 0 value, 1 throw, 2 void, 3 nested submit, 4 slow, 5 guardian (until producers finished), 6 string with arguments
	void submit(int kind) {
		int t = nextt++;
		sched::ev(E("inv", t));
		futs.emplace_back();   // list: references stay valid
		F &f = futs.back(); f.t = t; f.kind = kind;
		bool rejected = false;
		try {
			switch (kind) {
			case 0: f.i = pool->enqueue([this, t] { body(t); fin(t); return t * 7; }); break;
			case 1: f.i = pool->enqueue([this, t]() -> int { body(t); fin(t); throw MyErr{t}; }); break;
			case 2: f.v = pool->enqueue([this, t] { body(t); fin(t); }); break;
			case 3: f.i = pool->enqueue([this, t] { body(t); submit(0); fin(t); return t * 7; }); break;
			case 4: f.i = pool->enqueue([this, t] { body(t); for (int i = 0; i < 3; ++i) sched::point(); fin(t); return t * 7; }); break;
			case 5: f.i = pool->enqueue([this, t] { body(t); sched::block([this] { return issued && producers == 0; }); fin(t); return t * 7; }); break;
			default: f.s = pool->enqueue([this](int t, std::string s) { body(t); fin(t); return s + "!"; }, t, std::string("x") + std::to_string(t));
			}
		} catch (std::exception &) { rejected = true; }
		if (rejected) { sched::ev(E("rej", t)); f.kind = -1; }
		else sched::ev(E("ret", t));
	}
	bool ready(F &f) {
		auto z = std::chrono::seconds(0);
		if (f.i.valid()) return f.i.wait_for(z) == std::future_status::ready;
		if (f.v.valid()) return f.v.wait_for(z) == std::future_status::ready;
		if (f.s.valid()) return f.s.wait_for(z) == std::future_status::ready;
		return false;
	}
	void get(F &f) {
		if (f.kind < 0 || f.got) return;
		f.got = true;
		bool ok = false;
		if (!ready(f)) { sched::ev("{\"e\":\"notready\"}"); return; }
		try {
			if (f.kind == 2) { f.v.get(); ok = true; }
			else if (f.kind == 6) ok = f.s.get() == "x" + std::to_string(f.t) + "!";
			else { int v = f.i.get(); ok = f.kind != 1 && v == f.t * 7; }
		} catch (MyErr &m) { ok = f.kind == 1 && m.t == f.t; } catch (...) { ok = false; }
		vh::J j("fut"); j.i("t", f.t).b("match", ok); sched::ev(j.str());
	}
};
// many tasks left in the queue at destruction, folded into one event
static void bulk(Run *x, int n, int cnt) {
	ThreadPool *other = new ThreadPool(2); std::set<int> who; other->enqueue([] {});   // another pool of the same program
	std::vector<int> ran(cnt, 0), order; std::vector<std::future<int>> fs; int rej = 0, size = (int)x->pool->size(); bool open = false;
	std::vector<std::future<void>> hold;
	for (int i = 0; i < n; ++i) hold.push_back(x->pool->enqueue([&open] { sched::block([&open] { return open; }); }));
	for (int i = 0; i < cnt; ++i) try { fs.push_back(x->pool->enqueue([&ran, &order, &who, i] { who.insert(sched::me->id); ran[i]++; order.push_back(i); return i * 3 + 1; })); } catch (std::exception &) { ++rej; }
	open = true; delete x->pool; x->pool = nullptr; delete other;
	int once = 0, good = 0; bool fifo = true; for (int i = 0; i < cnt; ++i) once += ran[i] == 1;
	for (size_t i = 0; i < order.size(); ++i) if (n == 1 && order[i] != (int)i) fifo = false;
	for (size_t i = 0; i < fs.size(); ++i) try { good += fs[i].wait_for(std::chrono::seconds(0)) == std::future_status::ready && fs[i].get() == (int)i * 3 + 1; } catch (...) {}
	vh::J j("bulk"); j.i("n", n).i("size", size).i("cnt", cnt).i("rej", rej).i("once", once).i("runs", (int)order.size()).i("thr", (int)who.size()).b("fifo", fifo).i("futs", good); sched::ev(j.str());
}
static bool execute(const Val &s, uint64_t seed, bool rnd, int sp, int pre) {
	sched::ts.clear(); sched::taken.clear(); sched::width.clear(); sched::log_.clear(); sched::steps = 0; sched::dead = false;
	vh::Rng r(seed); sched::rng = rnd ? &r : nullptr; sched::spurious = sp; sched::timeouts = 3; sched::preempt = pre;
	auto *m = new sched::T; m->id = 0; sem_init(&m->s, 0, 0); sched::ts.push_back(m); sched::me = m;
	Run *x = new Run;
	int n = (int)s["n"].n;
	x->pool = new ThreadPool(n);
	sched::limit = 200000;
	if (s.has("bulk")) {
		sched::limit = 20000000; bulk(x, n, (int)s["bulk"].n); if (sched::dead) return false;
		for (auto *t : sched::ts) if (t->id) t->os.join();
		for (auto *t : sched::ts) delete t;
		delete x; return true;
	}
	{ vh::J j("new"); j.i("n", n).i("size", x->pool->size()); sched::ev(j.str()); }
	std::list<std::vthread> prods;
	const Val &ops = s["ops"];
	for (size_t i = 0; i < ops.size() && !sched::dead; ++i) {
		const Val &o = ops[i];
		if (o["op"].s == "sub") x->submit((int)o["k"].n);
		else if (o["op"].s == "prod") {
			int cnt = (int)o["c"].n, k = (int)o["k"].n;
			x->producers++;
			prods.emplace_back([x, cnt, k] { for (int j = 0; j < cnt; ++j) { sched::point(); x->submit(k); } x->producers--; });
		} else if (o["op"].s == "get" && !x->futs.empty()) {
			Run::F *f = &x->futs.front();
			for (auto &g : x->futs) if (!g.got && g.kind >= 0 && g.kind != 5) { f = &g; break; }
			if (f->kind >= 0 && f->kind != 5 && !f->got && (f->i.valid() || f->v.valid() || f->s.valid())) {
				sched::block([x, f] { return x->ready(*f); });
				if (!sched::dead) x->get(*f);
			}
		} else if (o["op"].s == "yield") sched::point();
		else if (o["op"].s == "quiet") { for (auto &p : prods) p.join(); prods.clear(); }
	}
	if (!s["guarded"].n) for (auto &p : prods) if (p.joinable()) p.join();
	if (!sched::dead) {
		x->issued = true; sched::ev("{\"e\":\"dbeg\"}");
		delete x->pool;
		if (!sched::dead) sched::ev("{\"e\":\"dend\"}");
	}
	if (!sched::dead) for (auto &p : prods) if (p.joinable()) p.join();
	int c = 0;
	if (!sched::dead) {
		for (auto &f : x->futs) if (f.kind >= 0) { x->get(f); ++c; }
		vh::J j("over"); j.i("futs", c); sched::ev(j.str());
	}
	if (sched::dead) return false;      // parked threads cannot be recovered: caller prints and exits
	for (auto *t : sched::ts) if (t->id) { t->os.join(); }
	for (auto *t : sched::ts) delete t;
	delete x;
	return true;
}
static std::set<std::string> seen; static long runs = 0, steps = 0;
static void emit() {
	std::string a; for (auto &l : sched::log_) a += l + "\n";
	++runs; steps += sched::steps;
	if (seen.insert(a).second) fputs(a.c_str(), stdout);
}
int main(int c, char **v) {
	// pool <scenarios> <seed> <random schedules per scenario> <enumerated schedules per scenario>
	auto sc = vh::readLines(v[1]); uint64_t seed = strtoull(v[2], 0, 10);
	int nr = c > 3 ? atoi(v[3]) : 20, nd = c > 4 ? atoi(v[4]) : 100;
	uint64_t k = 0; size_t maxd = c > 5 ? atoi(v[5]) : 60;
	bool alive = true;
	for (auto &s : sc) {
		if (!alive) break;
		seen.clear(); size_t distinct = 0;
		for (int i = 0; i < nr && alive && seen.size() < maxd; ++i) {
			alive = execute(s, seed * 7919 + ++k, true, i % 3 == 2 ? 2 : 0, i % 4 == 3 ? 3 : -1);
			emit();
		}
		// bounded enumeration: depth-first over choice sequences, at most two preemptions
		sched::script.clear();
		for (int i = 0; i < nd && alive && seen.size() < maxd; ++i) {
			alive = execute(s, 1, false, 0, 2);
			emit();
			std::vector<int> t = sched::taken, w = sched::width;
			int p = (int)t.size() - 1;
			while (p >= 0 && t[p] + 1 >= w[p]) --p;
			if (p < 0) break;
			t.resize(p + 1); t[p]++;
			sched::script = t;
		}
		sched::script.clear();
	}
	fflush(stdout);
	fprintf(stderr, "RUNS %ld STEPS %ld\n", runs, steps);
	_exit(0);
}
