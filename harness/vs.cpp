#include <execinfo.h>
// vsched: runs the real library under a controlled scheduler.
// Every pthread/semaphore/clock primitive the library uses is redirected here with ld --wrap, and the library is
// compiled with -fsanitize=thread instrumentation whose __tsan_* runtime is the one below; exactly one thread runs at
// a time, and each of those calls is a possible preemption point. Time is virtual.
#include "vs.h"
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <malloc.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <linux/futex.h>
#include <limits.h>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>

extern "C" {
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_join(pthread_t, void**);
int __real___cxa_atexit(void (*)(void*), void*, void*);
int __real_clock_gettime(clockid_t, struct timespec*);
}

namespace vs
{
	typedef uint64_t u64;
	enum State { READY, BLK_MUTEX, BLK_COND, BLK_SEM, BLK_JOIN, BLK_SLEEP, BLK_ONCE, DONE };
	static const u64 INF = ~0ull;
	static const u64 MONO_BASE = 1000ull * 1000000000ull;
	static const u64 REAL_BASE = 1700000000ull * 1000000000ull;

	struct VT
	{
		int idx, logical;
		State st;
		const void* obj;
		u64 deadline;
		bool timedOut, woken;
		int futex;
		pthread_t pt;
		int prio;
		void* (*fn)(void*); void* arg;
		std::function<void()> cppfn;
		char *stackLo, *stackHi;
		int dtorRound;
		bool joined;
		u64 lastRun;
	};
	struct MutexSt { int owner; int count; bool recursive; MutexSt() : owner(-1), count(0), recursive(false) {} };
	struct SemSt { int n; };

	static const int MAXT = 64;
	static VT* g_t[MAXT]; static int g_n = 0;
	static __thread VT* t_self = 0;
	static __thread int t_nopre = 0;
	static bool g_active = false;
	static std::unordered_map<const void*, MutexSt>* g_mutex;
	static std::unordered_map<const void*, SemSt>* g_sem;
	static std::unordered_map<const void*, int>* g_once; // 0 none 1 running 2 done ; value also holds runner
	static std::map<int, VT*>* g_byLogical;
	static u64 g_now = 0, g_step = 0, g_syncStep = 0;
	static u64 g_maxStep = 40000000, g_maxSync = 400000;
	static u64 g_horizon = 3600ull * 1000000000ull;
	static bool g_jitter = true, g_spurious = false;
	static int g_jitterDen = 0, g_spurDen = 0, g_hotDen = 0;
	static pthread_key_t g_key;
	static bool g_verbose = false;
	static int g_traceSched = 0;

	// shared between worker and children
	struct Shared
	{
		char* buf; size_t cap;
		volatile size_t len;
		volatile int end;      // 0 none, 1 finished, 2 discarded, 3 crash event already written
	};
	static const int HOTN = 1 << 14;
	struct Global
	{
		volatile u64 next, evals, crashes, discards;
		volatile u64 hot[HOTN];
		volatile u64 lenEst;
		volatile int lock;
	};
	static Shared* g_sh; static Global* g_gl;

	// ---- rng ----
	struct Rng { u64 s; u64 next() { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } };
	static Rng g_srng, g_prng; static u64 g_seed = 1;
	static u64 srnd(u64 n) { return n <= 1 ? 0 : g_srng.next() % n; }
	uint32_t rnd() { return (uint32_t)(g_prng.next() >> 16); }
	int rnd(int lo, int hi) { return lo + (int)(rnd() % (uint32_t)(hi - lo + 1)); }
	bool chance(int n, int d) { return rnd(0, d - 1) < n; }
	u64 seed() { return g_seed; }
	bool verbose() { return g_verbose; }
	static std::map<std::string, std::string>* g_opts;
	const char* opt(const char* n, const char* d) { std::map<std::string, std::string>::iterator i = g_opts->find(n); return i == g_opts->end() ? d : i->second.c_str(); }
	int opti(const char* n, int d) { const char* v = opt(n, 0); return v ? atoi(v) : d; }

	// ---- strategy ----
	enum Strat { S_RW, S_PCT, S_NONE };
	static Strat g_strat; static int g_swDen = 2;
	static u64 g_chg[8]; static int g_nchg = 0; static int g_lowPrio = -1;

	static void fwait(int* f) { while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT, 0, 0, 0, 0); __atomic_store_n(f, 0, __ATOMIC_RELEASE); }
	static void fwake(int* f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE, 1, 0, 0, 0); }

	static void put(const char* s, size_t n)
	{
		if (!g_sh) return;
		if (g_sh->len + n + 2 < g_sh->cap) { memcpy(g_sh->buf + g_sh->len, s, n); g_sh->len += n; }
	}
	static void put_event(const std::string& s)
	{
		if (g_verbose) fprintf(stderr, "%s\n", s.c_str());
		if (g_sh && g_sh->len) put(",", 1);
		put(s.data(), s.size());
	}
	static std::vector<std::pair<void (*)(void*), void*> >* g_exits;
	void run_atexit() { while (g_exits && !g_exits->empty()) { std::pair<void (*)(void*), void*> x = g_exits->back(); g_exits->pop_back(); x.first(x.second); } }
	void finish() { if (g_sh) g_sh->end = 1; _exit(0); }
	void discard() { if (g_sh) g_sh->end = 2; _exit(0); }
	static void end_event(const char* e)
	{
		// blocked driver threads
		std::string s = "{\"e\":\""; s += e; s += "\",\"blk\":[";
		bool first = true;
		for (int i = 0; i < g_n; ++i)
			if (g_t[i]->st != DONE && g_t[i]->logical < 50) { if (!first) s += ","; s += std::to_string(g_t[i]->logical); first = false; }
		s += "]}";
		put_event(s);
		if (g_verbose)
			for (int i = 0; i < g_n; ++i)
				fprintf(stderr, "  thread %d(logical %d) state %d obj %p\n", i, g_t[i]->logical, g_t[i]->st, g_t[i]->obj);
		finish();
	}

	static VT* self()
	{
		if (t_self) return t_self;
		// main thread, lazily
		VT* v = new VT(); v->idx = g_n; v->logical = 0; v->st = READY; v->deadline = INF; v->pt = pthread_self();
		g_t[g_n++] = v; t_self = v;
		return v;
	}
	static void init_tables()
	{
		if (g_mutex) return;
		g_mutex = new std::unordered_map<const void*, MutexSt>(); g_sem = new std::unordered_map<const void*, SemSt>(); g_once = new std::unordered_map<const void*, int>(); g_byLogical = new std::map<int, VT*>();
	}

	static void fire_timers()
	{
		for (int i = 0; i < g_n; ++i)
		{
			VT* v = g_t[i];
			if (v->st != READY && v->st != DONE && v->deadline <= g_now) { v->st = READY; v->timedOut = true; v->deadline = INF; v->lastRun = g_syncStep; }
		}
	}
	static u64 next_deadline()
	{
		u64 d = INF;
		for (int i = 0; i < g_n; ++i) { VT* v = g_t[i]; if (v->st != READY && v->st != DONE && v->deadline < d) d = v->deadline; }
		return d;
	}
	static int ready(VT** out)
	{
		int n = 0; for (int i = 0; i < g_n; ++i) if (g_t[i]->st == READY) out[n++] = g_t[i]; return n;
	}
	static void switch_to(VT* me, VT* next, bool exiting = false)
	{
		next->lastRun = g_syncStep;
		if (next == me) return;
		if (g_traceSched) fprintf(stderr, "[step %lu: %d -> %d]\n", (unsigned long)g_step, me->logical, next->logical);
		fwake(&next->futex);
		if (!exiting) fwait(&me->futex);
	}
	// pick the next thread to run; me may or may not be READY
	static VT* choose(VT* me, bool force)
	{
		VT* r[MAXT]; int n;
		for (;;)
		{
			n = ready(r);
			if (n) break;
			u64 d = next_deadline();
			if (d == INF || d > g_horizon + MONO_BASE) end_event("quiesce");
			g_now = d; fire_timers();
		}
		if (g_jitter && g_jitterDen && srnd(g_jitterDen) == 0)
		{
			u64 d = next_deadline();
			if (d != INF && d <= g_horizon + MONO_BASE && d < g_now + 10000000000ull)
			{
				if (d > g_now) g_now = d;
				if (srnd(4) == 0) g_now += srnd(50) * 1000000ull;
				fire_timers(); n = ready(r);
			}
		}
		if (g_spurious && g_spurDen && srnd(g_spurDen) == 0)
		{
			int k = srnd(g_n);
			if (g_t[k]->st == BLK_COND) { g_t[k]->st = READY; g_t[k]->woken = true; g_t[k]->deadline = INF; n = ready(r); }
		}
		bool meReady = me->st == READY;
		for (int i = 0; i < n; ++i) // fairness against spinning: nobody stays runnable for long without running
			if (r[i] != me && g_syncStep - r[i]->lastRun > 3000) { r[i]->prio = 2000000 + (int)(g_syncStep % 1000000); if (meReady) me->prio = g_lowPrio--; return r[i]; }
		if (g_strat == S_PCT)
		{
			VT* b = r[0]; for (int i = 1; i < n; ++i) if (r[i]->prio > b->prio) b = r[i];
			return b;
		}
		if (g_strat == S_NONE && meReady && !force) return me;
		if (g_strat == S_RW && meReady && !force && srnd(g_swDen) != 0) return me;
		return r[srnd(n)];
	}
	static void check_limits()
	{
		if (g_step > g_maxStep || g_syncStep > g_maxSync) end_event("hang");
	}
	static void sched_point(bool force = false)
	{
		if (!g_active || t_nopre) return;
		VT* me = self();
		++g_step; ++g_syncStep; check_limits();
		if (g_strat == S_PCT)
			for (int i = 0; i < g_nchg; ++i) if (g_chg[i] == g_syncStep) me->prio = g_lowPrio--;
		switch_to(me, choose(me, force));
	}
	// block the calling thread (state already set)
	static void block()
	{
		VT* me = self();
		if (!g_active)
		{
			if (me->deadline != INF) { g_now = me->deadline; me->st = READY; me->timedOut = true; me->deadline = INF; return; }
			fprintf(stderr, "vs: block while inactive\n"); abort();
		}
		++g_step; ++g_syncStep; check_limits();
		int save = t_nopre; t_nopre = 0;
		switch_to(me, choose(me, true));
		t_nopre = save;
	}
	static void wake_all(State st, const void* obj)
	{
		for (int i = 0; i < g_n; ++i) { VT* v = g_t[i]; if (v->st == st && v->obj == obj) { v->st = READY; v->woken = true; v->deadline = INF; v->lastRun = g_syncStep; } }
	}
	static void set_block(State st, const void* obj, u64 deadline)
	{ VT* me = self(); me->st = st; me->obj = obj; me->deadline = deadline; me->timedOut = false; me->woken = false; if (deadline != INF && deadline <= g_now) { me->st = READY; me->timedOut = true; me->deadline = INF; } }

	struct no_hook { no_hook() { ++t_nopre; } ~no_hook() { --t_nopre; } };

	// ---- mutex model ----
	static MutexSt& mtx(const void* m) { init_tables(); return (*g_mutex)[m]; }
	static void m_lock(const void* m)
	{
		VT* me = self();
		sched_point();
		for (;;)
		{
			MutexSt& s = mtx(m);
			if (s.owner == -1) { s.owner = me->idx; s.count = 1; return; }
			if (s.owner == me->idx && s.recursive) { ++s.count; return; }
			set_block(BLK_MUTEX, m, INF);
			block();
		}
	}
	static int m_trylock(const void* m)
	{
		VT* me = self();
		sched_point();
		MutexSt& s = mtx(m);
		if (s.owner == -1) { s.owner = me->idx; s.count = 1; return 0; }
		if (s.owner == me->idx && s.recursive) { ++s.count; return 0; }
		return EBUSY;
	}
	static int m_unlock(const void* m, bool point = true)
	{
		VT* me = self();
		MutexSt& s = mtx(m);
		if (s.owner != me->idx) return EPERM;
		if (--s.count == 0) { s.owner = -1; wake_all(BLK_MUTEX, m); if (point) sched_point(); }
		return 0;
	}
	static int c_wait(const void* c, const void* m, u64 deadline)
	{
		VT* me = self();
		sched_point();
		MutexSt s = mtx(m);
		int cnt = s.count;
		if (s.owner != me->idx) return EPERM;
		MutexSt& r = mtx(m); r.owner = -1; r.count = 0; wake_all(BLK_MUTEX, m);
		set_block(BLK_COND, c, deadline);
		if (me->st == BLK_COND) block(); else sched_point(true);
		bool timedOut = me->timedOut && !me->woken;
		for (;;)
		{
			MutexSt& q = mtx(m);
			if (q.owner == -1) { q.owner = me->idx; q.count = cnt; break; }
			set_block(BLK_MUTEX, m, INF); block();
		}
		return timedOut ? ETIMEDOUT : 0;
	}
	int lib_threads() { int n = 0; for (int i = 0; i < g_n; ++i) if (g_t[i]->st != DONE && g_t[i]->logical >= 50) ++n; return n; }
	static u64 ts2ns(const struct timespec* t) { return (u64)t->tv_sec * 1000000000ull + t->tv_nsec; }

	// ---- threads ----
	static void thread_done(VT* me)
	{
		me->st = DONE; wake_all(BLK_JOIN, me);
		VT* r[MAXT];
		(void)r;
		VT* nx = choose(me, true);
		switch_to(me, nx, true);
	}
	static void key_dtor(void* p)
	{
		VT* v = (VT*)p;
		if (++v->dtorRound < PTHREAD_DESTRUCTOR_ITERATIONS) { pthread_setspecific(g_key, v); return; }
		thread_done(v);
	}
	static void* tramp(void* p)
	{
		VT* v = (VT*)p; t_self = v;
		pthread_attr_t a; if (pthread_getattr_np(pthread_self(), &a) == 0) { void* lo; size_t sz; pthread_attr_getstack(&a, &lo, &sz); v->stackLo = (char*)lo; v->stackHi = v->stackLo + sz; pthread_attr_destroy(&a); }
		fwait(&v->futex);
		pthread_setspecific(g_key, v);
		void* r = 0;
		if (v->cppfn) { v->cppfn(); v->cppfn = nullptr; }
		else r = v->fn(v->arg);
		return r;
	}
	static VT* make_thread(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg, std::function<void()> cpp, int logical)
	{
		if (!g_active) { fprintf(stderr, "vs: thread before activation\n"); abort(); }
		no_hook nh;
		if (g_n >= MAXT) { fprintf(stderr, "vs: too many threads\n"); abort(); }
		VT* v = new VT(); v->idx = g_n; v->logical = logical >= 0 ? logical : 50 + g_n; v->st = READY; v->deadline = INF; v->fn = fn; v->arg = arg; v->cppfn = cpp;
		v->prio = 1000 + (int)srnd(1000000); v->lastRun = g_syncStep;
		g_t[g_n++] = v;
		int e = __real_pthread_create(&v->pt, attr, tramp, v);
		if (e) { perror("pthread_create"); abort(); }
		if (out) *out = v->pt;
		(*g_byLogical)[v->logical] = v;
		return v;
	}
	static int join_vt(VT* v, void** ret)
	{
		VT* me = self();
		sched_point();
		while (v->st != DONE) { set_block(BLK_JOIN, v, INF); block(); }
		(void)me;
		v->joined = true; // its pthread_t may be used again by a later thread
		return __real_pthread_join(v->pt, ret);
	}

	int tid() { return self()->logical; }
	void spawn(int id, std::function<void()> f) { make_thread(0, 0, 0, 0, f, id); sched_point(); }
	void join(int id) { join_vt((*g_byLogical)[id], 0); }
	void point() { sched_point(); }
	static void sleep_ns(u64 ns) { set_block(BLK_SLEEP, 0, g_now + ns); if (self()->st == READY) sched_point(true); else block(); }
	void sleep_ms(int ms) { sleep_ns((u64)ms * 1000000ull); }
	void sleep_us(int us) { sleep_ns((u64)us * 1000ull); }
	int now_ms() { return (int)((g_now - MONO_BASE) / 1000000ull); }
	u64 now_us() { return (g_now - MONO_BASE) / 1000ull; }
	void set_time_jitter(bool on) { g_jitter = on; }
	void set_spurious(bool on) { g_spurious = on; }
	void set_horizon_ms(int ms) { g_horizon = (u64)ms * 1000000ull; }
	no_preempt::no_preempt() { ++t_nopre; }
	no_preempt::~no_preempt() { --t_nopre; }

	// ---- events ----
	std::string jstr(const std::string& s)
	{
		std::string r = "\"";
		for (size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i]; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; }
		return r + "\"";
	}
	ev::ev(const char* e, bool withTid) : _done(false) { _s = "{\"e\":\""; _s += e; _s += "\""; if (withTid) i("t", tid()); }
	ev::~ev() { if (_done) return; _s += "}"; put_event(_s); }
	ev& ev::i(const char* k, long long v) { _s += ",\""; _s += k; _s += "\":"; _s += std::to_string(v); return *this; }
	ev& ev::s(const char* k, const std::string& v) { _s += ",\""; _s += k; _s += "\":"; _s += jstr(v); return *this; }
	ev& ev::b(const char* k, bool v) { _s += ",\""; _s += k; _s += "\":"; _s += v ? "true" : "false"; return *this; }
	ev& ev::raw(const char* k, const std::string& v) { _s += ",\""; _s += k; _s += "\":"; _s += v; return *this; }
	static std::string jl(const std::vector<int>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += std::to_string(v[i]); } return s + "]"; }
	ev& ev::li(const char* k, const std::vector<int>& v) { return raw(k, jl(v)); }
	ev& ev::ls(const char* k, const std::vector<std::string>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += jstr(v[i]); } return raw(k, s + "]"); }
	ev& ev::lli(const char* k, const std::vector<std::vector<int> >& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += jl(v[i]); } return raw(k, s + "]"); }

	// ---- plain access hooks ----
	static const int GRAN = 1 << 15;
	struct Gr { u64 g; uint32_t readers, writers; };
	static Gr g_gr[GRAN];
	// set of freed 16-byte granules (open addressing, never shrinks; malloc-backed so that it does not recurse into operator new)
	struct FreedSet
	{
		u64* t; size_t cap, n;
		bool count(u64 k) const { if (!t) return false; for (size_t i = (k * 0x9E3779B97F4A7C15ull) >> 20; ; ++i) { u64 x = t[i & (cap - 1)]; if (x == k) return true; if (!x) return false; } }
		void put(u64 k) { for (size_t i = (k * 0x9E3779B97F4A7C15ull) >> 20; ; ++i) { u64& x = t[i & (cap - 1)]; if (x == k) return; if (!x) { x = k; ++n; return; } } }
		void insert(u64 k)
		{
			if (!t) { cap = 1 << 14; t = (u64*)calloc(cap, 8); }
			if (n * 2 > cap) { u64* o = t; size_t oc = cap; cap *= 4; t = (u64*)calloc(cap, 8); n = 0; for (size_t i = 0; i < oc; ++i) if (o[i]) put(o[i]); free(o); }
			put(k);
		}
	};
	static FreedSet g_freed;
	static inline void hot_mark(u64 pc)
	{
		if (!g_gl) return;
		u64 h = (pc * 0x9E3779B97F4A7C15ull) >> 50;
		for (int i = 0; i < 8; ++i) { u64 k = g_gl->hot[(h + i) & (HOTN - 1)]; if (k == pc) return; if (!k) { g_gl->hot[(h + i) & (HOTN - 1)] = pc; return; } }
	}
	static inline bool hot_is(u64 pc)
	{
		u64 h = (pc * 0x9E3779B97F4A7C15ull) >> 50;
		for (int i = 0; i < 8; ++i) { u64 k = g_gl->hot[(h + i) & (HOTN - 1)]; if (k == pc) return true; if (!k) return false; }
		return false;
	}
	static void uaf(u64 a)
	{
		if (g_verbose) { fprintf(stderr, "use after free at %lx\n", (unsigned long)a); abort(); }
		end_event("uaf");
	}
	static inline void access(void* addr, bool write, u64 pc)
	{
		if (!g_active || t_nopre) return;
		VT* me = t_self; if (!me) return;
		if ((char*)addr >= me->stackLo && (char*)addr < me->stackHi) return;
		++g_step;
		u64 a = (u64)addr;
		if (g_freed.count(a >> 4)) uaf(a);
		u64 g = a >> 3; Gr& e = g_gr[(g * 0x9E3779B97F4A7C15ull) >> 49];
		uint32_t bit = 1u << (me->idx & 31);
		if (e.g != g) { e.g = g; e.readers = e.writers = 0; }
		if (write) e.writers |= bit; else e.readers |= bit;
		if (g_n > 1 && e.writers && ((e.readers | e.writers) & ((e.readers | e.writers) - 1))) hot_mark(pc);
		if (g_hotDen && g_n > 1 && g_gl && hot_is(pc) && srnd(g_hotDen) == 0) sched_point();
	}

	// ---- quarantine allocator for operator new/delete ----
	struct Hdr { size_t n; size_t pad; };
	static size_t g_quar = 0;
	void* alloc(size_t n)
	{
		Hdr* h = (Hdr*)malloc(sizeof(Hdr) + n);
		if (!h) abort();
		h->n = n;
		memset(h + 1, 0xCD, n);
		return h + 1;
	}
	void dealloc(void* p)
	{
		if (!p) return;
		Hdr* h = (Hdr*)p - 1;
		if (!g_active) { free(h); return; }
		size_t n = h->n;
		if (h->pad == 0xDEAD) { ++t_nopre; if (g_verbose) abort(); end_event("doublefree"); }
		h->pad = 0xDEAD;
		memset(p, 0xDD, n);
		g_quar += n + 32;
		if (g_quar > (200u << 20)) { return; }
		for (u64 a = (u64)p >> 4; n >= 16 && a <= ((u64)p + n - 1) >> 4; ++a) if ((a << 4) + 16 <= (u64)p + n) g_freed.insert(a);
	}
	void realloced(void* p, size_t n) { (void)p; (void)n; }

	// ---- worker / main ----
	static void setup_strategy()
	{
		g_srng.s = g_seed * 0x51ED270B7F4A7C15ull + 77; g_prng.s = g_seed * 0xA24BAED4963EE407ull + 13;
		for (int i = 0; i < 4; ++i) { g_srng.next(); g_prng.next(); }
		const char* force = opt("strat", 0);
		u64 r = srnd(10);
		if (force) { if (!strcmp(force, "none")) r = 9; else if (!strcmp(force, "pct")) r = 5; else r = 0; }
		if (r < 4) { static const int d[] = { 2, 3, 6, 16 }; g_strat = S_RW; g_swDen = d[srnd(4)]; }
		else if (r < 9)
		{
			g_strat = S_PCT; g_nchg = 1 + (int)srnd(4); u64 len = g_gl->lenEst; if (len < 50) len = 50;
			for (int i = 0; i < g_nchg; ++i) g_chg[i] = 1 + srnd(len);
		}
		else g_strat = S_NONE;
		static const int hd[] = { 0, 3, 12, 60 }; g_hotDen = opti("plain", 1) ? hd[srnd(4)] : 0;
		static const int jd[] = { 0, 10, 60, 400 }; g_jitterDen = jd[srnd(4)];
		static const int sd[] = { 0, 0, 10, 50 }; g_spurDen = sd[srnd(4)];
		if (g_n) g_t[0]->prio = 1000 + (int)srnd(1000000);
	}
	static void crash_handler(int sig)
	{
		static volatile int once = 0; if (once) _exit(9); once = 1;
		if (g_sh) {
			char b[160]; int n = snprintf(b, sizeof b, "%s{\"e\":\"crash\",\"sig\":%d,\"t\":%d}", g_sh->len ? "," : "", sig, t_self ? t_self->logical : -1);
			put(b, n); g_sh->end = 3;
		}
		if (opt("bt", 0)) { void* b[40]; int n = backtrace(b, 40); int fd = open(opt("bt", 0), O_WRONLY | O_CREAT | O_APPEND, 0600); backtrace_symbols_fd(b, n, fd); write(fd, "--\n", 3); close(fd); }
		if (g_verbose) { signal(sig, SIG_DFL); raise(sig); }
		_exit(9);
	}
	static void run_child(std::function<void()>& scenario)
	{
		struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
		static char alt[65536]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, 0);
		int sigs[] = { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM };
		for (size_t i = 0; i < sizeof sigs / sizeof *sigs; ++i) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = crash_handler; sa.sa_flags = SA_ONSTACK; sigaction(sigs[i], &sa, 0); }
		if (!g_verbose) alarm(20);
		if (!g_verbose && !opt("stderr", 0)) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); close(fd); }
		init_tables();
		VT* me = self();
		pthread_attr_t a; if (pthread_getattr_np(pthread_self(), &a) == 0) { void* lo; size_t sz; pthread_attr_getstack(&a, &lo, &sz); me->stackLo = (char*)lo; me->stackHi = me->stackLo + sz; pthread_attr_destroy(&a); }
		setup_strategy();
		g_now = MONO_BASE + 0;
		g_active = true;
		scenario();
		u64 e = g_gl->lenEst; g_gl->lenEst = e ? (e * 15 + g_syncStep) / 16 : g_syncStep;
		finish();
	}

	static u64 hashs(const char* p, size_t n) { u64 h = 1469598103934665603ull; for (size_t i = 0; i < n; ++i) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; } return h; }

	int main(int argc, char** argv, std::function<void()> scenario)
	{
		g_opts = new std::map<std::string, std::string>();
		std::string out; u64 s0 = 1, n = 1; int jobs = 1, uniq = 1 << 30; double tmax = 1e9; bool one = false;
		for (int i = 1; i < argc; ++i)
		{
			std::string a = argv[i]; size_t eq = a.find('=');
			std::string k = a.substr(0, eq), v = eq == std::string::npos ? "1" : a.substr(eq + 1);
			if (k == "out") out = v; else if (k == "seed") s0 = strtoull(v.c_str(), 0, 10); else if (k == "n") n = strtoull(v.c_str(), 0, 10);
			else if (k == "jobs") jobs = atoi(v.c_str()); else if (k == "uniq") uniq = atoi(v.c_str()); else if (k == "time") tmax = atof(v.c_str());
			else if (k == "one") one = true; else if (k == "v") { g_verbose = true; g_traceSched = v == "2"; }
			else (*g_opts)[k] = v;
		}
		mallopt(M_PERTURB, 0x5A);
		g_gl = (Global*)mmap(0, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		g_gl->next = 0; g_gl->lenEst = 300;
		pthread_key_create(&g_key, key_dtor);
		if (one)
		{
			g_seed = s0; run_child(scenario); return 0;
		}
		struct timespec t0; __real_clock_gettime(CLOCK_MONOTONIC, &t0);
		std::vector<pid_t> ws;
		for (int w = 0; w < jobs; ++w)
		{
			pid_t p = fork();
			if (p == 0)
			{
				cpu_set_t allowed; CPU_ZERO(&allowed); sched_getaffinity(0, sizeof allowed, &allowed);
				int ncpu = CPU_COUNT(&allowed), want = w % (ncpu ? ncpu : 1), k = 0;
				for (int c = 0; c < CPU_SETSIZE; ++c) if (CPU_ISSET(c, &allowed)) { if (k++ == want) { cpu_set_t one; CPU_ZERO(&one); CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one); break; } }
				Shared* sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
				sh->cap = 1 << 21; sh->buf = (char*)mmap(0, sh->cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
				std::unordered_set<u64> seen;
				std::string f = out + "." + std::to_string(w);
				FILE* o = fopen(f.c_str(), "w"); if (!o) { perror(f.c_str()); _exit(2); }
				for (;;)
				{
					u64 k = __sync_fetch_and_add(&g_gl->next, 1);
					if (k >= n) break;
					struct timespec t1; __real_clock_gettime(CLOCK_MONOTONIC, &t1);
					if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > tmax) break;
					sh->len = 0; sh->end = 0;
					pid_t c = fork();
					if (c == 0) { g_sh = sh; g_seed = s0 + k; run_child(scenario); _exit(0); }
					if (c < 0) { perror("fork"); _exit(2); }
					int st = 0; while (waitpid(c, &st, 0) < 0 && errno == EINTR) ;
					__sync_fetch_and_add(&g_gl->evals, 1);
					if (sh->end == 2) { __sync_fetch_and_add(&g_gl->discards, 1); continue; }
					if (sh->end == 0)
					{
						g_sh = sh; char b[96]; int m = snprintf(b, sizeof b, "%s{\"e\":\"crash\",\"sig\":%d,\"t\":-1}", sh->len ? "," : "", WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)); put(b, m); g_sh = 0; sh->end = 3;
					}
					if (sh->end == 3) __sync_fetch_and_add(&g_gl->crashes, 1);
					u64 h = hashs(sh->buf, sh->len);
					if (!seen.insert(h).second) continue;
					fprintf(o, "%lu\t%.*s\n", (unsigned long)(s0 + k), (int)sh->len, sh->buf);
				}
				fclose(o);
				_exit(0);
			}
			ws.push_back(p);
		}
		int bad = 0;
		for (size_t i = 0; i < ws.size(); ++i) { int st = 0; while (waitpid(ws[i], &st, 0) < 0 && errno == EINTR) ; if (st) bad = 1; }
		printf("{\"evaluations\":%lu,\"crashes\":%lu,\"discards\":%lu}\n", (unsigned long)g_gl->evals, (unsigned long)g_gl->crashes, (unsigned long)g_gl->discards);
		return bad ? 2 : 0;
	}
}

using namespace vs;

void* operator new(size_t n) { return vs::alloc(n); }
void* operator new[](size_t n) { return vs::alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vs::alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return vs::alloc(n); }
void operator delete(void* p) noexcept { vs::dealloc(p); }
void operator delete[](void* p) noexcept { vs::dealloc(p); }
void operator delete(void* p, size_t) noexcept { vs::dealloc(p); }
void operator delete[](void* p, size_t) noexcept { vs::dealloc(p); }

extern "C" {

int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
	no_hook nh; MutexSt s; int type = PTHREAD_MUTEX_DEFAULT; if (a) pthread_mutexattr_gettype(a, &type); s.recursive = type == PTHREAD_MUTEX_RECURSIVE;
	init_tables(); (*g_mutex)[m] = s; return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) { no_hook nh; init_tables(); g_mutex->erase(m); return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { m_lock(m); return 0; }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { m_lock(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return m_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return m_unlock(m); }
int __wrap_pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t*) { return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return c_wait(c, m, INF); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return c_wait(c, m, ts2ns(t)); }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { sched_point(); wake_all(BLK_COND, c); return 0; }
int __wrap_pthread_cond_signal(pthread_cond_t* c)
{
	sched_point();
	VT* w[MAXT]; int n = 0; for (int i = 0; i < g_n; ++i) if (g_t[i]->st == BLK_COND && g_t[i]->obj == c) w[n++] = g_t[i];
	if (n) { VT* v = w[srnd(n)]; v->st = READY; v->woken = true; v->deadline = INF; v->lastRun = g_syncStep; }
	return 0;
}
int __wrap_pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{ make_thread(out, a, fn, arg, std::function<void()>(), -1); sched_point(); return 0; }
int __wrap_pthread_join(pthread_t p, void** r)
{
	for (int i = 0; i < g_n; ++i) if (g_t[i]->pt == p && !g_t[i]->joined && g_t[i] != g_t[0]) return join_vt(g_t[i], r);
	return ESRCH;
}
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void))
{
	init_tables(); VT* me = self(); sched_point(); (void)me;
	for (;;)
	{
		int& s = (*g_once)[o];
		if (s == 2) return 0;
		if (s == 0) { s = 1; try { f(); } catch (...) { (*g_once)[o] = 0; wake_all(BLK_ONCE, o); throw; } (*g_once)[o] = 2; wake_all(BLK_ONCE, o); sched_point(); return 0; }
		set_block(BLK_ONCE, o, INF); block();
	}
}
int __wrap___cxa_guard_acquire(uint64_t* g)
{
	init_tables(); sched_point();
	for (;;)
	{
		if (*(char*)g) return 0;
		int& s = (*g_once)[g];
		if (s == 0) { s = 1; return 1; }
		set_block(BLK_ONCE, g, INF); block();
	}
}
void __wrap___cxa_guard_release(uint64_t* g) { *(char*)g = 1; (*g_once)[g] = 2; wake_all(BLK_ONCE, g); sched_point(); }
void __wrap___cxa_guard_abort(uint64_t* g) { (*g_once)[g] = 0; wake_all(BLK_ONCE, g); sched_point(); }

int __wrap___cxa_atexit(void (*f)(void*), void* arg, void* dso)
{
	if (!g_active) return __real___cxa_atexit(f, arg, dso);
	no_hook nh; if (!g_exits) g_exits = new std::vector<std::pair<void (*)(void*), void*> >; g_exits->push_back(std::make_pair(f, arg)); return 0;
}
static void call_plain(void* f) { ((void (*)())f)(); }
int __wrap_atexit(void (*f)()) { return __wrap___cxa_atexit(&call_plain, (void*)f, NULL); }
int __wrap_sem_init(sem_t* s, int, unsigned n) { no_hook nh; init_tables(); SemSt x; x.n = n; (*g_sem)[s] = x; return 0; }
int __wrap_sem_destroy(sem_t* s) { no_hook nh; init_tables(); g_sem->erase(s); return 0; }
int __wrap_sem_post(sem_t* s) { sched_point(); (*g_sem)[s].n++; wake_all(BLK_SEM, s); return 0; }
static int semwait(sem_t* s, u64 dl)
{
	sched_point();
	for (;;)
	{
		SemSt& x = (*g_sem)[s];
		if (x.n > 0) { --x.n; return 0; }
		set_block(BLK_SEM, s, dl);
		if (self()->st == READY) { errno = ETIMEDOUT; return -1; }
		block();
		if (self()->timedOut && !self()->woken && (*g_sem)[s].n == 0) { errno = ETIMEDOUT; return -1; }
	}
}
int __wrap_sem_wait(sem_t* s) { return semwait(s, INF); }
int __wrap_sem_trywait(sem_t* s) { sched_point(); SemSt& x = (*g_sem)[s]; if (x.n > 0) { --x.n; return 0; } errno = EAGAIN; return -1; }
int __wrap_sem_timedwait(sem_t* s, const struct timespec* t)
{
	u64 ns = ts2ns(t); u64 off = REAL_BASE;
	return semwait(s, ns > off ? ns - off + MONO_BASE : 0);
}
int __wrap_nanosleep(const struct timespec* t, struct timespec*) { sleep_ns(ts2ns(t)); return 0; }
int __wrap_usleep(useconds_t us) { sleep_ns((u64)us * 1000); return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec* t)
{
	if (!g_active) return __real_clock_gettime(c, t);
	if (c != CLOCK_MONOTONIC && c != CLOCK_REALTIME) return __real_clock_gettime(c, t);
	u64 n = c == CLOCK_MONOTONIC ? g_now : g_now - MONO_BASE + REAL_BASE;
	t->tv_sec = n / 1000000000ull; t->tv_nsec = n % 1000000000ull; return 0;
}
int __wrap_gettimeofday(struct timeval* tv, void*)
{ struct timespec t; __wrap_clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
time_t __wrap_time(time_t* p) { struct timespec t; __wrap_clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
int __wrap_sched_yield() { sched_point(true); return 0; }
int __wrap_pthread_setschedparam(pthread_t, int, const struct sched_param*) { return 0; }

// ---- tsan runtime stubs ----
#define PC ((u64)__builtin_return_address(0))
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define A(N, W) void __tsan_##N(void* p) { access(p, W, PC); }
A(read1, false) A(read2, false) A(read4, false) A(read8, false) A(read16, false)
A(write1, true) A(write2, true) A(write4, true) A(write8, true) A(write16, true)
A(unaligned_read2, false) A(unaligned_read4, false) A(unaligned_read8, false) A(unaligned_read16, false)
A(unaligned_write2, true) A(unaligned_write4, true) A(unaligned_write8, true) A(unaligned_write16, true)
A(volatile_read1, false) A(volatile_read2, false) A(volatile_read4, false) A(volatile_read8, false)
A(volatile_write1, true) A(volatile_write2, true) A(volatile_write4, true) A(volatile_write8, true)
A(vptr_read, false)
void __tsan_vptr_update(void** p, void*) { access(p, true, PC); }
void __tsan_read_range(void* p, unsigned long) { access(p, false, PC); }
void __tsan_write_range(void* p, unsigned long) { access(p, true, PC); }
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T* a, int) { sched_point(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##B##_store(volatile T* a, T v, int) { sched_point(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { sched_point(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { sched_point(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { sched_point(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { sched_point(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { sched_point(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { sched_point(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { sched_point(); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { sched_point(); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int, int) { sched_point(); __atomic_compare_exchange_n(a, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}