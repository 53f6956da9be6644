// Deterministic controlled scheduler + trace recorder ("vsched").
#pragma once
#include <stdint.h>
#include <string>
#include <vector>
#include <functional>

namespace vs
{
	// ---- identity / control -------------------------------------------------
	int  tid();                                   // logical id of the calling driver thread (0 = main); library threads are 50+n
	void spawn(int tid, std::function<void()> f); // start a driver thread with a logical id (threads run only under the scheduler)
	void join(int tid);
	void point();                                 // explicit preemption point
	void sleep_ms(int ms);                        // virtual sleep
	void sleep_us(int us);
	int  now_ms();                                // virtual time since start, ms
	uint64_t now_us();
	void set_time_jitter(bool on);                // allow the scheduler to fire timers while others can run (default on)
	void set_spurious(bool on);                   // allow spurious condvar wakeups (default off)
	void set_horizon_ms(int ms);                  // virtual time after which the run is declared quiescent
	void run_atexit();                            // run the exit handlers registered since the start (statics, atexit), last first
	int  lib_threads();                           // library threads that have not ended
	struct no_preempt { no_preempt(); ~no_preempt(); };
	// atomically (w.r.t. scheduling) call f - no preemption inside
	bool verbose();

	// ---- randomness (program generation; deterministic per seed) ----------
	uint32_t rnd();                               // raw
	int rnd(int lo, int hi);                      // inclusive
	bool chance(int num, int den);
	uint64_t seed();
	const char* opt(const char* name, const char* dflt);
	int opti(const char* name, int dflt);

	// ---- trace ----------------------------------------------------------
	class ev
	{
		std::string _s; bool _done;
	public:
		explicit ev(const char* e, bool withTid = true);
		ev(ev&& o) : _s(std::move(o._s)), _done(o._done) { o._done = true; }
		~ev();
		ev& i(const char* k, long long v);
		ev& s(const char* k, const std::string& v);
		ev& b(const char* k, bool v);
		ev& raw(const char* k, const std::string& json);
		ev& li(const char* k, const std::vector<int>& v);
		ev& ls(const char* k, const std::vector<std::string>& v);
		ev& lli(const char* k, const std::vector<std::vector<int> >& v);
	};
	std::string jstr(const std::string& s);
	void finish();                                // end the run now (normal end)
	void discard();                               // end the run without recording a trace
	int  main(int argc, char** argv, std::function<void()> scenario);
}
