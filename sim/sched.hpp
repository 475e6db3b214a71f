// Thread simulator. Library code is compiled with the compiler's thread-sanitizer instrumentation but linked
// against the runtime in sched.cpp: every memory access, atomic operation, lock, once-guard, condition variable
// and thread creation of the library is a seam. Simulated threads are real threads of which exactly one runs;
// the seed decides after how many accesses control passes on, and to whom. Unordered conflicting accesses are
// found with vector clocks, deadlocks by having nobody left to run.
#pragma once
#include <cstdint>
#include <functional>

namespace sim::sched {

struct Options {
	bool everyAccess = false; // preempt at any memory access; otherwise only where threads can notice each other
	unsigned maxExp = 8;      // preemption gaps are up to 2^maxExp points
	unsigned maxSwitches = 2000;
	bool races = true;
};

struct Stats {
	uint64_t points = 0, interesting = 0, switches = 0, preemptions = 0, blocked = 0, sync = 0, checked = 0;
	uint64_t signature = 0;
};

void begin(const Options& o);
// Adds a thread; nothing runs before run().
void spawn(std::function<void()> body);
// Runs every spawned thread to its end, interleaved as the seed says.
void run();
Stats end();

} // namespace sim::sched
