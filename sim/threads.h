// Threads under the simulator's control. The library is compiled so that it reports every basic block
// and every load and store; threads are fibers, a seeded scheduler decides at those points which of them
// goes on, and a happens-before detector watches the loads and stores. Static initialisation of local
// variables, and the locks below, are what orders threads.
#pragma once
#include "sim.h"
#include <functional>

namespace sched {

struct Plan {
	unsigned interval = 1000;      // preemptions lie up to this many steps apart
	unsigned preemptions = 200;    // at most this many, afterwards threads run until they block or end
	unsigned hot = 0;              // out of 16: chance to preempt at an access to a global variable
};

// Runs the bodies as threads to their ends. Bodies must not let exceptions escape.
void Run(const std::vector<std::function<void()>>& bodies, const Plan& plan);
int Self();                        // -1 outside of threads
void Yield();
uint64_t Steps();                  // basic blocks, loads and stores executed by threads so far
uint64_t Switches();

struct Mutex {
	int owner = -1; uint32_t clock[5] = { 0, 0, 0, 0, 0 };
	void Lock(); void Unlock();
};
// A switch is part of the log only as a digest: schedules differ in millions of places.
uint64_t Digest();

}
