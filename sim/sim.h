// Core of the deterministic simulator: the choice tape, the event log, the simulated
// clock, the simulated heap, fault plans and the reporting of violations.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choices
// Every decision of a run (workload, schedule, fault, delay, placement) is one Draw().
// Draws come from one PRNG seeded by (VERIF_SEED, property, run index) and are recorded
// on a tape; a replay reads the tape instead of the PRNG.
uint64_t Draw(uint64_t n);                       // uniform in [0, n)
inline uint64_t Range(uint64_t lo, uint64_t hi) { return lo + Draw(hi - lo + 1); }  // inclusive
// true with probability num/den; value 0 on the tape means "false"
inline bool Chance(uint64_t num, uint64_t den) { return Draw(den) >= den - num; }
template<class V> const typename V::value_type& Pick(const V& v) { return v[Draw(v.size())]; }
template<class T> void Shuffle(std::vector<T>& v) {
	for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[i - 1 - Draw(i)]);
}

// ---------------------------------------------------------------- log, coverage, clock
void Log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool Verbose();
void Count(const char* name, uint64_t by = 1);   // reach / fault counters
void Cover(uint64_t h);                          // abstract state or interleaving reached
inline uint64_t Mix(uint64_t h, uint64_t v) {
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h;
}
uint64_t HashStr(const std::string& s);

extern uint64_t g_now;                           // simulated time, microseconds
void Advance(uint64_t us);

// Reports a violation and ends the run. `cls` is the class kept stable by minimisation.
[[noreturn]] void Fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// Ends the run without a verdict (a generated case outside the bounds of the harness).
[[noreturn]] void Discard(const char* why);
#define SIM_CHECK(c, cls, ...) do { if (!(c)) ::sim::Fail(cls, __VA_ARGS__); } while (0)

// ---------------------------------------------------------------- simulated heap
// All of operator new/delete and malloc/free of the code linked into the simulator is served
// from an arena at a fixed address, filled with seeded garbage, with poisoned red zones.
struct HeapStats { uint64_t allocs; uint64_t liveLib; uint64_t liveLibBytes; };
void HeapSetGarbage(unsigned char fill);
// Inside a LibScope allocations belong to the code under test: they are counted and may fail.
struct LibScope { LibScope(); ~LibScope(); int saved; };
struct HarnessScope { HarnessScope(); ~HarnessScope(); int saved; };
void HeapFailArm(uint64_t nth, bool persistent);  // nth (1-based) library allocation from now fails
void HeapFailDisarm();
uint64_t HeapFailed();                            // allocations failed since armed
uint64_t HeapLibAllocs();                         // library allocations so far in this run
uint64_t HeapLiveLib();                           // live library blocks
uint64_t HeapLiveLibBytes();
uint64_t HeapSeq();
size_t HeapBlockSize(const void* p);              // 0 if not a live block

template<class F> auto InLib(F f) -> decltype(f()) { LibScope l; return f(); }

// ---------------------------------------------------------------- properties
typedef void (*RunFn)();
struct Property {
	const char* id;
	RunFn run;
	RunFn warm;       // executed once in the zygote
	Property(const char* id, RunFn run, RunFn warm = nullptr);
};

}
