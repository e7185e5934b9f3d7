#include "threads.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <dlfcn.h>
#include <unistd.h>
#include <cxxabi.h>
#include <pthread.h>
#include <errno.h>
#include <mutex>
static void* EhGlobals() { return (void*) abi::__cxa_get_globals(); }

extern char __data_start, _end;


namespace sim {
extern void (*g_heapHook)(void* p, size_t n, bool alloc);
int LibDepth(); void SetLibDepth(int);
}
using namespace sim;

namespace sched {

static const int Max = 4;                          // threads; clock entry Max is the main thread
struct Fiber {
	ucontext_t ctx; const std::function<void()>* body; bool done, started; int lib; uint64_t eh[2]; void *once; void (*onceCall)();
	const void* waiting; char* stack;
};
static Fiber g_f[Max]; static int g_n = 0, g_cur = -1; static ucontext_t g_main;
static uint32_t g_vc[Max + 1][Max + 1];
static bool g_busy = false;                        // inside the runtime itself
static uint64_t g_steps = 0, g_next = 0, g_switches = 0, g_left = 0, g_digest = 0, g_hotLeft = 0; static Plan g_plan;
static const size_t FiberStack = 8u << 20; static char* const FiberBase = (char*) 0x330000000000ull;
static const uint64_t StepLimit = 1500000000ull;

int Self() { return g_cur; }
uint64_t Steps() { return g_steps; }
uint64_t Switches() { return g_switches; }
uint64_t Digest() { return g_digest; }

// ------------------------------------------------------------------ switching
static void SwitchTo(int to) {
	Fiber& a = g_f[g_cur]; int from = g_cur;
	if (to == from) return;
	a.lib = LibDepth(); memcpy(a.eh, EhGlobals(), sizeof a.eh); a.once = std::__once_callable; a.onceCall = std::__once_call;
	g_cur = to; ++g_switches; g_digest = Mix(g_digest, g_steps * 8 + to);
	SetLibDepth(g_f[to].lib); memcpy(EhGlobals(), g_f[to].eh, sizeof a.eh); std::__once_callable = g_f[to].once; std::__once_call = g_f[to].onceCall;
	swapcontext(&a.ctx, &g_f[to].ctx);
}
static int Ready(int k, bool self) {                 // the k-th other thread that can go on
	int n = 0;
	for (int i = 0; i < g_n; ++i) if (!g_f[i].done && !g_f[i].waiting && (self || i != g_cur)) { if (n == k) return i; ++n; }
	return -1;
}
static int CountReady(bool self) { int n = 0; for (int i = 0; i < g_n; ++i) if (!g_f[i].done && !g_f[i].waiting && (self || i != g_cur)) ++n; return n; }
static void SetNext() {
	if (!g_left) { g_next = ~0ull; return; }
	--g_left;
	// from a few steps to the interval, evenly over the orders of magnitude
	uint64_t hi = g_plan.interval, k = Draw(6); while (k-- && hi > 8) hi /= 4;
	g_next = g_steps + 1 + Draw(hi);
}
static void Preempt() {
	int n = CountReady(false);
	if (n) SwitchTo(Ready((int) Draw(n), false));
}
void Yield() { if (g_cur >= 0 && !g_busy) { g_busy = true; Preempt(); g_busy = false; } }
static void Block(const void* on) {
	g_f[g_cur].waiting = on;
	int n = CountReady(false);
	if (!n) Fail("deadlock", "all threads wait for each other");
	SwitchTo(Ready((int) Draw(n), false));
}
static void Wake(const void* on) { for (int i = 0; i < g_n; ++i) if (g_f[i].waiting == on) g_f[i].waiting = nullptr; }

static void Entry() {
	g_busy = false;
	(*g_f[g_cur].body)();
	g_busy = true;
	Fiber& f = g_f[g_cur]; f.done = true; g_digest = Mix(g_digest, g_steps * 8 + 7);
	for (int i = 0; i <= Max; ++i) if (g_vc[g_cur][i] > g_vc[Max][i]) g_vc[Max][i] = g_vc[g_cur][i];
	int n = CountReady(false);
	if (!n) {
		for (int i = 0; i < g_n; ++i) if (!g_f[i].done) Fail("deadlock", "thread %d waits for ever", i);
		g_f[g_cur].lib = LibDepth(); int from = g_cur; g_cur = -1;
		swapcontext(&g_f[from].ctx, &g_main); _exit(70);
	}
	SwitchTo(Ready((int) Draw(n), false));
	_exit(70);
}

// ------------------------------------------------------------------ races
struct Cell { uint32_t wclk, wpc; uint8_t wfib, wmask, freed, pad; uint32_t rclk[Max]; uint8_t rmask[Max]; uint32_t rpc[Max]; };
static char* const ArenaBase = (char*) 0x200000000000ull; static const size_t ArenaSize = 3ull << 30;
static Cell* g_heapCells; static Cell* g_dataCells; static char *g_dataLo, *g_dataHi;

static Cell* CellOf(uintptr_t a) {
	if (a - (uintptr_t) ArenaBase < ArenaSize) return g_heapCells + (a - (uintptr_t) ArenaBase) / 8;
	if (a >= (uintptr_t) g_dataLo && a < (uintptr_t) g_dataHi) return g_dataCells + (a - (uintptr_t) g_dataLo) / 8;
	return nullptr;
}
static std::string Where(uint32_t pc) {
	Dl_info d; if (!pc) return "operator delete";
	static uintptr_t lo = 0; if (!lo) { dladdr((void*) &Where, &d); lo = (uintptr_t) d.dli_fbase; }
	if (dladdr((void*) (lo + pc), &d) && d.dli_sname) {
		int st; char* s = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st); std::string r = s ? s : d.dli_sname; free(s);
		return r.size() > 150 ? r.substr(0, 150) + "..." : r;
	}
	return "?";
}
static uint32_t Rel(void* pc) {
	static uintptr_t lo = 0; if (!lo) { Dl_info d; dladdr((void*) &Where, &d); lo = (uintptr_t) d.dli_fbase; }
	return pc ? (uint32_t) ((uintptr_t) pc - lo) : 0;
}
static std::string What(uintptr_t a) {
	Dl_info d; if (a - (uintptr_t) ArenaBase < ArenaSize) return "heap memory";
	if (dladdr((void*) a, &d) && d.dli_sname) { int st; char* s = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st); std::string r = s ? s : d.dli_sname; free(s); return r.substr(0, 150); }
	return "a static variable";
}
static void Race(uintptr_t a, const char* what, int other, uint32_t opc, const char* mine, uint32_t pc) {
	Fail("data-race", "%s: thread %d %s it in %s, unordered with thread %d, which %s it in %s", What(a).c_str(), g_cur, mine, Where(pc).c_str(), other, what, Where(opc).c_str());
}
static void OneCell(uintptr_t a, uint8_t mask, bool write, uint32_t pc) {
	Cell* c = CellOf(a);
	if (!c) return;
	if (c->freed & mask) Fail("use-after-free", "thread %d %s freed memory in %s", g_cur, write ? "writes" : "reads", Where(pc).c_str());
	int f = g_cur;
	if (c->wmask & mask && c->wfib != f && c->wclk > g_vc[f][c->wfib]) Race(a, "wrote", c->wfib, c->wpc, write ? "writes" : "reads", pc);
	if (write) {
		for (int i = 0; i < g_n; ++i) if (i != f && c->rmask[i] & mask && c->rclk[i] > g_vc[f][i]) Race(a, "read", i, c->rpc[i], "writes", pc);
		if (c->wfib == f && c->wclk == g_vc[f][f]) c->wmask |= mask; else c->wmask = mask;
		c->wfib = f; c->wclk = g_vc[f][f]; c->wpc = pc;
	} else {
		if (c->rclk[f] == g_vc[f][f]) c->rmask[f] |= mask; else c->rmask[f] = mask;
		c->rclk[f] = g_vc[f][f]; c->rpc[f] = pc;
	}
}
static void Touch(uintptr_t a, size_t n, bool write, void* pc) {
	uint32_t rel = Rel(pc);
	while (n) {
		size_t in = 8 - (a & 7), k = n < in ? n : in;
		OneCell(a, (uint8_t) (((1u << k) - 1) << (a & 7)), write, rel); a += k; n -= k;
	}
}
static void HeapHook(void* p, size_t n, bool alloc) {
	if (!g_heapCells || g_cur < 0) return;
	// the block is nobody's: allocators order their users
	if (!alloc) { bool b = g_busy; g_busy = true; Touch((uintptr_t) p, n, true, nullptr); g_busy = b; }
	size_t lo = ((char*) p - ArenaBase) / 8, cells = (n + 7) / 8;
	memset(g_heapCells + lo, 0, cells * sizeof(Cell));
	if (!alloc) for (size_t i = 0; i < cells; ++i) g_heapCells[lo + i].freed = 0xFF;
}

// ------------------------------------------------------------------ hooks
static inline void Step() {
	if (++g_steps >= g_next) { SetNext(); Preempt(); }
	if (g_steps > StepLimit) Fail("no-progress", "the threads were still busy after %llu steps", (unsigned long long) g_steps);
}
static void Point() { if (g_cur < 0 || g_busy) return; g_busy = true; Step(); g_busy = false; }
// What a static guard, an atomic variable or a mutex at an address has published. State of a guard: 0 new, 1 running, 2 done.
struct Sync { uintptr_t at; int state; uint32_t clk[Max + 1]; };
static Sync g_sync[1024]; static size_t g_nSync = 0;
static Sync* SyncAt(uintptr_t a, bool make) {
	for (size_t i = 0; i < g_nSync; ++i) if (g_sync[i].at == a) return &g_sync[i];
	if (!make) return nullptr;
	if (g_nSync == 1024) { g_sync[1023] = Sync(); g_nSync = 1023; }
	Sync& s = g_sync[g_nSync++]; s = Sync(); s.at = a; return &s;
}
static void Acquire(const uint32_t* c) { for (int i = 0; i <= Max; ++i) if (c[i] > g_vc[g_cur][i]) g_vc[g_cur][i] = c[i]; }
static void Release(uint32_t* c) { for (int i = 0; i <= Max; ++i) if (g_vc[g_cur][i] > c[i]) c[i] = g_vc[g_cur][i]; ++g_vc[g_cur][g_cur]; }

static void Access(uintptr_t a, size_t n, bool write, void* pc) {
	if (g_cur < 0 || g_busy || !n) return;
	g_busy = true;
	if (a >= (uintptr_t) g_dataLo && a < (uintptr_t) g_dataHi && g_plan.hot && g_hotLeft && Draw(16) < g_plan.hot) { --g_hotLeft; Preempt(); }
	Step();
	Touch(a, n, write, pc);
	g_busy = false;
}
// An atomic operation, done between two scheduling points.
static void Atomic(const volatile void* p, bool read, bool write, int mo) {
	if (g_cur < 0 || g_busy) return;
	g_busy = true;
	if (g_plan.hot && g_hotLeft && Draw(16) < g_plan.hot) { --g_hotLeft; Preempt(); }
	Step(); Count("sched.atomic_operations");
	Sync* s = SyncAt((uintptr_t) p, true);
	if (read && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) Acquire(s->clk);
	if (write) {
		if (!read) memset(s->clk, 0, sizeof s->clk);   // a plain store ends the release sequence
		if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) Release(s->clk);
	}
	g_busy = false;
}

void Mutex::Lock() {
	if (g_cur < 0) return;
	g_busy = true;
	while (owner >= 0) Block(this);
	owner = g_cur; Acquire(clock); g_busy = false;
}
void Mutex::Unlock() {
	if (g_cur < 0) return;
	g_busy = true; Release(clock); owner = -1; Wake(this); if (Draw(2)) Preempt(); g_busy = false;
}

void Run(const std::vector<std::function<void()>>& bodies, const Plan& plan) {
	g_n = (int) bodies.size(); if (g_n > Max) abort();
	g_plan = plan; g_left = plan.preemptions; g_hotLeft = 60;
	if (!g_heapCells) {
		g_dataLo = (char*) ((uintptr_t) &__data_start & ~7ull); g_dataHi = &_end;
		auto map = [](size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(70); } return p; };
		g_dataCells = (Cell*) map(((g_dataHi - g_dataLo) / 8 + 2) * sizeof(Cell));
		g_heapCells = (Cell*) map(ArenaSize / 8 * sizeof(Cell));
		void* st = mmap(FiberBase, FiberStack * Max, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		if (st != FiberBase) _exit(70);
		sim::g_heapHook = HeapHook;
	}
	++g_vc[Max][Max];
	for (int i = 0; i < g_n; ++i) {
		Fiber& f = g_f[i]; memset(&f, 0, sizeof f); f.body = &bodies[i]; f.stack = FiberBase + FiberStack * i;
		memcpy(g_vc[i], g_vc[Max], sizeof g_vc[i]); ++g_vc[i][i];
		getcontext(&f.ctx); f.ctx.uc_stack.ss_sp = f.stack + 4096; f.ctx.uc_stack.ss_size = FiberStack - 4096; f.ctx.uc_link = nullptr;
		mprotect(f.stack, 4096, PROT_NONE);
		makecontext(&f.ctx, Entry, 0);
	}
	g_busy = true; SetNext(); g_cur = (int) Draw(g_n);
	swapcontext(&g_main, &g_f[g_cur].ctx);
	g_busy = false;
	Count("sched.steps", g_steps); Count("sched.switches", g_switches);
}

}

using namespace sched;
#define PC __builtin_return_address(0)
extern "C" {
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t);
// The compiler's calls, as for ThreadSanitizer.
void __tsan_init() {}
void __tsan_func_entry(void*) { Point(); }
void __tsan_func_exit() {}
#define HOOKS(N) \
	void __tsan_read##N(void* p) { Access((uintptr_t) p, N, false, PC); } \
	void __tsan_write##N(void* p) { Access((uintptr_t) p, N, true, PC); } \
	void __tsan_unaligned_read##N(void* p) { Access((uintptr_t) p, N, false, PC); } \
	void __tsan_unaligned_write##N(void* p) { Access((uintptr_t) p, N, true, PC); }
HOOKS(1) HOOKS(2) HOOKS(4) HOOKS(8) HOOKS(16)
void __tsan_read_range(void* p, size_t n) { Access((uintptr_t) p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { Access((uintptr_t) p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) Access((uintptr_t) p, 8, true, PC); }
void __tsan_vptr_read(void** p) { Access((uintptr_t) p, 8, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { Access((uintptr_t) s, n, false, PC); Access((uintptr_t) d, n, true, PC); return __real_memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { Access((uintptr_t) s, n, false, PC); Access((uintptr_t) d, n, true, PC); return __real_memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { Access((uintptr_t) d, n, true, PC); return __real_memset(d, c, n); }
// Calls by name, through the linker's --wrap.
void* __wrap_memcpy(void* d, const void* s, size_t n) { Access((uintptr_t) s, n, false, PC); Access((uintptr_t) d, n, true, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { Access((uintptr_t) s, n, false, PC); Access((uintptr_t) d, n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { Access((uintptr_t) d, n, true, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { Access((uintptr_t) a, n, false, PC); Access((uintptr_t) b, n, false, PC); return __real_memcmp(a, b, n); }
#define ATOMICS(B, T) \
	T __tsan_atomic##B##_load(const volatile T* p, int mo) { Atomic(p, true, false, mo); return *p; } \
	void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { Atomic(p, false, true, mo); *p = v; } \
	T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { Atomic(p, true, true, mo); T o = *p; *p = v; return o; } \
	T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { Atomic(p, true, true, mo); T o = *p; *p = (T) (o + v); return o; } \
	T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { Atomic(p, true, true, mo); T o = *p; *p = (T) (o - v); return o; } \
	T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { Atomic(p, true, true, mo); T o = *p; *p = (T) (o & v); return o; } \
	T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { Atomic(p, true, true, mo); T o = *p; *p = (T) (o | v); return o; } \
	T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { Atomic(p, true, true, mo); T o = *p; *p = (T) (o ^ v); return o; } \
	T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) { Atomic(p, true, true, mo); T o = *p; *p = (T) ~(o & v); return o; } \
	T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int mo, int) { Atomic(p, true, true, mo); T o = *p; if (o == c) *p = v; return o; } \
	int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int) { Atomic(p, true, true, mo); T o = *p; if (o == *c) { *p = v; return 1; } *c = o; return 0; } \
	int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int f) { return __tsan_atomic##B##_compare_exchange_strong(p, c, v, mo, f); }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
// A fence orders everything: the stricter reading would need the stores it pairs with.
static uint32_t g_fence[Max + 1];
void __tsan_atomic_thread_fence(int) { if (g_cur < 0 || g_busy) return; g_busy = true; Acquire(g_fence); Release(g_fence); g_busy = false; }
void __tsan_atomic_signal_fence(int) {}

// Mutexes and one-time calls: none in the library today, modelled so that code using them runs the same here.
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real_pthread_once(pthread_once_t*, void (*)());
static int Lock(void* m, bool wait) {
	g_busy = true;
	if (Draw(4) == 3) Preempt();
	Sync* s = SyncAt((uintptr_t) m, true);
	while (s->state) { if (!wait) { g_busy = false; return EBUSY; } Count("sched.waited_for_mutex"); Block(m); }
	s->state = 1; Acquire(s->clk); g_busy = false; return 0;
}
static int Unlock(void* m) {
	g_busy = true; Sync* s = SyncAt((uintptr_t) m, true); Release(s->clk); s->state = 0; Wake(m); if (Draw(4) == 3) Preempt(); g_busy = false; return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return g_cur < 0 || g_busy ? __real_pthread_mutex_lock(m) : Lock(m, true); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return g_cur < 0 || g_busy ? __real_pthread_mutex_trylock(m) : Lock(m, false); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return g_cur < 0 || g_busy ? __real_pthread_mutex_unlock(m) : Unlock(m); }
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
	if (g_cur < 0 || g_busy) return __real_pthread_once(o, f);
	g_busy = true; Sync* s = SyncAt((uintptr_t) o, true);
	if (!s->state && *(int*) o) s->state = 2;          // done before the threads started
	while (s->state == 1) { Count("sched.waited_for_static"); Block(o); }
	Acquire(s->clk);
	if (!s->state) {
		s->state = 1; g_busy = false;
		try { f(); } catch (...) { g_busy = true; s = SyncAt((uintptr_t) o, true); s->state = 0; Wake(o); g_busy = false; throw; }
		g_busy = true; s = SyncAt((uintptr_t) o, true); s->state = 2; *(int*) o = 2; Release(s->clk); Wake(o);
	}
	g_busy = false; return 0;
}
}
// Initialisation of local statics: as the C++ runtime does it, with threads that wait.
int abi::__cxa_guard_acquire(__guard* g) {
	if (g_cur < 0) return *(char*) g ? 0 : 1;
	g_busy = true;
	if (g_plan.hot && g_hotLeft && Draw(2)) { --g_hotLeft; Preempt(); }
	Sync* s = SyncAt((uintptr_t) g, true);
	if (*(char*) g) s->state = 2;
	while (s->state == 1) { Count("sched.waited_for_static"); Block(g); }
	int r = s->state == 2 ? 0 : 1;
	Acquire(s->clk);
	if (r) { s->state = 1; Count("sched.static_initialised"); }
	g_busy = false; return r;
}
void abi::__cxa_guard_release(__guard* g) noexcept {
	*(char*) g = 1;
	if (g_cur < 0) return;
	g_busy = true; Sync* s = SyncAt((uintptr_t) g, true); s->state = 2; Release(s->clk); Wake(g);
	if (g_plan.hot && g_hotLeft && Draw(2)) { --g_hotLeft; Preempt(); }
	g_busy = false;
}
void abi::__cxa_guard_abort(__guard* g) noexcept {
	if (g_cur < 0) return;
	g_busy = true; Sync* s = SyncAt((uintptr_t) g, true); s->state = 0; Release(s->clk); Wake(g); g_busy = false;
}
