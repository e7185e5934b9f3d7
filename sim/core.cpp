#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <time.h>
#include <pthread.h>
#include <malloc.h>
#include <new>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#if defined(__has_feature)
#  if __has_feature(address_sanitizer)
#    define SIM_ASAN 1
#  endif
#endif
#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(p, n) ((void) 0)
#define ASAN_UNPOISON_MEMORY_REGION(p, n) ((void) 0)
#endif

extern "C" void* __real_malloc(size_t);
extern "C" void __real_free(void*);
extern "C" void* __real_realloc(void*, size_t);

// Used where the thread simulation must not see an access.
static void PlainFill(void* p, int c, size_t n) { asm volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(c) : "memory"); }
static void PlainCopy(void* d, const void* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }

namespace sim {

// ================================================================= shared run record
enum Status { Running = 0, Ok = 1, Violation = 2, Discarded = 3, InternalError = 4 };
static const size_t MaxTape = 1 << 16, MaxLog = 1 << 19, MaxCounters = 192, MaxCover = 4096;

struct Shm {
	uint64_t seed;
	uint32_t status;
	uint32_t tapeLen;
	uint64_t draws;
	uint64_t logHash;
	uint64_t logLines;
	uint64_t simTime;
	uint32_t coverLen;
	uint32_t logLen;
	uint32_t replayLen;           // tape given to the child (replay mode)
	uint32_t replaying;
	uint32_t verbose;
	uint64_t cpuMs;
	char cls[96];
	char msg[4096];
	uint32_t tape[MaxTape];
	uint32_t replay[MaxTape];
	uint64_t cover[MaxCover];
	struct { char name[56]; uint64_t n; } counters[MaxCounters];
	char log[MaxLog];
};
static Shm* g_shm;

// ================================================================= choices
static uint64_t g_rng;
static uint64_t NextRand() {
	uint64_t z = (g_rng += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
uint64_t Draw(uint64_t n) {
	if (n <= 1) return 0;
	uint64_t v;
	Shm* s = g_shm;
	if (s->replaying)
		v = s->draws < s->replayLen ? s->replay[s->draws] % n : 0;
	else
		v = NextRand() % n;
	if (s->tapeLen < MaxTape) s->tape[s->tapeLen++] = (uint32_t) v;
	++s->draws;
	if (s->draws >= MaxTape) Discard("choice tape full");
	return v;
}

// ================================================================= log
static void HashBytes(uint64_t& h, const char* p, size_t n) {
	for (size_t i = 0; i < n; ++i) { h ^= (unsigned char) p[i]; h *= 0x100000001b3ull; }
}
uint64_t HashStr(const std::string& s) { uint64_t h = 0xcbf29ce484222325ull; HashBytes(h, s.data(), s.size()); return h; }
bool Verbose() { return g_shm->verbose; }
static void VLog(const char* fmt, va_list ap) {
	char buf[2048];
	int n = snprintf(buf, 40, "[%llu us] ", (unsigned long long) g_now);
	n += vsnprintf(buf + n, sizeof(buf) - n - 2, fmt, ap);
	if (n > (int) sizeof(buf) - 2) n = sizeof(buf) - 2;
	buf[n++] = '\n';
	Shm* s = g_shm;
	HashBytes(s->logHash, buf, n);
	++s->logLines;
	if (s->verbose && s->logLen + n < MaxLog) { PlainCopy(s->log + s->logLen, buf, n); s->logLen += n; }
}
void Log(const char* fmt, ...) { va_list ap; va_start(ap, fmt); VLog(fmt, ap); va_end(ap); }
static void CountIn(Shm* s, const char* name, uint64_t by) {
	for (size_t i = 0; i < MaxCounters; ++i) {
		if (!s->counters[i].name[0]) { strncpy(s->counters[i].name, name, sizeof(s->counters[i].name) - 1); }
		if (!strncmp(s->counters[i].name, name, sizeof(s->counters[i].name) - 1)) { s->counters[i].n += by; return; }
	}
}
void Count(const char* name, uint64_t by) { CountIn(g_shm, name, by); }
void Cover(uint64_t h) { if (g_shm->coverLen < MaxCover) g_shm->cover[g_shm->coverLen++] = h; }
uint64_t g_now = 0;
void Advance(uint64_t us) { g_now += us; g_shm->simTime = g_now; }

static void Finish(Status st) __attribute__((noreturn));
static void Finish(Status st) {
	g_shm->status = st;
	_exit(st == Violation ? 3 : 0);
}
void Fail(const char* cls, const char* fmt, ...) {
	va_list ap; va_start(ap, fmt);
	char buf[3800];
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	strncpy(g_shm->cls, cls, sizeof(g_shm->cls) - 1);
	strncpy(g_shm->msg, buf, sizeof(g_shm->msg) - 1);
	Log("VIOLATION %s: %s", cls, buf);
	Finish(Violation);
}
void Discard(const char* why) {
	Count((std::string("discard.") + why).c_str());
	Log("discard: %s", why);
	Finish(Discarded);
}

// ================================================================= heap
static char* const ArenaBase = (char*) 0x200000000000ull;
static const size_t ArenaSize = 3ull << 30;
static const size_t RunBudget = 1400ull << 20;     // bytes one run may take from the arena
static size_t g_arenaTop = 0, g_arenaRunStart = 0;
static bool g_heapReady = false;
static unsigned char g_fill = 0xA5;
static bool g_driver = true;    // the search driver's own blocks stay out of the arena: a run starts on the same heap in every mode
static int g_inLib = 0;
static uint64_t g_seq = 0, g_libAllocs = 0, g_liveLib = 0, g_liveLibBytes = 0;
static uint64_t g_failAt = 0, g_failed = 0; static bool g_failPersistent = false;

void (*g_heapHook)(void*, size_t, bool) = nullptr;   // told of every block (thread simulation)
int LibDepth() { return g_inLib; }
void SetLibDepth(int v) { g_inLib = v; }

struct Hdr { uint32_t magic; uint32_t cls; uint64_t size; uint64_t seq; uint32_t lib; uint32_t pad; };
static const uint32_t MagicLive = 0x51AB1E55, MagicFree = 0xF4EEB10C;
static const size_t Red = 16;
static_assert(sizeof(Hdr) == 32, "hdr");
struct FreeNode { FreeNode* next; };
static const size_t NCls = 128;
static FreeNode* g_free[NCls];
// quarantine: a ring of freed blocks that are not handed out again at once
static const size_t QCap = 512;
static Hdr* g_quar[QCap]; static size_t g_qpos = 0;

static size_t ClassOf(size_t total, size_t& rounded) {
	// 4 classes per power of two, from 64 bytes
	size_t c = 0, base = 64;
	while (base * 2 <= total) { base *= 2; c += 4; }
	size_t step = base / 4, k = 0;
	size_t sz = base;
	while (sz < total) { sz += step; ++k; }
	rounded = sz;
	return std::min(c + k, NCls - 1 + 0 * k);
}
static void HeapInit() {
	void* p = mmap(ArenaBase, ArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != ArenaBase) { static const char m[] = "sim: cannot reserve the arena\n"; if (write(2, m, sizeof(m) - 1)) {} _exit(70); }
	g_heapReady = true;
}
static bool InArena(const void* p) { return (const char*) p >= ArenaBase && (const char*) p < ArenaBase + ArenaSize; }
static int SpinLibOff() { int s = g_inLib; g_inLib = 0; return s; }

static void* HeapAlloc(size_t n, bool& injected) {
	injected = false;
	if (g_driver) return __real_malloc(n ? n : 1);
	if (!g_heapReady) HeapInit();
	if (g_inLib) {
		++g_libAllocs;
		if (g_failAt) {
			if (g_failAt == 1 || (g_failPersistent && g_failed)) {
				++g_failed; injected = true;
				if (!g_failPersistent) g_failAt = 0;
				int s = SpinLibOff();
				Count("fault.alloc_failed");
				Log("fault: allocation fails");
				g_inLib = s;
				return nullptr;
			}
			--g_failAt;
		}
	}
	if (n > ArenaSize / 2) return nullptr;
	size_t rounded; size_t c = ClassOf(n + sizeof(Hdr) + Red, rounded);
	Hdr* h;
	if (g_free[c]) {
		h = (Hdr*) g_free[c];
		ASAN_UNPOISON_MEMORY_REGION(h, rounded);
		g_free[c] = g_free[c]->next;
	} else {
		if (g_arenaTop + rounded > ArenaSize) return nullptr;
		if (g_shm && g_arenaRunStart && g_arenaTop + rounded - g_arenaRunStart > RunBudget) {
			g_failAt = 0;
			Fail("runaway-allocation", "the run took more than %zu MiB", RunBudget >> 20);
		}
		h = (Hdr*) (ArenaBase + g_arenaTop);
		g_arenaTop += rounded;
		ASAN_UNPOISON_MEMORY_REGION(h, rounded);
	}
	h->magic = MagicLive; h->cls = (uint32_t) c; h->size = n; h->seq = ++g_seq; h->lib = g_inLib != 0;
	char* user = (char*) (h + 1);
	PlainFill(user, g_fill, n);
	ASAN_POISON_MEMORY_REGION(h, sizeof(Hdr));
	ASAN_POISON_MEMORY_REGION(user + ((n + 7) & ~size_t(7)), rounded - sizeof(Hdr) - ((n + 7) & ~size_t(7)));
#ifdef SIM_ASAN
	if (n & 7) { // make the partial last granule precise
		ASAN_POISON_MEMORY_REGION(user + n, ((n + 7) & ~size_t(7)) - n);
	}
#endif
	if (g_inLib) { ++g_liveLib; g_liveLibBytes += n; }
	if (g_heapHook) g_heapHook(user, n, true);
	return user;
}
static void HeapFree(void* p) {
	if (!p) return;
	if (!InArena(p)) { __real_free(p); return; }
	Hdr* h = (Hdr*) p - 1;
	ASAN_UNPOISON_MEMORY_REGION(h, sizeof(Hdr));
	if (h->magic != MagicLive) Fail("bad-free", "%s of a heap block", h->magic == MagicFree ? "double free" : "invalid free");
	if (h->lib) { --g_liveLib; g_liveLibBytes -= h->size; }
	h->magic = MagicFree;
	size_t rounded; size_t c = ClassOf(h->size + sizeof(Hdr) + Red, rounded);
	(void) c;
	if (g_heapHook) g_heapHook(p, h->size, false);
	PlainFill(p, 0xDD, h->size < 256 ? h->size : 256);
	ASAN_POISON_MEMORY_REGION(h, rounded);
	Hdr* old = g_quar[g_qpos]; g_quar[g_qpos] = h; g_qpos = (g_qpos + 1) % QCap;
	if (old) {
		ASAN_UNPOISON_MEMORY_REGION(old, sizeof(Hdr));
		uint32_t cls = old->cls;
		FreeNode* f = (FreeNode*) old;
		// keep magic/cls readable for double-free detection: the link lives in size's place
		f->next = g_free[cls];
		g_free[cls] = f;
		ASAN_POISON_MEMORY_REGION(old, sizeof(Hdr));
		ASAN_UNPOISON_MEMORY_REGION(old, sizeof(FreeNode));
	}
}
void HeapSetGarbage(unsigned char f) { g_fill = f; }
LibScope::LibScope(): saved(g_inLib) { g_inLib = 1; }
LibScope::~LibScope() { g_inLib = saved; }
HarnessScope::HarnessScope(): saved(g_inLib) { g_inLib = 0; }
HarnessScope::~HarnessScope() { g_inLib = saved; }
void HeapFailArm(uint64_t nth, bool persistent) { g_failAt = nth; g_failPersistent = persistent; g_failed = 0; }
void HeapFailDisarm() { g_failAt = 0; }
uint64_t HeapFailed() { return g_failed; }
uint64_t HeapLibAllocs() { return g_libAllocs; }
uint64_t HeapLiveLib() { return g_liveLib; }
uint64_t HeapLiveLibBytes() { return g_liveLibBytes; }
uint64_t HeapSeq() { return g_seq; }
size_t HeapBlockSize(const void* p) {
	if (!InArena(p)) return 0;
	const Hdr* h = (const Hdr*) p - 1;
	ASAN_UNPOISON_MEMORY_REGION(h, sizeof(Hdr));
	size_t r = h->magic == MagicLive ? h->size : 0;
	ASAN_POISON_MEMORY_REGION(h, sizeof(Hdr));
	return r;
}

// ================================================================= properties
static std::vector<Property*>& Props() { static std::vector<Property*> v; return v; }
Property::Property(const char* i, RunFn r, RunFn w): id(i), run(r), warm(w) { Props().push_back(this); }

// ================================================================= driver
static uint64_t WallMs() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000ull + t.tv_nsec / 1000000; }
static uint64_t RunSeed(uint64_t seed, const char* id, uint64_t index) {
	return Mix(Mix(HashStr(id), seed * 0x9E3779B97F4A7C15ull + 1), index);
}
static Property* g_prop;
#ifdef SIM_ASAN
extern "C" void __asan_on_error();
extern "C" void __asan_on_error() {
	if (g_shm && g_shm->status == Running) {
		const char* d = __asan_get_report_description();
		snprintf(g_shm->cls, sizeof(g_shm->cls), "memory-error");
		snprintf(g_shm->msg, sizeof(g_shm->msg), "memory error (%s) at a %s of %zu bytes", d ? d : "?", __asan_get_report_access_type() ? "write" : "read", __asan_get_report_access_size());
	}
}
extern "C" const char* __asan_default_options() {
	return "detect_leaks=0:abort_on_error=0:exitcode=99:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:"
	       "detect_stack_use_after_return=0:allocator_may_return_null=1:symbolize=0:print_legend=0:print_summary=0:detect_odr_violation=0:"
	       "check_initialization_order=0:allow_user_poisoning=1:strict_init_order=0";
}
#endif

static unsigned g_cpuLimitSec = 60;

// A run has a thread of its own with a fresh stack at a fixed address, so that even code which reads
// stale stack memory behaves the same in the search, in the minimiser and in a replay process.
static char* const StackBase = (char*) 0x380000000000ull;
static const size_t StackSize = 64u << 20;
static void* RunBody(void*) {
	g_driver = false;
	try {
		g_prop->run();
	} catch (const std::exception& e) {
		g_inLib = 0;
		Fail("unexpected-exception", "exception escaped: %s", e.what());
	} catch (...) {
		g_inLib = 0;
		Fail("unexpected-exception", "unknown exception escaped");
	}
	Finish(Ok);
}
static void RunOnOwnStack() {
	void* p = mmap(StackBase, StackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	pthread_attr_t a; pthread_t t;
	if (p != StackBase || pthread_attr_init(&a) || pthread_attr_setstack(&a, StackBase, StackSize) || pthread_create(&t, &a, RunBody, nullptr)) _exit(70);
	for (;;) pause();
}

// Runs one simulated execution in a child process. The parent's memory is never changed by it.
static void RunChild(uint64_t seed, const std::vector<uint32_t>* replay, bool verbose) {
	Shm* s = g_shm;
	s->seed = seed; s->status = Running; s->tapeLen = 0; s->draws = 0; s->logHash = 0xcbf29ce484222325ull;
	s->logLines = 0; s->simTime = 0; s->coverLen = 0; s->logLen = 0; s->cls[0] = 0; s->msg[0] = 0; s->verbose = verbose;
	s->replaying = replay != nullptr;
	s->replayLen = 0;
	if (replay) {
		s->replayLen = std::min(replay->size(), MaxTape);
		memcpy(s->replay, replay->data(), s->replayLen * sizeof(uint32_t));
	}
	fflush(stdout);
	fflush(nullptr);                             // nothing of ours may be written again by a run that ends with exit()
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); _exit(70); }
	if (pid == 0) {
		g_rng = seed; g_now = 0; g_arenaRunStart = g_arenaTop; g_libAllocs = 0;
		rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
		itimerval tv; memset(&tv, 0, sizeof(tv)); tv.it_value.tv_sec = g_cpuLimitSec;
		setitimer(ITIMER_VIRTUAL, &tv, nullptr);   // CPU time, not wall time: a loaded machine raises no alarm
		if (!getenv("SIM_STDERR")) { int nul = open("/dev/null", O_WRONLY); if (nul >= 0) dup2(nul, 2); }
		RunOnOwnStack();
	}
	int st = 0; rusage ru;
	while (wait4(pid, &st, 0, &ru) < 0 && errno == EINTR) {}
	s->cpuMs = ru.ru_utime.tv_sec * 1000 + ru.ru_utime.tv_usec / 1000;
	if (s->status == Running) {
		s->status = Violation;
		if (WIFSIGNALED(st)) {
			int sig = WTERMSIG(st);
			if (sig == SIGVTALRM) {
				snprintf(s->cls, sizeof(s->cls), "no-progress");
				snprintf(s->msg, sizeof(s->msg), "the run was still busy after %u s of CPU time", g_cpuLimitSec);
			} else if (sig == SIGKILL) {
				s->status = InternalError;
				snprintf(s->msg, sizeof(s->msg), "run killed from outside");
			} else {
				snprintf(s->cls, sizeof(s->cls), "crash-%s", sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : "signal");
				snprintf(s->msg, sizeof(s->msg), "the process died of signal %d", sig);
			}
		} else if (!s->cls[0]) {
			s->status = InternalError;
			snprintf(s->msg, sizeof(s->msg), "run ended with exit code %d and no verdict", WEXITSTATUS(st));
		}
	}
}

static std::string JsonStr(const std::string& s) {
	std::string r = "\"";
	char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n";
		else if (c < 32 || c >= 127) { snprintf(b, sizeof(b), "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}

struct Outcome { uint32_t status; std::string cls, msg; uint64_t hash; std::vector<uint32_t> tape; std::string log; };
static Outcome Take() {
	Outcome o; o.status = g_shm->status; o.cls = g_shm->cls; o.msg = g_shm->msg; o.hash = g_shm->logHash;
	o.tape.assign(g_shm->tape, g_shm->tape + g_shm->tapeLen);
	o.log.assign(g_shm->log, g_shm->logLen);
	return o;
}
static Outcome Replay(const std::vector<uint32_t>& tape, bool verbose) { RunChild(0, &tape, verbose); return Take(); }

// Shortlex shrinking of the choice tape: fewer choices first, then smaller values.
static std::vector<uint32_t> Minimise(std::vector<uint32_t> best, const std::string& cls, uint64_t msBudget, uint64_t& evals) {
	uint64_t deadline = WallMs() + msBudget;
	auto trimmed = [](std::vector<uint32_t> t) { while (!t.empty() && t.back() == 0) t.pop_back(); return t; };
	best = trimmed(best);
	auto test = [&](const std::vector<uint32_t>& cand) -> bool {
		++evals;
		Outcome o = Replay(cand, false);
		if (o.status != Violation || o.cls != cls) return false;
		std::vector<uint32_t> t = trimmed(o.tape);
		if (t.size() < best.size() || (t.size() == best.size() && t < best)) { best = t; return true; }
		return false;
	};
	bool progress = true;
	while (progress && WallMs() < deadline) {
		progress = false;
		for (size_t block = std::max<size_t>(1, best.size() / 2); block >= 1; block /= 2) {
			for (size_t i = 0; i + block <= best.size() && WallMs() < deadline; ) {
				std::vector<uint32_t> c(best.begin(), best.begin() + i);
				c.insert(c.end(), best.begin() + i + block, best.end());
				if (test(c)) progress = true; else i += std::max<size_t>(1, block / 2 + block % 2);
			}
			if (block == 1) break;
		}
		for (size_t block = 8; block >= 1; block /= 2) {
			for (size_t i = 0; i + block <= best.size() && WallMs() < deadline; i += block) {
				std::vector<uint32_t> c = best; bool any = false;
				for (size_t k = i; k < i + block; ++k) if (c[k]) { c[k] = 0; any = true; }
				if (any && test(c)) progress = true;
			}
			if (block == 1) break;
		}
		for (size_t i = 0; i < best.size() && WallMs() < deadline; ++i) {
			if (!best[i]) continue;
			uint32_t lo = 0, hi = best[i];
			while (lo < hi && WallMs() < deadline && i < best.size()) {
				uint32_t mid = lo + (hi - lo) / 2;
				std::vector<uint32_t> c = best; c[i] = mid;
				if (test(c)) { progress = true; hi = mid; if (i >= best.size()) break; hi = std::min(hi, best[i]); } else lo = mid + 1;
			}
		}
	}
	return best;
}

static void WriteReplay(const char* path, const char* prop, uint64_t seed, uint64_t index, const Outcome& first, const Outcome& min, uint64_t evals) {
	FILE* f = fopen(path, "w");
	if (!f) { perror(path); _exit(70); }
	fprintf(f, "{\n \"format\": \"pire-sim-replay-1\",\n \"property\": %s,\n \"verif_seed\": %llu,\n \"run_index\": %llu,\n \"run_seed\": \"0x%016llx\",\n",
		JsonStr(prop).c_str(), (unsigned long long) seed, (unsigned long long) index, (unsigned long long) RunSeed(seed, prop, index));
	fprintf(f, " \"class\": %s,\n \"message\": %s,\n \"first_message\": %s,\n \"first_choices\": %zu,\n \"minimise_evaluations\": %llu,\n \"log_hash\": \"0x%016llx\",\n",
		JsonStr(min.cls).c_str(), JsonStr(min.msg).c_str(), JsonStr(first.msg).c_str(), first.tape.size(), (unsigned long long) evals, (unsigned long long) min.hash);
	fprintf(f, " \"tape\": [");
	for (size_t i = 0; i < min.tape.size(); ++i) fprintf(f, "%s%u", i ? "," : "", min.tape[i]);
	fprintf(f, "],\n \"trace\": [\n");
	size_t pos = 0; bool firstLine = true; size_t lines = 0;
	while (pos < min.log.size() && lines < 4000) {
		size_t e = min.log.find('\n', pos); if (e == std::string::npos) e = min.log.size();
		fprintf(f, "%s  %s", firstLine ? "" : ",\n", JsonStr(min.log.substr(pos, e - pos)).c_str());
		firstLine = false; pos = e + 1; ++lines;
	}
	fprintf(f, "\n ]\n}\n");
	fclose(f);
}

static std::vector<uint32_t> ReadTape(const char* path, std::string& cls, std::string& hash, std::string& prop) {
	FILE* f = fopen(path, "r");
	if (!f) { perror(path); _exit(70); }
	std::string all; char buf[65536]; size_t n;
	while ((n = fread(buf, 1, sizeof(buf), f)) > 0) all.append(buf, n);
	fclose(f);
	auto str = [&](const char* key) {
		std::string k = std::string("\"") + key + "\": \"";
		size_t p = all.find(k); if (p == std::string::npos) return std::string();
		p += k.size(); return all.substr(p, all.find('"', p) - p);
	};
	cls = str("class"); hash = str("log_hash"); prop = str("property");
	std::vector<uint32_t> t;
	size_t p = all.find("\"tape\": [");
	if (p == std::string::npos) { fprintf(stderr, "no tape in %s\n", path); _exit(70); }
	p += 9;
	while (p < all.size() && all[p] != ']') {
		if (all[p] == ',') { ++p; continue; }
		t.push_back(strtoul(all.c_str() + p, nullptr, 10));
		while (p < all.size() && all[p] != ',' && all[p] != ']') ++p;
	}
	return t;
}

// ---- worker results travel through a shared block
static const size_t MaxSig = 1 << 19;
struct WorkerOut {
	uint64_t runs, okRuns, discarded, draws, simTime, logLines, maxCpuMs, maxTape, cpuMs;
	uint64_t detChecked, detMismatch;
	uint32_t found; uint64_t foundIndex; char cls[96]; char msg[4096];
	uint32_t internalError; char ierr[512]; uint64_t ierrIndex;
	uint64_t sigLen, coverLen;
	struct { char name[56]; uint64_t n; } counters[MaxCounters];
	uint64_t sig[MaxSig];
	uint64_t cov[MaxSig];
	char sample[3][6000];
};

static int Search(uint64_t seed, unsigned timeSec, unsigned workers, uint64_t maxRuns, const char* out, const char* replayPath, uint64_t firstIndex) {
	std::vector<WorkerOut*> wo(workers);
	uint64_t t0 = WallMs();
	std::vector<pid_t> pids;
	for (unsigned w = 0; w < workers; ++w) {
		wo[w] = (WorkerOut*) mmap(nullptr, sizeof(WorkerOut), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		fflush(nullptr);
		pid_t pid = fork();
		if (pid == 0) {
			g_shm = (Shm*) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			memset(g_shm, 0, offsetof(Shm, tape));
			WorkerOut* o = wo[w];
			std::unordered_set<uint64_t> sigs, covs;
			uint64_t deadline = t0 + timeSec * 1000ull;
			for (uint64_t i = firstIndex + w; WallMs() < deadline && (!maxRuns || i < firstIndex + maxRuns); i += workers) {
				uint64_t rs = RunSeed(seed, g_prop->id, i);
				bool sample = o->runs < 3 && w == 0;
				RunChild(rs, nullptr, sample);
				Shm* s = g_shm;
				++o->runs; o->draws += s->draws; o->simTime += s->simTime; o->logLines += s->logLines; o->cpuMs += s->cpuMs;
				o->maxCpuMs = std::max(o->maxCpuMs, s->cpuMs); o->maxTape = std::max<uint64_t>(o->maxTape, s->tapeLen);
				if (sample) { size_t n = std::min<size_t>(s->logLen, sizeof(o->sample[0]) - 1); memcpy(o->sample[o->runs - 1], s->log, n); }
				if (s->status == Discarded) { ++o->discarded; continue; }
				if (s->status == InternalError) { o->internalError = 1; o->ierrIndex = i; snprintf(o->ierr, sizeof(o->ierr), "%s", s->msg); break; }
				if (s->status == Violation) {
					o->found = 1; o->foundIndex = i;
					memcpy(o->cls, s->cls, sizeof(o->cls)); memcpy(o->msg, s->msg, sizeof(o->msg));
					break;
				}
				++o->okRuns;
				if (sigs.insert(s->logHash).second && o->sigLen < MaxSig) o->sig[o->sigLen++] = s->logHash;
				for (size_t k = 0; k < s->coverLen; ++k)
					if (covs.insert(s->cover[k]).second && o->coverLen < MaxSig) o->cov[o->coverLen++] = s->cover[k];
				if (o->runs % 64 == 1) {  // the same seed must give the same execution
					uint64_t h = s->logHash; 
					RunChild(rs, nullptr, false);
					++o->detChecked;
					if (g_shm->logHash != h) { ++o->detMismatch; snprintf(o->ierr, sizeof(o->ierr), "run %llu is not repeatable", (unsigned long long) i); }
				}
			}
			for (size_t k = 0; k < MaxCounters; ++k) { memcpy(o->counters[k].name, g_shm->counters[k].name, 56); o->counters[k].n = g_shm->counters[k].n; }
			_exit(0);
		}
		pids.push_back(pid);
	}
	for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "worker died: %d\n", st); return 70; } }
	uint64_t searchMs = WallMs() - t0;
	g_shm = (Shm*) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	memset(g_shm, 0, offsetof(Shm, tape));
	uint64_t runs = 0, ok = 0, disc = 0, draws = 0, simt = 0, lines = 0, maxCpu = 0, maxTape = 0, detc = 0, detm = 0, cpu = 0;
	std::unordered_set<uint64_t> sigs, covs; std::map<std::string, uint64_t> counters;
	int best = -1; std::string ierr;
	for (unsigned w = 0; w < workers; ++w) {
		WorkerOut* o = wo[w];
		runs += o->runs; ok += o->okRuns; disc += o->discarded; draws += o->draws; simt += o->simTime; lines += o->logLines; cpu += o->cpuMs;
		maxCpu = std::max(maxCpu, o->maxCpuMs); maxTape = std::max(maxTape, o->maxTape); detc += o->detChecked; detm += o->detMismatch;
		for (size_t k = 0; k < o->sigLen; ++k) sigs.insert(o->sig[k]);
		for (size_t k = 0; k < o->coverLen; ++k) covs.insert(o->cov[k]);
		for (size_t k = 0; k < MaxCounters && o->counters[k].name[0]; ++k) counters[o->counters[k].name] += o->counters[k].n;
		if (o->found && (best < 0 || o->foundIndex < wo[best]->foundIndex)) best = w;
		if (o->ierr[0]) ierr = o->ierr;
	}
	FILE* f = fopen(out, "w");
	if (!f) { perror(out); return 70; }
	fprintf(f, "{\n \"runs\": %llu, \"ok_runs\": %llu, \"discarded\": %llu, \"choices\": %llu, \"sim_time_us\": %llu, \"events\": %llu,\n"
		" \"max_run_cpu_ms\": %llu, \"total_run_cpu_ms\": %llu, \"max_choices\": %llu, \"search_ms\": %llu, \"distinct_executions\": %zu, \"distinct_states\": %zu,\n"
		" \"determinism_checked\": %llu, \"determinism_mismatch\": %llu,\n",
		(unsigned long long) runs, (unsigned long long) ok, (unsigned long long) disc, (unsigned long long) draws, (unsigned long long) simt, (unsigned long long) lines,
		(unsigned long long) maxCpu, (unsigned long long) cpu, (unsigned long long) maxTape, (unsigned long long) searchMs, sigs.size(), covs.size(), (unsigned long long) detc, (unsigned long long) detm);
	fprintf(f, " \"counters\": {");
	bool first = true;
	for (auto& c : counters) { fprintf(f, "%s%s: %llu", first ? "" : ", ", JsonStr(c.first).c_str(), (unsigned long long) c.second); first = false; }
	fprintf(f, "},\n \"samples\": [");
	for (int k = 0; k < 3; ++k) fprintf(f, "%s%s", k ? ", " : "", JsonStr(wo[0]->sample[k]).c_str());
	fprintf(f, "],\n \"internal_error\": %s", JsonStr(ierr).c_str());
	int rc = 0;
	if (best >= 0) {
		uint64_t idx = wo[best]->foundIndex, rs = RunSeed(seed, g_prop->id, idx);
		// gate 1: the same seed twice, identical
		RunChild(rs, nullptr, true); Outcome a = Take();
		RunChild(rs, nullptr, true); Outcome b = Take();
		bool same = a.status == Violation && b.status == Violation && a.hash == b.hash && a.cls == b.cls && a.tape == b.tape;
		bool both = a.status == Violation && b.status == Violation;   // undefined behaviour may leave different traces
		fprintf(f, ",\n \"violation\": {\"index\": %llu, \"class\": %s, \"message\": %s, \"repeatable\": %s",
			(unsigned long long) idx, JsonStr(wo[best]->cls).c_str(), JsonStr(wo[best]->msg).c_str(), same ? "true" : "false");
		if (!both) {
			fprintf(stderr, "NOT REPEATABLE: run %llu: first %u/%s/%016llx second %u/%s/%016llx\n", (unsigned long long) idx, a.status, a.cls.c_str(), (unsigned long long) a.hash, b.status, b.cls.c_str(), (unsigned long long) b.hash);
			rc = 71;
		} else {
			uint64_t evals = 0;
			std::vector<uint32_t> tape = a.tape;
			WriteReplay((std::string(replayPath) + ".full").c_str(), g_prop->id, seed, idx, a, a, 0);
			if (same && a.cls != "no-progress" && a.cls != "runaway-allocation") tape = Minimise(a.tape, a.cls, 20000, evals);
			Outcome m = Replay(tape, true);
			if (m.status != Violation || m.cls != a.cls) { tape = a.tape; m = Replay(tape, true); }
			m.tape = tape;
			WriteReplay(replayPath, g_prop->id, seed, idx, a, m, evals);
			fprintf(f, ", \"min_class\": %s, \"min_message\": %s, \"replay\": %s, \"min_choices\": %zu, \"first_choices\": %zu",
				JsonStr(m.cls).c_str(), JsonStr(m.msg).c_str(), JsonStr(replayPath).c_str(), tape.size(), a.tape.size());
			rc = 1;
		}
		fprintf(f, "}");
	}
	fprintf(f, "\n}\n");
	fclose(f);
	if (!rc && !ierr.empty()) { fprintf(stderr, "internal error: %s\n", ierr.c_str()); rc = 72; }
	return rc;
}

} // namespace sim

// ================================================================= allocation entry points
using namespace sim;
static void* NewImpl(size_t n) {
	bool inj; void* p = HeapAlloc(n, inj);
	if (!p) throw std::bad_alloc();
	return p;
}
void* operator new(size_t n) { return NewImpl(n); }
void* operator new[](size_t n) { return NewImpl(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { bool i; return HeapAlloc(n, i); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { bool i; return HeapAlloc(n, i); }
void operator delete(void* p) noexcept { HeapFree(p); }
void operator delete[](void* p) noexcept { HeapFree(p); }
void operator delete(void* p, size_t) noexcept { HeapFree(p); }
void operator delete[](void* p, size_t) noexcept { HeapFree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { HeapFree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { HeapFree(p); }

extern "C" void* __wrap_malloc(size_t n) { bool i; void* p = HeapAlloc(n ? n : 1, i); if (!p) errno = ENOMEM; return p; }
extern "C" void __wrap_free(void* p) { if (InArena(p)) HeapFree(p); else __real_free(p); }
extern "C" void* __wrap_calloc(size_t a, size_t b) { bool i; void* p = HeapAlloc(a * b ? a * b : 1, i); if (p) memset(p, 0, a * b); return p; }
extern "C" void* __wrap_realloc(void* q, size_t n) {
	if (q ? !InArena(q) : g_driver) return __real_realloc(q, n);
	bool i; void* p = HeapAlloc(n ? n : 1, i);
	if (p && q) { size_t o = ((Hdr*) q - 1)->size; memcpy(p, q, o < n ? o : n); HeapFree(q); }
	return p;
}

int main(int argc, char** argv) {
	// fixed address-space layout, so that even address-dependent behaviour replays
	int per = personality(0xffffffff);
	if (per >= 0 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
		if (personality(per | ADDR_NO_RANDOMIZE) >= 0) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
	}
	signal(SIGPIPE, SIG_IGN);
	std::string mode = argc > 1 ? argv[1] : "";
	std::map<std::string, std::string> opt;
	for (int i = 2; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
	auto num = [&](const char* k, uint64_t d) { return opt.count(k) ? strtoull(opt[k].c_str(), nullptr, 0) : d; };
	std::string id = opt["--prop"];
	std::string cls, hash, rprop; std::vector<uint32_t> tape;
	if (mode == "replay") { tape = ReadTape(opt["--file"].c_str(), cls, hash, rprop); if (id.empty()) id = rprop; }
	for (Property* p : Props()) if (id == p->id) g_prop = p;
	if (!g_prop) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 70; }
	g_cpuLimitSec = num("--cpu", 60);
	g_shm = (Shm*) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	g_driver = false;
	if (g_prop->warm) g_prop->warm();
	g_driver = true;
	if (mode == "search")
		return Search(num("--seed", 1), num("--time", 20), num("--workers", 8), num("--runs", 0), opt["--out"].c_str(), opt["--replay"].c_str(), num("--first", 0));
	if (mode == "one") {
		RunChild(RunSeed(num("--seed", 1), g_prop->id, num("--index", 0)), nullptr, true);
		Outcome o = Take();
		fwrite(o.log.data(), 1, o.log.size(), stdout);
		printf("status %u class %s msg %s hash %016llx choices %zu cpu %llu ms\n", o.status, o.cls.c_str(), o.msg.c_str(), (unsigned long long) o.hash, o.tape.size(), (unsigned long long) g_shm->cpuMs);
		return o.status == Violation ? 1 : 0;
	}
	if (mode == "replay") {
		Outcome o = Replay(tape, true);
		fwrite(o.log.data(), 1, o.log.size(), stdout);
		char h[32]; snprintf(h, sizeof(h), "0x%016llx", (unsigned long long) o.hash);
		bool same = o.status == Violation && o.cls == cls && hash == h;
		printf("replay: status %u class %s hash %s: %s\n", o.status, o.cls.c_str(), h, same ? "reproduced exactly" : o.status == Violation ? "violated, with a different trace" : "NOT reproduced");
		return same ? 1 : o.status == Violation ? 2 : 0;
	}
	fprintf(stderr, "usage: simpire search|one|replay --prop ID ...\n");
	return 70;
}
