#include "sched.hpp"
#include "core.hpp"
#include "heap.hpp"

#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

extern "C" {
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
long __real_syscall(long, ...);
extern char __data_start, _end;
}

namespace sim::sched {

static constexpr int MAXT = 40; // threads
static constexpr int RT = 8;    // threads the race detector follows

struct VC {
	uint32_t c[RT];
	void join(const VC& o) {
		for (int i = 0; i < RT; ++i) {
			c[i] = c[i] > o.c[i] ? c[i] : o.c[i];
		}
	}
};

enum State { UNUSED, RUNNABLE, BLOCKED, DONE };

struct Thread {
	int tid;
	State state;
	bool joined = false;
	bool daemon; // made by the library
	bool timed;  // blocked with a timeout
	bool timedOut;
	uintptr_t waitOn;
	int go;
	VC vc;
	VC relFence, acqPending;
	std::function<void()> body;
	void* (*entry)(void*);
	void* arg;
	void* ret;
	pthread_t handle;
	bool detached;
	uint64_t quantum;
};

static Thread threads[MAXT];
static int nThreads = 0;
static bool active = false;
static Options opt;
static Stats st;
static uint64_t gap = ~0ull;
static __thread Thread* me = nullptr;
static __thread int busy = 0;

// ---- shadow memory ---------------------------------------------------------------------------
struct Cell {
	uint32_t wClk;
	uint8_t wTid, wMask, wAtomic, rAtomic;
	uint32_t rClk[RT];
	uint8_t rMask[RT];
	uint32_t wPc, rPc;
	uint32_t pad[2];
};
static_assert(sizeof(Cell) == 64);
struct Region {
	uintptr_t lo, hi;
	Cell* cells;
};
static Region regions[3];

static Cell* mapShadow(size_t bytes) {
	void* p = mmap(nullptr, bytes * 8 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) {
		error("shadow memory");
	}
	return static_cast<Cell*>(p);
}

static inline Cell* cellOf(uintptr_t a, int& region) {
	for (int i = 0; i < 3; ++i) {
		if (a - regions[i].lo < regions[i].hi - regions[i].lo) {
			region = i;
			return regions[i].cells + ((a - (regions[i].lo & ~uintptr_t(7))) >> 3);
		}
	}
	return nullptr;
}

static std::string describePc(uintptr_t pc) {
	Dl_info info;
	if (dladdr(reinterpret_cast<void*>(pc), &info) && info.dli_sname) {
		int status = 0;
		char* d = abi::__cxa_demangle(info.dli_sname, nullptr, nullptr, &status);
		std::string s = d ? d : info.dli_sname;
		free(d);
		return s.size() > 160 ? s.substr(0, 160) + "..." : s;
	}
	char b[32];
	snprintf(b, sizeof b, "%#lx", (unsigned long)pc);
	return b;
}

[[noreturn]] static void reportRace(uintptr_t a, size_t size, bool write, uintptr_t pc, int other, bool otherWrite, uintptr_t otherPc) {
	++busy;
	heap::disarmFault(); // the report itself needs memory
	std::string where;
	Dl_info info;
	if (heap::owns(reinterpret_cast<void*>(a))) {
		uintptr_t base;
		size_t n;
		int owner;
		if (heap::blockAt(reinterpret_cast<void*>(a), base, n, owner)) {
			where = "byte " + std::to_string(a - base) + " of a heap block of " + std::to_string(n) + " bytes";
		}
		else {
			where = "released heap memory";
		}
	}
	else if (dladdr(reinterpret_cast<void*>(a), &info) && info.dli_sname) {
		where = describePc(a);
	}
	else {
		where = a >= 0x200000000000ull ? "a caller's buffer" : "a global object";
	}
	fail("race", "%s of %zu bytes by thread %d in [%s] is not ordered after the %s by thread %d in [%s]: %s", write ? "write" : "read", size, me->tid, describePc(pc).c_str(),
		 otherWrite ? "write" : "read", other, describePc(otherPc).c_str(), where.c_str());
}

// ---- switching -------------------------------------------------------------------------------
static long futex(int* p, int op, int v) {
	long r;
	register long r10 asm("r10") = 0;
	register long r8 asm("r8") = 0;
	register long r9 asm("r9") = 0;
	asm volatile("syscall" : "=a"(r) : "a"(SYS_futex), "D"(p), "S"(op), "d"(v), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return r;
}
static void wake(Thread* t) {
	__atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST);
	futex(&t->go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, INT_MAX);
}
static void sleepUntilGo(Thread* t) {
	while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST)) {
		futex(&t->go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0);
	}
	__atomic_store_n(&t->go, 0, __ATOMIC_SEQ_CST);
}

static void newGap() {
	if (st.switches >= opt.maxSwitches) {
		gap = ~0ull;
		return;
	}
	const uint32_t v = draw(4096, "sched.gap");
	gap = v == 0 ? ~0ull : 1 + mix(v) % (1ull << (v % (opt.maxExp + 1)));
}

// Chooses who runs next; `me` keeps running if chosen. forced: the current thread cannot or should not continue.
static void reschedule(bool forced, const char* why) {
	++busy;
	Thread* self = me;
	Thread* cand[MAXT];
	int n = 0;
	// Current first, then the others in order after it: choice 0 is "no preemption".
	for (int pass = 0; pass < 2; ++pass) {
		for (int k = 0; k < nThreads; ++k) {
			Thread* t = &threads[(self->tid + k) % nThreads];
			if (t->state == RUNNABLE && !(forced && t == self)) {
				cand[n++] = t;
			}
		}
		if (n || !forced) {
			break;
		}
		if (self->state == RUNNABLE) {
			cand[n++] = self;
			break;
		}
		// Nobody can run: let time pass for those that wait with a timeout.
		for (int k = 0; k < nThreads; ++k) {
			if (threads[k].state == BLOCKED && threads[k].timed) {
				threads[k].state = RUNNABLE;
				threads[k].timedOut = true;
			}
		}
	}
	if (n == 0) {
		// Main waits for the workers (tid 0); it is woken when they have all finished.
		std::string s;
		for (int k = 1; k < nThreads; ++k) {
			if (threads[k].state == BLOCKED) {
				s += " thread " + std::to_string(k);
			}
		}
		fail("deadlock", "no thread can run:%s wait for each other", s.c_str());
	}
	Thread* next = cand[n > 1 ? draw(n, "sched.thread") : 0];
	newGap();
	if (next != self) {
		++st.switches;
		if (!forced) {
			++st.preemptions;
		}
		st.signature = mix(st.signature, uint64_t(next->tid) * 0x10001 + st.points * 31);
		ev(uint64_t(next->tid) << 32 ^ st.points);
		if (shm->tracing) {
			trace("switch thread %d -> %d at point %llu (%s)", self->tid, next->tid, (unsigned long long)st.points, why);
		}
		self->quantum = 0;
		wake(next);
		if (self->state != DONE) {
			sleepUntilGo(self);
		}
	}
	--busy;
}

static inline void point(bool interesting, const char* why) {
	++st.points;
	st.interesting += interesting;
	if (interesting || opt.everyAccess) {
		if (--gap == 0) {
			reschedule(false, why);
			return;
		}
	}
	if (++me->quantum > 30000000) {
		// A thread that spins for ever lets the others in.
		me->quantum = 0;
		reschedule(true, "quantum");
	}
}

static inline bool managed() { return active && me != nullptr && busy == 0; }
static inline bool watched() { return active && me != nullptr && busy == 0 && heap::t_scope > 0; }

static inline void release(VC& into) {
	into.join(me->vc);
	if (me->tid < RT) {
		me->vc.c[me->tid]++;
	}
}
static inline void acquire(const VC& from) { me->vc.join(from); }

static void access(uintptr_t a, size_t size, bool write, bool atomic, uintptr_t pc) {
	if (!watched()) {
		return;
	}
	int region = 0;
	Cell* c = cellOf(a, region);
	if (!c) {
		point(atomic, "access");
		return;
	}
	bool interesting = atomic || region == 2;
	if (opt.races && me->tid < RT) {
		++st.checked;
		const int t = me->tid;
		const uint32_t clk = me->vc.c[t];
		uintptr_t p = a;
		const uintptr_t end = a + size;
		while (p < end) {
			const unsigned off = unsigned(p & 7);
			const unsigned len = unsigned(end - p < 8 - off ? end - p : 8 - off);
			const uint8_t mask = uint8_t(((1u << len) - 1) << off);
			if (write) {
				if (!(c->wTid == t && c->wClk == clk && (mask & ~c->wMask) == 0 && !atomic && !c->wAtomic)) {
					if (c->wClk && c->wTid != t) {
						interesting = true;
						if ((c->wMask & mask) && me->vc.c[c->wTid] < c->wClk && !(atomic && c->wAtomic)) {
							reportRace(a, size, true, pc, c->wTid, true, c->wPc);
						}
					}
					for (int o = 0; o < RT; ++o) {
						if (o != t && c->rClk[o]) {
							interesting = true;
							if ((c->rMask[o] & mask) && me->vc.c[o] < c->rClk[o] && !(atomic && (c->rAtomic >> o & 1))) {
								reportRace(a, size, true, pc, o, false, c->rPc);
							}
						}
					}
					if (c->wTid == t && c->wClk == clk && c->wAtomic == atomic) {
						c->wMask |= mask;
					}
					else {
						c->wTid = uint8_t(t);
						c->wClk = clk;
						c->wMask = mask;
						c->wAtomic = atomic;
					}
					c->wPc = uint32_t(pc);
				}
			}
			else {
				if (c->wClk && c->wTid != t) {
					interesting |= c->rClk[t] != clk;
					if ((c->wMask & mask) && me->vc.c[c->wTid] < c->wClk && !(atomic && c->wAtomic)) {
						reportRace(a, size, false, pc, c->wTid, true, c->wPc);
					}
				}
				if (c->rClk[t] == clk && bool(c->rAtomic >> t & 1) == atomic) {
					c->rMask[t] |= mask;
				}
				else {
					c->rClk[t] = clk;
					c->rMask[t] = mask;
					c->rAtomic = uint8_t((c->rAtomic & ~(1u << t)) | (unsigned(atomic) << t));
				}
				c->rPc = uint32_t(pc);
			}
			p += len;
			++c;
		}
	}
	point(interesting, "access");
}

// ---- synchronisation objects -----------------------------------------------------------------
struct Sync {
	uintptr_t addr;
	VC vc;
	int owner;   // mutex / rwlock writer / once / guard runner
	int readers; // rwlock
	int depth;
	int value; // once: 0,1,2; semaphore count
	uint64_t readerSet;
};
static constexpr size_t NSYNC = 1 << 14;
static Sync syncs[NSYNC];
static size_t nSyncs = 0;

static Sync* syncOf(uintptr_t a) {
	size_t i = (a >> 2) * 0x9E3779B97F4A7C15ull >> 50;
	for (size_t k = 0; k < NSYNC; ++k, i = (i + 1) % NSYNC) {
		if (syncs[i].addr == a) {
			return &syncs[i];
		}
		if (syncs[i].addr == 0) {
			if (++nSyncs > NSYNC / 2) {
				error("too many synchronisation objects");
			}
			syncs[i] = Sync{};
			syncs[i].addr = a;
			syncs[i].owner = -1;
			return &syncs[i];
		}
	}
	error("too many synchronisation objects");
}
static void resetSync(uintptr_t a) {
	Sync* s = syncOf(a);
	*s = Sync{};
	s->addr = a;
	s->owner = -1;
}
static void resetSyncRange(uintptr_t a, size_t n) {
	if (nSyncs == 0) {
		return;
	}
	for (size_t o = 0; n <= 4096 && o < n; o += 4) {
		size_t i = ((a + o) >> 2) * 0x9E3779B97F4A7C15ull >> 50;
		for (size_t k = 0; k < NSYNC && syncs[i].addr; ++k, i = (i + 1) % NSYNC) {
			if (syncs[i].addr == a + o) {
				resetSync(a + o);
				break;
			}
		}
	}
	if (n > 4096) {
		for (size_t i = 0; i < NSYNC; ++i) {
			if (syncs[i].addr >= a && syncs[i].addr < a + n) {
				resetSync(syncs[i].addr);
			}
		}
	}
}

static void blockOn(uintptr_t a, bool timed, const char* why) {
	me->state = BLOCKED;
	me->waitOn = a;
	me->timed = timed;
	me->timedOut = false;
	++st.blocked;
	reschedule(true, why);
}
static void wakeAll(uintptr_t a) {
	for (int k = 0; k < nThreads; ++k) {
		if (threads[k].state == BLOCKED && threads[k].waitOn == a) {
			threads[k].state = RUNNABLE;
		}
	}
}
static void wakeOne(uintptr_t a) {
	int w[MAXT], n = 0;
	for (int k = 0; k < nThreads; ++k) {
		if (threads[k].state == BLOCKED && threads[k].waitOn == a) {
			w[n++] = k;
		}
	}
	if (n) {
		threads[w[n > 1 ? draw(n, "sched.wake") : 0]].state = RUNNABLE;
	}
}
static void syncPoint(const char* why) {
	++st.sync;
	point(true, why);
}

static void lockExclusive(uintptr_t a, const char* why) {
	Sync* s = syncOf(a);
	while (s->owner != -1 || s->readers) {
		blockOn(a, false, why);
	}
	s->owner = me->tid;
	acquire(s->vc);
}
static void unlockExclusive(uintptr_t a, const char* what) {
	Sync* s = syncOf(a);
	if (s->owner != me->tid) {
		fail("lock", "%s released by a thread that does not hold it", what);
	}
	release(s->vc);
	s->owner = -1;
	wakeAll(a);
}

// ---- threads ---------------------------------------------------------------------------------
static bool allWorkersDone() {
	for (int k = 1; k < nThreads; ++k) {
		if (!threads[k].daemon && threads[k].state != DONE) {
			return false;
		}
	}
	return true;
}

static int (*realCreate)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);

static void finish(Thread* t) {
	// The end of a thread releases everything it did to whoever joins it.
	++busy;
	Sync* s = syncOf(uintptr_t(t));
	s->vc.join(t->vc);
	t->state = DONE;
	wakeAll(uintptr_t(t));
	if (allWorkersDone()) {
		threads[0].state = RUNNABLE;
	}
	--busy;
	reschedule(true, "end");
}

static pthread_key_t exitKey;
static void* threadMain(void* p) {
	auto* t = static_cast<Thread*>(p);
	sleepUntilGo(t);
	me = t;
	pthread_setspecific(exitKey, t);
	if (t->entry) {
		const int saved = heap::t_scope;
		heap::t_scope = 1; // created from inside the library
		t->ret = t->entry(t->arg);
		heap::t_scope = saved;
	}
	else {
		t->body();
	}
	return t->ret;
}
// Runs after the destructors of the thread's thread_local objects.
static void exitHook(void* p) {
	finish(static_cast<Thread*>(p));
	me = nullptr;
}

static Thread* newThread() {
	if (nThreads >= MAXT) {
		error("too many simulated threads");
	}
	Thread* t = &threads[nThreads];
	t->tid = nThreads;
	t->state = RUNNABLE;
	t->joined = false;
	t->go = 0;
	t->vc = me->vc;
	if (t->tid < RT) {
		t->vc.c[t->tid] = 1;
	}
	if (me->tid < RT) {
		me->vc.c[me->tid]++;
	}
	++nThreads;
	return t;
}

static void allocHook(void* p, size_t n) {
	if (!active || !me || busy) {
		return;
	}
	int region;
	Cell* c = cellOf(uintptr_t(p), region);
	if (c && opt.races) {
		__real_memset(c, 0, ((uintptr_t(p) + n + 7) / 8 - uintptr_t(p) / 8) * sizeof(Cell));
	}
	resetSyncRange(uintptr_t(p), n);
	point(true, "allocate");
}
static void freeHook(void* p, size_t n) {
	if (!active || !me || busy || !opt.races || me->tid >= RT) {
		return;
	}
	int region;
	Cell* c = cellOf(uintptr_t(p), region);
	if (!c) {
		return;
	}
	const Cell* e = c + ((uintptr_t(p) + n + 7) / 8 - uintptr_t(p) / 8);
	const uintptr_t pc = uintptr_t(__builtin_return_address(0));
	for (; c != e; ++c) {
		if (c->wClk && c->wTid != me->tid && me->vc.c[c->wTid] < c->wClk) {
			reportRace(uintptr_t(p), n, true, pc, c->wTid, true, c->wPc);
		}
		for (int o = 0; o < RT; ++o) {
			if (o != me->tid && c->rClk[o] && me->vc.c[o] < c->rClk[o]) {
				reportRace(uintptr_t(p), n, true, pc, o, false, c->rPc);
			}
		}
	}
}
static int threadHook() { return me ? me->tid : 0; }

void begin(const Options& o) {
	opt = o;
	st = Stats{};
	if (!realCreate) {
		realCreate = reinterpret_cast<decltype(realCreate)>(dlsym(RTLD_NEXT, "pthread_create"));
	}
	if (!regions[0].lo) {
		pthread_key_create(&exitKey, exitHook);
		heap::ensure();
		regions[0] = { heap::arenaBase, heap::arenaEnd, mapShadow(heap::arenaEnd - heap::arenaBase) };
		regions[1] = { 0x200000000000ull, 0x200000000000ull + (size_t(4) << 30), mapShadow(size_t(4) << 30) };
		const uintptr_t lo = uintptr_t(&__data_start) & ~uintptr_t(7);
		regions[2] = { lo, uintptr_t(&_end), mapShadow(uintptr_t(&_end) - lo) };
	}
	nThreads = 1;
	threads[0].tid = 0;
	threads[0].vc = VC{};
	threads[0].vc.c[0] = 1;
	threads[0].state = BLOCKED; // waits for the workers
	threads[0].waitOn = 0;
	threads[0].timed = false;
	threads[0].go = 0;
	me = &threads[0];
	heap::onAlloc = allocHook;
	heap::onFree = freeHook;
	heap::currentThread = threadHook;
	gap = ~0ull;
}

void spawn(std::function<void()> body) {
	Thread* t = newThread();
	t->daemon = false;
	t->entry = nullptr;
	t->body = std::move(body);
	if (realCreate(&t->handle, nullptr, threadMain, t) != 0) {
		error("pthread_create");
	}
}

void run() {
	active = true;
	reschedule(true, "start");
	active = false;
	for (int k = 1; k < nThreads; ++k) {
		if (!threads[k].daemon) {
			auto join = reinterpret_cast<int (*)(pthread_t, void**)>(dlsym(RTLD_NEXT, "pthread_join"));
			join(threads[k].handle, nullptr);
			threads[0].vc.join(threads[k].vc);
		}
	}
}

Stats end() {
	heap::onAlloc = nullptr;
	heap::onFree = nullptr;
	heap::currentThread = nullptr;
	me = nullptr;
	for (int k = 1; k < nThreads; ++k) {
		threads[k].body = nullptr;
	}
	return st;
}

template <class F> static F next(const char* name, F& cache) {
	if (!cache) {
		cache = reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
	}
	return cache;
}
#define REAL(name, ...) \
	static decltype(&::name) cache_##name = nullptr; \
	return next(#name, cache_##name)(__VA_ARGS__)

} // namespace sim::sched

using namespace sim;
using namespace sim::sched;

// ---- instrumentation entry points ------------------------------------------------------------
#define PC uintptr_t(__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
	void __tsan_read##n(void* p) { access(uintptr_t(p), n, false, false, PC); } \
	void __tsan_write##n(void* p) { access(uintptr_t(p), n, true, false, PC); } \
	void __tsan_unaligned_read##n(void* p) { access(uintptr_t(p), n, false, false, PC); } \
	void __tsan_unaligned_write##n(void* p) { access(uintptr_t(p), n, true, false, PC); } \
	void __tsan_volatile_read##n(void* p) { access(uintptr_t(p), n, false, true, PC); } \
	void __tsan_volatile_write##n(void* p) { access(uintptr_t(p), n, true, true, PC); } \
	void __tsan_unaligned_volatile_read##n(void* p) { access(uintptr_t(p), n, false, true, PC); } \
	void __tsan_unaligned_volatile_write##n(void* p) { access(uintptr_t(p), n, true, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(uintptr_t(p), n, false, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(uintptr_t(p), n, true, false, PC); }
void __tsan_vptr_update(void** p, void*) { access(uintptr_t(p), 8, true, false, PC); }
void __tsan_vptr_read(void** p) { access(uintptr_t(p), 8, false, false, PC); }

void* __wrap_memcpy(void* d, const void* s, size_t n) {
	if (watched() && n) {
		access(uintptr_t(s), n, false, false, PC);
		access(uintptr_t(d), n, true, false, PC);
	}
	return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
	if (watched() && n) {
		access(uintptr_t(s), n, false, false, PC);
		access(uintptr_t(d), n, true, false, PC);
	}
	return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
	if (watched() && n) {
		access(uintptr_t(d), n, true, false, PC);
	}
	return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
	if (watched() && n) {
		access(uintptr_t(a), n, false, false, PC);
		access(uintptr_t(b), n, false, false, PC);
	}
	return __real_memcmp(a, b, n);
}
} // extern "C"

// ---- atomics ---------------------------------------------------------------------------------
static inline bool isAcquire(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
static inline bool isRelease(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

// Called right after the operation took effect (only one thread runs, so that is atomic with it).
static void atomicEffect(uintptr_t a, size_t n, bool read, bool write, int mo, uintptr_t pc) {
	if (!managed()) {
		return;
	}
	++st.sync;
	Sync* s = syncOf(a);
	if (read) {
		if (isAcquire(mo)) {
			acquire(s->vc);
		}
		else {
			me->acqPending.join(s->vc);
		}
	}
	if (watched()) {
		// The check precedes the release below so that the write belongs to the epoch being released.
		int region = 0;
		(void)region;
		const uint64_t savedGap = gap;
		gap = ~0ull;
		if (write) {
			access(a, n, true, true, pc);
		}
		else {
			access(a, n, false, true, pc);
		}
		gap = savedGap;
	}
	if (write) {
		if (isRelease(mo)) {
			if (!read) {
				s->vc = VC{};
			}
			release(s->vc);
		}
		else {
			if (!read) {
				s->vc = VC{};
			}
			s->vc.join(me->relFence);
		}
	}
	if (watched()) {
		point(true, "atomic");
	}
}
static inline void atomicBefore() {
	if (watched()) {
		point(true, "atomic");
	}
}

extern "C" {
#define ATOMIC(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T* a, int mo) { \
		atomicBefore(); \
		T r = __atomic_load_n(a, __ATOMIC_SEQ_CST); \
		atomicEffect(uintptr_t(a), bits / 8, true, false, mo, PC); \
		return r; \
	} \
	void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { \
		atomicBefore(); \
		__atomic_store_n(a, v, __ATOMIC_SEQ_CST); \
		atomicEffect(uintptr_t(a), bits / 8, false, true, mo, PC); \
	} \
	T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { \
		atomicBefore(); \
		T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); \
		atomicEffect(uintptr_t(a), bits / 8, true, true, mo, PC); \
		return r; \
	} \
	ATOMIC_RMW(bits, T, fetch_add) ATOMIC_RMW(bits, T, fetch_sub) ATOMIC_RMW(bits, T, fetch_and) \
	ATOMIC_RMW(bits, T, fetch_or) ATOMIC_RMW(bits, T, fetch_xor) ATOMIC_RMW(bits, T, fetch_nand) \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { \
		atomicBefore(); \
		const bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
		atomicEffect(uintptr_t(a), bits / 8, true, ok, ok ? mo : fmo, PC); \
		return ok; \
	} \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { \
		return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); \
	} \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { \
		__tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); \
		return c; \
	}
#define ATOMIC_RMW(bits, T, op) \
	T __tsan_atomic##bits##_##op(volatile T* a, T v, int mo) { \
		atomicBefore(); \
		T r = __atomic_##op(a, v, __ATOMIC_SEQ_CST); \
		atomicEffect(uintptr_t(a), bits / 8, true, true, mo, PC); \
		return r; \
	}
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)

void __tsan_atomic_thread_fence(int mo) {
	if (!managed()) {
		return;
	}
	if (isAcquire(mo)) {
		me->vc.join(me->acqPending);
	}
	if (isRelease(mo)) {
		me->relFence = me->vc;
		if (me->tid < RT) {
			me->vc.c[me->tid]++;
		}
	}
	if (mo == __ATOMIC_SEQ_CST) {
		Sync* s = syncOf(8);
		acquire(s->vc);
		release(s->vc);
	}
	point(true, "fence");
}
void __tsan_atomic_signal_fence(int) {}

// ---- pthreads ----------------------------------------------------------------------------------
static bool recursiveMutex(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

int pthread_mutex_lock(pthread_mutex_t* m) {
	if (!managed()) {
		if (shm && !active) {
			// Only one thread exists: a lock that is not free can never be released any more.
			const int r = pthread_mutex_trylock(m);
			if (r == EBUSY) {
				fail("deadlock", "a lock taken by an earlier call was never released");
			}
			return r;
		}
		REAL(pthread_mutex_lock, m);
	}
	syncPoint("lock");
	Sync* s = syncOf(uintptr_t(m));
	if (s->owner == me->tid) {
		if (recursiveMutex(m)) {
			s->depth++;
			return 0;
		}
		if ((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP) {
			return EDEADLK;
		}
	}
	lockExclusive(uintptr_t(m), "mutex");
	s->depth = 1;
	return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
	if (!managed()) {
		REAL(pthread_mutex_trylock, m);
	}
	syncPoint("trylock");
	Sync* s = syncOf(uintptr_t(m));
	if (s->owner == me->tid && recursiveMutex(m)) {
		s->depth++;
		return 0;
	}
	if (s->owner != -1) {
		return EBUSY;
	}
	s->owner = me->tid;
	s->depth = 1;
	acquire(s->vc);
	return 0;
}
static int timedMutex(pthread_mutex_t* m) {
	syncPoint("timedlock");
	Sync* s = syncOf(uintptr_t(m));
	while (s->owner != -1) {
		blockOn(uintptr_t(m), true, "mutex");
		if (me->timedOut) {
			return ETIMEDOUT;
		}
	}
	s->owner = me->tid;
	s->depth = 1;
	acquire(s->vc);
	return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) {
	if (!managed()) {
		REAL(pthread_mutex_timedlock, m, t);
	}
	return timedMutex(m);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) {
	if (!managed()) {
		REAL(pthread_mutex_clocklock, m, c, t);
	}
	return timedMutex(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
	if (!managed()) {
		REAL(pthread_mutex_unlock, m);
	}
	Sync* s = syncOf(uintptr_t(m));
	if (s->owner == me->tid && --s->depth > 0) {
		return 0;
	}
	unlockExclusive(uintptr_t(m), "mutex");
	syncPoint("unlock");
	return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
	if (managed()) {
		resetSync(uintptr_t(m));
	}
	REAL(pthread_mutex_init, m, a);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
	if (managed()) {
		if (syncOf(uintptr_t(m))->owner != -1) {
			fail("lock", "a locked mutex is destroyed");
		}
		resetSync(uintptr_t(m));
	}
	REAL(pthread_mutex_destroy, m);
}

int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
	if (!managed()) {
		const int r = pthread_rwlock_trywrlock(m);
		if (r == EBUSY && shm && !active) {
			fail("deadlock", "a lock taken by an earlier call was never released");
		}
		return r;
	}
	syncPoint("wrlock");
	if (syncOf(uintptr_t(m))->owner == me->tid) {
		return EDEADLK;
	}
	lockExclusive(uintptr_t(m), "rwlock");
	return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
	if (!managed()) {
		const int r = pthread_rwlock_tryrdlock(m);
		if (r == EBUSY && shm && !active) {
			fail("deadlock", "a lock taken by an earlier call was never released");
		}
		return r;
	}
	syncPoint("rdlock");
	Sync* s = syncOf(uintptr_t(m));
	if (s->owner == me->tid) {
		return EDEADLK;
	}
	while (s->owner != -1) {
		blockOn(uintptr_t(m), false, "rwlock");
	}
	s->readers++;
	acquire(s->vc);
	return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
	if (!managed()) {
		REAL(pthread_rwlock_tryrdlock, m);
	}
	syncPoint("tryrdlock");
	Sync* s = syncOf(uintptr_t(m));
	if (s->owner != -1) {
		return EBUSY;
	}
	s->readers++;
	acquire(s->vc);
	return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
	if (!managed()) {
		REAL(pthread_rwlock_trywrlock, m);
	}
	syncPoint("trywrlock");
	Sync* s = syncOf(uintptr_t(m));
	if (s->owner != -1 || s->readers) {
		return EBUSY;
	}
	s->owner = me->tid;
	acquire(s->vc);
	return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
	if (!managed()) {
		REAL(pthread_rwlock_unlock, m);
	}
	Sync* s = syncOf(uintptr_t(m));
	if (s->owner == me->tid) {
		unlockExclusive(uintptr_t(m), "rwlock");
	}
	else {
		if (s->readers == 0) {
			fail("lock", "rwlock released by a thread that does not hold it");
		}
		// Orders this reader before later writers (and, harmlessly, before later readers).
		release(s->vc);
		if (--s->readers == 0) {
			wakeAll(uintptr_t(m));
		}
	}
	syncPoint("rwunlock");
	return 0;
}

int pthread_spin_lock(pthread_spinlock_t* m) {
	if (!managed()) {
		REAL(pthread_spin_lock, m);
	}
	syncPoint("spinlock");
	lockExclusive(uintptr_t(m), "spinlock");
	return 0;
}
int pthread_spin_trylock(pthread_spinlock_t* m) {
	if (!managed()) {
		REAL(pthread_spin_trylock, m);
	}
	syncPoint("spintrylock");
	Sync* s = syncOf(uintptr_t(m));
	if (s->owner != -1) {
		return EBUSY;
	}
	s->owner = me->tid;
	acquire(s->vc);
	return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* m) {
	if (!managed()) {
		REAL(pthread_spin_unlock, m);
	}
	unlockExclusive(uintptr_t(m), "spinlock");
	syncPoint("spinunlock");
	return 0;
}

static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
	Sync* s = syncOf(uintptr_t(m));
	const int depth = s->depth;
	unlockExclusive(uintptr_t(m), "mutex");
	blockOn(uintptr_t(c), timed, "condition");
	const bool out = me->timedOut;
	lockExclusive(uintptr_t(m), "mutex");
	s->depth = depth;
	return out ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
	if (!managed()) {
		REAL(pthread_cond_wait, c, m);
	}
	return condWait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
	if (!managed()) {
		REAL(pthread_cond_timedwait, c, m, t);
	}
	return condWait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) {
	if (!managed()) {
		REAL(pthread_cond_clockwait, c, m, k, t);
	}
	return condWait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c) {
	if (!managed()) {
		REAL(pthread_cond_signal, c);
	}
	wakeOne(uintptr_t(c));
	syncPoint("signal");
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
	if (!managed()) {
		REAL(pthread_cond_broadcast, c);
	}
	wakeAll(uintptr_t(c));
	syncPoint("broadcast");
	return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
	if (!managed()) {
		REAL(pthread_cond_destroy, c);
	}
	return 0;
}

int sem_wait(sem_t* m) {
	if (!managed()) {
		REAL(sem_wait, m);
	}
	syncPoint("sem_wait");
	Sync* s = syncOf(uintptr_t(m));
	int v = 0;
	while (sem_getvalue(m, &v) == 0 && v <= 0) {
		blockOn(uintptr_t(m), false, "semaphore");
	}
	sem_trywait(m);
	acquire(s->vc);
	return 0;
}
int sem_post(sem_t* m) {
	if (!managed()) {
		REAL(sem_post, m);
	}
	release(syncOf(uintptr_t(m))->vc);
	static decltype(&::sem_post) real = nullptr;
	next("sem_post", real)(m);
	wakeAll(uintptr_t(m));
	syncPoint("sem_post");
	return 0;
}

int pthread_once(pthread_once_t* o, void (*f)()) {
	if (!managed()) {
		REAL(pthread_once, o, f);
	}
	syncPoint("once");
	Sync* s = syncOf(uintptr_t(o));
	while (true) {
		if (*o == 2) { // what glibc stores when done
			acquire(s->vc);
			return 0;
		}
		if (s->owner == -1) {
			break;
		}
		blockOn(uintptr_t(o), false, "once");
	}
	s->owner = me->tid;
	acquire(s->vc);
	try {
		f();
	}
	catch (...) {
		s->owner = -1;
		release(s->vc);
		wakeAll(uintptr_t(o));
		throw;
	}
	release(s->vc);
	s->owner = -1;
	*o = 2;
	wakeAll(uintptr_t(o));
	syncPoint("once done");
	return 0;
}

int __cxa_guard_acquire(uint64_t* g) {
	auto* b = reinterpret_cast<volatile unsigned char*>(g);
	if (!managed()) {
		if (b[0]) {
			return 0;
		}
		if (b[1] && shm && !active) {
			fail("deadlock", "a static object's initialisation needs itself or was never ended");
		}
		b[1] = 1;
		return 1;
	}
	syncPoint("guard");
	Sync* s = syncOf(uintptr_t(g));
	while (true) {
		if (b[0]) {
			acquire(s->vc);
			return 0;
		}
		if (s->owner == -1) {
			break;
		}
		if (s->owner == me->tid) {
			fail("deadlock", "a static object's initialisation needs itself");
		}
		blockOn(uintptr_t(g), false, "static initialisation");
	}
	s->owner = me->tid;
	acquire(s->vc);
	return 1;
}
void __cxa_guard_release(uint64_t* g) {
	auto* b = reinterpret_cast<volatile unsigned char*>(g);
	b[0] = 1;
	b[1] = 0;
	if (!managed()) {
		return;
	}
	Sync* s = syncOf(uintptr_t(g));
	release(s->vc);
	s->owner = -1;
	wakeAll(uintptr_t(g));
	syncPoint("guard done");
}
void __cxa_guard_abort(uint64_t* g) {
	reinterpret_cast<volatile unsigned char*>(g)[1] = 0;
	if (!managed()) {
		return;
	}
	Sync* s = syncOf(uintptr_t(g));
	release(s->vc);
	s->owner = -1;
	wakeAll(uintptr_t(g));
	syncPoint("guard abort");
}

int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
	if (!managed()) {
		REAL(pthread_create, h, a, f, arg);
	}
	Thread* t = newThread();
	t->daemon = true;
	t->entry = f;
	t->arg = arg;
	static decltype(&::pthread_create) real = nullptr;
	const int r = next("pthread_create", real)(&t->handle, a, threadMain, t);
	if (r != 0) {
		error("pthread_create");
	}
	*h = t->handle;
	syncPoint("thread created");
	return 0;
}
int pthread_join(pthread_t h, void** ret) {
	if (!managed()) {
		REAL(pthread_join, h, ret);
	}
	for (int k = 1; k < nThreads; ++k) {
		Thread* t = &threads[k];
		if (t->daemon && !t->joined && pthread_equal(t->handle, h)) { // handles are used again
			t->joined = true;
			while (t->state != DONE) {
				blockOn(uintptr_t(t), false, "join");
			}
			acquire(syncOf(uintptr_t(t))->vc);
			break;
		}
	}
	static decltype(&::pthread_join) real = nullptr;
	return next("pthread_join", real)(h, ret);
}

// ---- time ------------------------------------------------------------------------------------------
int sched_yield() noexcept {
	if (!managed()) {
		return int(__real_syscall(SYS_sched_yield));
	}
	++st.sync;
	reschedule(true, "yield");
	return 0;
}
int nanosleep(const timespec* t, timespec* r) {
	if (!managed()) {
		return int(__real_syscall(SYS_nanosleep, t, r));
	}
	sched_yield();
	return 0;
}
int clock_nanosleep(clockid_t c, int f, const timespec* t, timespec* r) {
	if (!managed()) {
		return int(__real_syscall(SYS_clock_nanosleep, c, f, t, r)) == 0 ? 0 : errno;
	}
	sched_yield();
	return 0;
}
int usleep(useconds_t u) {
	timespec t{ time_t(u / 1000000), long(u % 1000000) * 1000 };
	return nanosleep(&t, nullptr);
}
// std::atomic::wait and friends call the kernel directly.
long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) {
	if (managed() && n == SYS_futex) {
		if ((b & 127) == FUTEX_WAKE || (b & 127) == FUTEX_WAKE_BITSET) {
			wakeAll(uintptr_t(a) | 1);
			syncPoint("futex wake");
			return 1;
		}
		if (__atomic_load_n(reinterpret_cast<int*>(a), __ATOMIC_SEQ_CST) == int(c)) {
			blockOn(uintptr_t(a) | 1, d != 0, "futex");
			if (me->timedOut) {
				errno = ETIMEDOUT;
				return -1;
			}
			return 0;
		}
		errno = EAGAIN;
		return -1;
	}
	return __real_syscall(n, a, b, c, d, e, f);
}
} // extern "C"
