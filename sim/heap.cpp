#include "heap.hpp"
#include "core.hpp"

#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <link.h>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

#if defined(SIM_ASAN)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region((p), (n))
#define UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
#define NOASAN __attribute__((no_sanitize("address")))
#else
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#define NOASAN
#endif

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t);
}

namespace sim::heap {

uintptr_t arenaBase = 0, arenaEnd = 0;
void (*onAlloc)(void*, size_t) = nullptr;
void (*onFree)(void*, size_t) = nullptr;
int (*currentThread)() = nullptr;

static constexpr size_t ARENA = size_t(6) << 30;
static constexpr size_t PRE = 64; // front: header + canary
static constexpr uint64_t MAGIC_LIVE = 0xA11C0DE5A11C0DE5ull, MAGIC_FREE = 0xDEADF4EEDEADF4EEull;
static constexpr unsigned char CANARY = 0xC7;

struct Header {
	uint64_t magic;
	uint64_t serial;
	size_t size;
	size_t total;   // bytes from slot start
	uintptr_t slot; // start of the slot
	int32_t owner;
	uint32_t cls;
	Header* next; // free list
	uint32_t mark;
	uint32_t kind;
};
static_assert(sizeof(Header) <= PRE + 64);

static constexpr size_t HDR = 128;

__thread int t_scope = 0;
static Config cfg;
static uintptr_t bump = 0;
static uint64_t serial = 0;
static uint64_t nAlloc = 0, failAt = ~0ull, fired = 0;
static size_t failMin = 0;
static bool failPersistent = false;
static uint64_t live = 0, liveN = 0, reused = 0;
static constexpr unsigned NCLS = 48;
static Header* freeList[NCLS * 4];
// Registry of live blocks, ordered by address lazily.
static Header** reg = nullptr;
static size_t regN = 0, regCap = 0;

static void ensureArena() {
	if (arenaBase) {
		return;
	}
	void* want = reinterpret_cast<void*>(0x300000000000ull);
	void* p = mmap(want, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p == MAP_FAILED) {
		error("cannot map the arena");
	}
	arenaBase = uintptr_t(p);
	arenaEnd = arenaBase + ARENA;
	bump = arenaBase;
}

void ensure() { ensureArena(); }
void configure(const Config& c) { cfg = c; }
void begin() { ++t_scope; }
void end() { --t_scope; }
bool inScope() { return t_scope > 0; }
void armFault(uint64_t at, bool persistent, size_t minBytes) {
	nAlloc = 0;
	failAt = at;
	failPersistent = persistent;
	failMin = minBytes;
	fired = 0;
}
void disarmFault() { failAt = ~0ull; }
uint64_t allocCount() { return nAlloc; }
uint64_t faultsFired() { return fired; }
void resetCount() { nAlloc = 0; }
uint64_t liveBytes() { return live; }
uint64_t liveBlocks() { return liveN; }
uint64_t reusedBlocks() { return reused; }
bool owns(const void* p) { return uintptr_t(p) >= arenaBase && uintptr_t(p) < arenaEnd && arenaBase; }

static unsigned sizeClass(size_t total, size_t& rounded) {
	// Geometric with 4 steps per octave, minimum 256.
	size_t c = 256;
	unsigned k = 0;
	while (true) {
		for (unsigned q = 0; q < 4; ++q) {
			const size_t v = c + c / 4 * q;
			if (v >= total) {
				rounded = (v + 63) / 64 * 64;
				return k * 4 + q;
			}
		}
		c *= 2;
		++k;
	}
}

NOASAN static void fillBytes(unsigned char* p, size_t n, uint64_t ser) {
	switch (cfg.fill) {
		case FILL_ZERO: memset(p, 0, n); break;
		case FILL_STALE: break;
		case FILL_NAN: memset(p, 0xFF, n); break;
		case FILL_GARBAGE: {
			uint64_t s = mix(cfg.fillSeed, ser);
			size_t i = 0;
			// Plausible, large-ish floating point values in either precision, never NaN, so that they spread silently.
			for (; i + 8 <= n; i += 8) {
				s = s * 6364136223846793005ull + 1442695040888963407ull;
				uint64_t v = (s >> 9) & 0x0FFFFFFF8FFFFFFFull;
				v |= 0x4040000042000000ull;
				memcpy(p + i, &v, 8);
			}
			for (; i < n; ++i) {
				p[i] = static_cast<unsigned char>(s >> 33) | 0x40;
			}
			break;
		}
	}
}

static void addReg(Header* h) {
	if (regN == regCap) {
		regCap = regCap ? regCap * 2 : 4096;
		reg = static_cast<Header**>(__real_realloc(reg, regCap * sizeof(Header*)));
	}
	h->mark = uint32_t(regN);
	reg[regN++] = h;
}
static void delReg(Header* h) {
	Header* lastH = reg[--regN];
	reg[h->mark] = lastH;
	lastH->mark = h->mark;
}

// The simulator's own accesses are not the library's.
struct Outside {
	int saved = t_scope;
	Outside() { t_scope = 0; }
	~Outside() { t_scope = saved; }
};

static void* arenaAllocRaw(size_t n, size_t align, uint32_t kind) {
	const Outside outside;
	ensureArena();
	++nAlloc;
	if (n >= failMin && (nAlloc == failAt || (failPersistent && nAlloc > failAt))) {
		++fired;
		return nullptr;
	}
	if (n > ARENA / 4) {
		return nullptr; // an absurd request: a simulated machine has no such memory
	}
	if (align < 16) {
		align = 16;
	}
	const size_t tail = 32;
	size_t want = HDR + n + tail + (align > 64 ? align : 0) + 48 + size_t(cfg.skew) * 64;
	size_t rounded;
	const unsigned cls = sizeClass(want, rounded);
	uintptr_t slot = 0;
	if (cfg.reuse == REUSE_LIFO && freeList[cls]) {
		Header* h = freeList[cls];
		freeList[cls] = h->next;
		slot = h->slot;
		++reused;
	}
	else {
		if (bump + rounded > arenaEnd) {
			error("arena exhausted");
		}
		slot = bump;
		bump += rounded;
	}
	uintptr_t user = slot + HDR + size_t(cfg.skew) * 64 + size_t(cfg.off16 % 4) * 16;
	user = (user + align - 1) / align * align;
	auto* h = reinterpret_cast<Header*>(user - HDR);
	UNPOISON(reinterpret_cast<void*>(slot), rounded);
	h->magic = MAGIC_LIVE;
	h->serial = ++serial;
	h->size = n;
	h->total = rounded;
	h->slot = slot;
	h->owner = currentThread ? currentThread() : 0;
	h->cls = cls;
	h->next = nullptr;
	h->kind = kind;
	addReg(h);
	auto* u = reinterpret_cast<unsigned char*>(user);
	memset(u - 32, CANARY, 32);
	memset(u + n, CANARY, tail);
	fillBytes(u, n, h->serial);
	POISON(h, HDR);
	POISON(u + n, slot + rounded - user - n);
	live += n;
	++liveN;
	return u;
}
static void* arenaAlloc(size_t n, size_t align, uint32_t kind) {
	void* u = arenaAllocRaw(n, align, kind);
	if (u && onAlloc) {
		onAlloc(u, n);
	}
	return u;
}

NOASAN static bool canariesOk(Header* h, uintptr_t user) {
	const auto* u = reinterpret_cast<const volatile unsigned char*>(user);
	for (int i = 1; i <= 32; ++i) {
		if (u[-i] != CANARY) {
			return false;
		}
	}
	for (int i = 0; i < 32; ++i) {
		if (u[h->size + i] != CANARY) {
			return false;
		}
	}
	return true;
}

static void arenaFree(void* p, uint32_t kind) {
	const Outside outside;
	const uintptr_t user = uintptr_t(p);
	auto* h = reinterpret_cast<Header*>(user - HDR);
	UNPOISON(h, HDR);
	if (h->magic != MAGIC_LIVE) {
		fail(h->magic == MAGIC_FREE ? "memory:double-free" : "memory:bad-free", "deallocation of memory that is not a live allocation");
	}
	(void)kind;
	if (!canariesOk(h, user)) {
		fail("memory:heap-overflow", "bytes around a heap block of %zu bytes were overwritten", h->size);
	}
	if (onFree) {
		onFree(p, h->size);
	}
	h->magic = MAGIC_FREE;
	live -= h->size;
	--liveN;
	delReg(h);
	// Freed contents are scribbled so that a use after free cannot silently work.
	UNPOISON(p, h->size);
	if (cfg.fill != FILL_STALE) {
		memset(p, 0xF5, h->size);
	}
	if (cfg.reuse == REUSE_LIFO) {
		h->next = freeList[h->cls];
		freeList[h->cls] = h;
		const uintptr_t end = h->slot + h->total;
		POISON(p, end - user);
		POISON(h, HDR);
		// the free list link is read unpoisoned below
		UNPOISON(h, HDR);
	}
	else {
		const size_t total = h->total;
		POISON(reinterpret_cast<void*>(h->slot), total);
	}
}

void checkIntegrity(const char* where) {
	for (size_t i = 0; i < regN; ++i) {
		Header* h = reg[i];
		UNPOISON(h, HDR);
		if (!canariesOk(h, uintptr_t(h) + HDR)) {
			fail("memory:heap-overflow", "%s: bytes around a live heap block of %zu bytes were overwritten", where, h->size);
		}
		POISON(h, HDR);
	}
}

bool blockAt(const void* p, uintptr_t& base, size_t& size, int& owner) {
	for (size_t i = 0; i < regN; ++i) {
		Header* h = reg[i];
		const uintptr_t u = uintptr_t(h) + HDR;
		if (uintptr_t(p) >= u && uintptr_t(p) < u + h->size) {
			base = u;
			size = h->size;
			owner = h->owner;
			return true;
		}
	}
	return false;
}

// ---- leak search: conservative reachability --------------------------------------------------
struct Range { uintptr_t lo, hi; };
static std::vector<Range>* rootRanges;

static int addPhdr(dl_phdr_info* info, size_t, void*) {
	for (int i = 0; i < info->dlpi_phnum; ++i) {
		const auto& ph = info->dlpi_phdr[i];
		if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W)) {
			rootRanges->push_back({ uintptr_t(info->dlpi_addr + ph.p_vaddr), uintptr_t(info->dlpi_addr + ph.p_vaddr + ph.p_memsz) });
		}
		if (ph.p_type == PT_TLS && info->dlpi_tls_data) {
			// This thread's copy of the module's thread_local objects.
			rootRanges->push_back({ uintptr_t(info->dlpi_tls_data), uintptr_t(info->dlpi_tls_data) + ph.p_memsz });
		}
	}
	return 0;
}

NOASAN __attribute__((noinline)) Leak findLeaks() {
	// Runs outside the scope, so that its own containers use the system allocator.
	const int saved = t_scope;
	t_scope = 0;
	Leak leak{};
	{
		std::vector<Range> roots;
		rootRanges = &roots;
		dl_iterate_phdr(addPhdr, nullptr);
		pthread_attr_t attr;
		void* stackLo;
		size_t stackSize;
		pthread_getattr_np(pthread_self(), &attr);
		pthread_attr_getstack(&attr, &stackLo, &stackSize);
		pthread_attr_destroy(&attr);
		const uintptr_t sp = uintptr_t(__builtin_frame_address(0));
		const uintptr_t hi = uintptr_t(stackLo) + stackSize;
		roots.push_back({ sp, hi });
		// Sorted index.
		std::vector<std::pair<uintptr_t, Header*>> idx;
		idx.reserve(regN);
		for (size_t i = 0; i < regN; ++i) {
			idx.push_back({ uintptr_t(reg[i]) + HDR, reg[i] });
		}
		std::sort(idx.begin(), idx.end());
		std::vector<char> marked(idx.size(), 0);
		std::vector<Range> work(roots);
		while (!work.empty()) {
			const Range r = work.back();
			work.pop_back();
			for (uintptr_t a = (r.lo + 7) & ~uintptr_t(7); a + 8 <= r.hi; a += 8) {
				const uintptr_t v = *reinterpret_cast<volatile uintptr_t*>(a);
				if (v < arenaBase || v >= arenaEnd) {
					continue;
				}
				auto it = std::upper_bound(idx.begin(), idx.end(), std::make_pair(v, reinterpret_cast<Header*>(~uintptr_t(0))));
				if (it == idx.begin()) {
					continue;
				}
				--it;
				const size_t k = size_t(it - idx.begin());
				UNPOISON(it->second, HDR);
				const size_t sz = it->second->size;
				POISON(it->second, HDR);
				if (v <= it->first + sz && !marked[k]) {
					marked[k] = 1;
					work.push_back({ it->first, it->first + sz });
				}
			}
		}
		for (size_t k = 0; k < idx.size(); ++k) {
			if (!marked[k]) {
				UNPOISON(idx[k].second, HDR);
				if (leak.blocks++ == 0) {
					leak.firstSerial = idx[k].second->serial;
					leak.firstSize = idx[k].second->size;
				}
				leak.bytes += idx[k].second->size;
				POISON(idx[k].second, HDR);
			}
		}
	}
	t_scope = saved;
	return leak;
}

static void* anyNew(size_t n, size_t align, bool nothrow) {
	if (t_scope > 0) {
		void* p = arenaAlloc(n ? n : 1, align, 1);
		if (!p && !nothrow) {
			throw std::bad_alloc();
		}
		return p;
	}
	void* p = align > 16 ? __real_aligned_alloc(align, (n + align - 1) / align * align) : __real_malloc(n ? n : 1);
	if (!p && !nothrow) {
		throw std::bad_alloc();
	}
	return p;
}
static void anyDelete(void* p) {
	if (!p) {
		return;
	}
	if (owns(p)) {
		arenaFree(p, 1);
	}
	else {
		__real_free(p);
	}
}
} // namespace sim::heap

using namespace sim::heap;

void* operator new(size_t n) { return anyNew(n, 16, false); }
void* operator new[](size_t n) { return anyNew(n, 16, false); }
void* operator new(size_t n, std::align_val_t a) { return anyNew(n, size_t(a), false); }
void* operator new[](size_t n, std::align_val_t a) { return anyNew(n, size_t(a), false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return anyNew(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return anyNew(n, 16, true); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return anyNew(n, size_t(a), true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return anyNew(n, size_t(a), true); }
void operator delete(void* p) noexcept { anyDelete(p); }
void operator delete[](void* p) noexcept { anyDelete(p); }
void operator delete(void* p, size_t) noexcept { anyDelete(p); }
void operator delete[](void* p, size_t) noexcept { anyDelete(p); }
void operator delete(void* p, std::align_val_t) noexcept { anyDelete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { anyDelete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { anyDelete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { anyDelete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { anyDelete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { anyDelete(p); }
void operator delete(void* p, std::align_val_t, const std::nothrow_t&) noexcept { anyDelete(p); }
void operator delete[](void* p, std::align_val_t, const std::nothrow_t&) noexcept { anyDelete(p); }

extern "C" {
void* __wrap_malloc(size_t n) {
	if (inScope()) {
		void* p = arenaAlloc(n, 16, 2);
		if (!p) {
			errno = ENOMEM;
		}
		return p;
	}
	return __real_malloc(n);
}
void __wrap_free(void* p) {
	if (p && owns(p)) {
		arenaFree(p, 2);
		return;
	}
	__real_free(p);
}
void* __wrap_calloc(size_t a, size_t b) {
	if (inScope()) {
		size_t n;
		if (__builtin_mul_overflow(a, b, &n)) {
			errno = ENOMEM;
			return nullptr;
		}
		void* p = __wrap_malloc(n);
		if (p) {
			memset(p, 0, n);
		}
		return p;
	}
	return __real_calloc(a, b);
}
void* __wrap_realloc(void* p, size_t n) {
	if (!p) {
		return __wrap_malloc(n);
	}
	if (owns(p)) {
		auto* h = reinterpret_cast<Header*>(uintptr_t(p) - HDR);
		UNPOISON(h, HDR);
		const size_t old = h->size;
		POISON(h, HDR);
		void* q = arenaAlloc(n, 16, 2);
		if (q) {
			memcpy(q, p, old < n ? old : n);
			arenaFree(p, 2);
		}
		else {
			errno = ENOMEM;
		}
		return q;
	}
	return __real_realloc(p, n);
}
void* __wrap_aligned_alloc(size_t a, size_t n) {
	if (inScope()) {
		void* p = arenaAlloc(n, a, 2);
		if (!p) {
			errno = ENOMEM;
		}
		return p;
	}
	return __real_aligned_alloc(a, n);
}
int __wrap_posix_memalign(void** out, size_t a, size_t n) {
	if (inScope()) {
		void* p = arenaAlloc(n, a, 2);
		if (!p) {
			return ENOMEM;
		}
		*out = p;
		return 0;
	}
	return __real_posix_memalign(out, a, n);
}
}
