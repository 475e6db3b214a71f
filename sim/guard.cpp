#include "guard.hpp"
#include "heap.hpp"

#include <vector>

#if defined(SIM_ASAN)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region((p), (n))
#define UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
#else
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#endif

namespace sim {

static unsigned char* region = nullptr;
static size_t regionUsed = 0;
static constexpr size_t REGION = size_t(4) << 30;
static constexpr size_t PAGE = 4096;

unsigned char* guardAlloc(size_t bytes, size_t align, bool atStart, size_t& mapped) {
	if (!region) {
		void* p = mmap(reinterpret_cast<void*>(0x200000000000ull), REGION, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		if (p == MAP_FAILED) {
			error("guard region");
		}
		region = static_cast<unsigned char*>(p);
	}
	const size_t pages = (bytes + PAGE - 1) / PAGE;
	mapped = pages * PAGE;
	if (regionUsed + mapped + 2 * PAGE > REGION) {
		error("guard region exhausted");
	}
	unsigned char* base = region + regionUsed + PAGE;
	regionUsed += mapped + PAGE; // the next buffer's leading guard is this one's trailing guard
	if (mapped && mprotect(base, mapped, PROT_READ | PROT_WRITE) != 0) {
		error("mprotect");
	}
	if (atStart) {
		return base;
	}
	const size_t slack = (mapped - bytes) / align * align;
	if (slack) {
		memset(base, 0xC7, slack);
	}
	return base + slack;
}

void guardProtect(const void* p, size_t bytes, bool writable) {
	if (!bytes) {
		return;
	}
	const uintptr_t lo = uintptr_t(p) & ~(PAGE - 1);
	const uintptr_t hi = (uintptr_t(p) + bytes + PAGE - 1) & ~(PAGE - 1);
	mprotect(reinterpret_cast<void*>(lo), hi - lo, writable ? PROT_READ | PROT_WRITE : PROT_READ);
}

// ---- recycled buffers ------------------------------------------------------------------------
static std::vector<unsigned char*> pool[64];

static unsigned char marginByte(const Placed& b, size_t i) {
	switch (b.margin) {
		case 0: return 0xC7;
		case 1: return 0xFF; // NaN
		case 2: return 0;
		default: return (unsigned char)(mix(i + 1) >> 13);
	}
}
static bool marginOk(const Placed& b) {
	UNPOISON(b.map, b.mapped);
	const size_t lo = size_t(b.p - b.map);
	for (size_t i = 0; i < lo; ++i) {
		if (b.map[i] != marginByte(b, i)) {
			return false;
		}
	}
	for (size_t i = lo + b.bytes; i < b.mapped; ++i) {
		if (b.map[i] != marginByte(b, i)) {
			return false;
		}
	}
	return true;
}
static void poisonMargins(const Placed& b) {
	const size_t lo = size_t(b.p - b.map);
	(void)lo;
	POISON(b.map, lo);
	POISON(b.p + b.bytes, b.mapped - lo - b.bytes);
}

Placed placeAlloc(size_t bytes, size_t align, unsigned mode, unsigned off, unsigned margin) {
	Placed b;
	b.bytes = bytes;
	b.margin = margin;
	const size_t before = mode == 2 ? 64 + off * align : 0;
	const size_t pages = (bytes + before + (mode == 2 ? 64 : 0) + PAGE - 1) / PAGE;
	if (pages < 64 && !pool[pages].empty()) {
		b.map = pool[pages].back();
		pool[pages].pop_back();
		b.mapped = pages * PAGE;
		UNPOISON(b.map, b.mapped);
	}
	else {
		b.map = guardAlloc(pages * PAGE, PAGE, true, b.mapped);
	}
	const size_t lo = mode == 1 ? 0 : mode == 2 ? before : (b.mapped - bytes) / align * align;
	b.p = b.map + lo;
	for (size_t i = 0; i < lo; ++i) {
		b.map[i] = marginByte(b, i);
	}
	for (size_t i = lo + bytes; i < b.mapped; ++i) {
		b.map[i] = marginByte(b, i);
	}
	poisonMargins(b);
	if (heap::onAlloc && b.mapped) {
		heap::onAlloc(b.map, b.mapped);
	}
	return b;
}
void placeReadOnly(const Placed& b) { guardProtect(b.map, b.mapped, false); }
void placeCheck(const Placed& b) {
	const bool ok = marginOk(b);
	poisonMargins(b);
	if (!ok) {
		fail("memory:outside-output", "bytes around an output of %zu bytes were overwritten", b.bytes);
	}
}
void placeFree(const Placed& b) {
	if (!marginOk(b)) {
		fail("memory:outside-output", "bytes around an output of %zu bytes were overwritten", b.bytes);
	}
	if (b.mapped / PAGE < 64) {
		pool[b.mapped / PAGE].push_back(b.map);
	}
}

} // namespace sim
