// Allocator seam: every operator new/delete of the program and every malloc family call compiled into it
// comes here. Inside a "library call" scope the simulator serves memory from its own arena and decides
// addresses, contents and failures; outside the scope the system allocator is used.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim::heap {

enum Fill { FILL_ZERO, FILL_STALE, FILL_NAN, FILL_GARBAGE };
enum Reuse { REUSE_LIFO, REUSE_NEVER };

struct Config {
	Fill fill = FILL_GARBAGE;
	Reuse reuse = REUSE_LIFO;
	uint64_t fillSeed = 1;
	unsigned skew = 0; // extra cache lines in front of blocks, varies addresses
	unsigned off16 = 0; // 0-3: blocks start 0, 16, 32 or 48 bytes after a cache line, as a real malloc's do
};

void configure(const Config& c); // may be called between operations
void begin();                    // enter library scope (this thread)
void end();
bool inScope();
extern __thread int t_scope; // scope depth of this thread
void ensure();           // maps the arena

// Faults. All count allocations made in scope since armFault().
void armFault(uint64_t failAt, bool persistent, size_t minBytes = 0);
void disarmFault();
uint64_t allocCount();  // allocations attempted in scope since the last arm/disarm/reset
uint64_t faultsFired(); // since the last arm
void resetCount();

uint64_t liveBytes();
uint64_t liveBlocks();
uint64_t reusedBlocks();

// Verifies every canary; fails the run ("memory:heap-...") when one is damaged.
void checkIntegrity(const char* where);
// Blocks not reachable from globals, the current thread's stack, or other reachable blocks.
struct Leak { uint64_t blocks, bytes; uint64_t firstSerial; size_t firstSize; };
Leak findLeaks();

bool owns(const void* p); // address inside the arena
// Owner and extent of the live block around p; false if p is not inside a live block.
bool blockAt(const void* p, uintptr_t& base, size_t& size, int& owner);
extern uintptr_t arenaBase, arenaEnd;

struct Scope {
	Scope() { begin(); }
	~Scope() { end(); }
	Scope(const Scope&) = delete;
};

// Hooks the thread simulator installs.
extern void (*onAlloc)(void* p, size_t n);
extern void (*onFree)(void* p, size_t n);
extern int (*currentThread)();

} // namespace sim::heap
