// Simulator core: the seeded choice stream, the per-run context shared between the worker process
// and the forked simulation process, violation reporting and coverage counters.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>

namespace sim {

// ---- hashing -------------------------------------------------------------------------------
inline uint64_t mix(uint64_t x) {
	x += 0x9E3779B97F4A7C15ull;
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
	x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
	return x ^ (x >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b) { return mix(mix(a) ^ (b * 0xD6E8FEB86659FD93ull + 0x632BE59BD9B4E019ull)); }
uint64_t hashBytes(const void* p, size_t n, uint64_t h = 0);

// A private deterministic generator (for data derived from one drawn seed).
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(mix(seed, 0x5eed)) {}
	uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
	uint64_t below(uint64_t n) { return n <= 1 ? 0 : next() % n; }
	double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
	double sym() { return 2.0 * unit() - 1.0; }
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

// ---- run record, in memory shared by worker and forked run -------------------------------------
enum Outcome : uint32_t { OUT_NONE = 0, OUT_OK = 1, OUT_VIOLATION = 2, OUT_ERROR = 3 };

struct Counter { const char* name; uint64_t value; };
struct SetEntry { const char* set; uint64_t hash; };

constexpr size_t MAX_CHOICES = 1 << 16;
constexpr size_t MAX_COUNTERS = 1024;
constexpr size_t MAX_SETS = 4096;
constexpr size_t TRACE_BYTES = 1 << 18;
constexpr size_t BOARD_BYTES = 8u << 20;

struct Shm {
	uint32_t outcome;
	uint32_t phase;
	char cls[128];
	char msg[4096];
	uint64_t evhash;
	uint64_t evcount;
	uint64_t seed; // of this run
	uint64_t index;
	uint32_t replaying;
	uint32_t tracing;
	uint32_t nReplay;
	uint32_t nChoices;
	uint32_t choiceOverflow;
	uint32_t replay[MAX_CHOICES];
	uint32_t choices[MAX_CHOICES];
	uint32_t bounds[MAX_CHOICES];
	const char* labels[MAX_CHOICES];
	uint32_t countersFrozen;
	Counter counters[MAX_COUNTERS];
	uint32_t nSets;
	SetEntry sets[MAX_SETS];
	uint64_t sampleCount; // samples pushed through the system, for simulated time
	uint32_t nontrivial;
	uint64_t signature;
	char summary[512];
	uint32_t traceLen;
	char trace[TRACE_BYTES];
	uint64_t boardLen;
	unsigned char board[BOARD_BYTES];
};
extern Shm* shm;

// ---- choices ---------------------------------------------------------------------------------
// Every decision of a run (workload, sizes, faults, schedule) comes from here. 0 <= result < n.
uint32_t draw(uint64_t n, const char* label);
inline bool flip(unsigned num, unsigned den, const char* label) {
	// 0 (what minimisation moves towards) means "no".
	return draw(den, label) >= den - num && num > 0;
}
inline uint32_t range(uint32_t lo, uint32_t hi, const char* label) { return lo + draw(uint64_t(hi) - lo + 1, label); }
// Sizes: mostly small, sometimes around the thresholds of the library, sometimes large.
uint32_t drawSize(uint32_t lo, uint32_t hi, const char* label);

// ---- events, counters, verdicts ----------------------------------------------------------------
void ev(uint64_t v);
void evBytes(const void* p, size_t n);
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void count(const char* name, uint64_t n = 1); // name must be a string literal
void distinct(const char* set, uint64_t hash);
void summary(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void samples(uint64_t n);
void nontrivial(uint64_t signature);

[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// A failure that known_findings.txt may list by its class: a listed one is counted and the run goes on.
void finding(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---- supplied by a workload ---------------------------------------------------------------------
struct Workload {
	const char* property;
	int phases; // each phase runs in its own process forked from the pristine worker
	void (*run)(int phase);
};
extern const Workload workload;

// Thorough tier?
extern bool thorough;

// Results passed from phase to phase.
void boardPut(const void* p, size_t n);

} // namespace sim
