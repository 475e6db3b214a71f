// C11: results depend on nothing but the arguments.
#include "ops.hpp"

#include <cerrno>
#include <cfenv>
#include <clocale>
#include <cstdlib>
#include <exception>
#include <iostream>
#include <locale>
#include <new>
#include <xmmintrin.h>

using namespace sim;

namespace {

// What other code of the process could notice.
struct Globals {
	unsigned mxcsr;
	unsigned short x87;
	int rounding;
	std::string locale, cLocale;
	std::ios_base::fmtflags f1, f2, f3;
	std::streamsize p1, p2, p3, w1, w2, w3;
	std::ios_base::iostate s1, s2, s3;
	std::new_handler nh;
	std::terminate_handler th;
	int random;

	static Globals now() {
		Globals g;
		g.mxcsr = _mm_getcsr() & ~0x3Fu; // without the sticky exception flags
		asm volatile("fnstcw %0" : "=m"(g.x87));
		g.rounding = std::fegetround();
		g.locale = std::locale().name();
		const char* l = std::setlocale(LC_ALL, nullptr);
		g.cLocale = l ? l : "";
		g.f1 = std::cout.flags(), g.f2 = std::cerr.flags(), g.f3 = std::clog.flags();
		g.p1 = std::cout.precision(), g.p2 = std::cerr.precision(), g.p3 = std::clog.precision();
		g.w1 = std::cout.width(), g.w2 = std::cerr.width(), g.w3 = std::clog.width();
		g.s1 = std::cout.rdstate(), g.s2 = std::cerr.rdstate(), g.s3 = std::clog.rdstate();
		g.nh = std::get_new_handler();
		g.th = std::get_terminate();
		return g;
	}
	const char* differs(const Globals& o) const {
		if (mxcsr != o.mxcsr) return "the SSE control register";
		if (x87 != o.x87) return "the x87 control word";
		if (rounding != o.rounding) return "the rounding mode";
		if (locale != o.locale) return "the C++ locale";
		if (cLocale != o.cLocale) return "the C locale";
		if (f1 != o.f1 || f2 != o.f2 || f3 != o.f3 || p1 != o.p1 || p2 != o.p2 || p3 != o.p3 || w1 != o.w1 || w2 != o.w2 || w3 != o.w3 || s1 != o.s1 || s2 != o.s2 || s3 != o.s3) {
			return "the state of a standard stream";
		}
		if (nh != o.nh) return "the new handler";
		if (th != o.th) return "the terminate handler";
		return nullptr;
	}
};

// Leaves chosen bytes below the stack pointer, where the next call's locals will lie.
__attribute__((noinline)) void scribbleStack(unsigned how) {
	volatile unsigned char b[96 * 1024];
	switch (how % 4) {
		case 0: memset(const_cast<unsigned char*>(b), 0, sizeof b); break;
		case 1: memset(const_cast<unsigned char*>(b), 0xFF, sizeof b); break;
		case 2:
			for (size_t i = 0; i < sizeof b; i += 8) {
				const double d = 1e3 + double(i);
				memcpy(const_cast<unsigned char*>(b) + i, &d, 8);
			}
			break;
		default: {
			uint64_t s = how;
			for (size_t i = 0; i < sizeof b; i += 8) {
				s = s * 6364136223846793005ull + 1442695040888963407ull;
				const uint64_t x = (s >> 9 & 0x0FFFFFFF8FFFFFFFull) | 0x4040000042000000ull;
				memcpy(const_cast<unsigned char*>(b) + i, &x, 8);
			}
		}
	}
	asm volatile("" ::"r"(b) : "memory");
}

// Many closely related calls, made in one order in one process and in other orders in another one.
void orders(int phase) {
	const uint32_t n = range(3, thorough ? 40 : 24, "calls");
	const uint64_t place = draw(1 << 16, "placement");
	const bool overlaid = draw(2, "overlay");
	const uint32_t rounds = 1 + draw(3, "rounds");
	const uint64_t order = draw(1 << 16, "order.first");
	const auto specs = ops::drawVariations(n, 2);
	if (phase == 0) {
		// This phase has a process of its own.
		heap::Config c;
		c.fill = heap::FILL_ZERO;
		c.reuse = heap::REUSE_NEVER;
		heap::configure(c);
		std::vector<ops::Op> v;
		for (auto& s : specs) {
			v.push_back(ops::build(s, mix(place, 1000), overlaid));
		}
		std::vector<std::vector<unsigned char>> results(n);
		std::vector<uint64_t> allocs(n);
		std::vector<uint32_t> at(n);
		for (uint32_t i = 0; i < n; ++i) {
			at[i] = i;
		}
		Rng g(order);
		for (uint32_t i = n; i-- > 1;) {
			std::swap(at[i], at[g.below(i + 1)]);
		}
		for (uint32_t i : at) {
			ops::enter(v[i]);
			heap::resetCount();
			results[i] = ops::exec(v[i], 2);
			allocs[i] = heap::allocCount();
			ops::leave(v[i]);
		}
		for (uint32_t i = 0; i < n; ++i) {
			ops::boardResult(results[i], allocs[i]);
		}
		return;
	}
	heap::configure(drawHeap("heap"));
	count("fault.memory_contents_changed");
	std::vector<ops::Op> v;
	for (uint32_t i = 0; i < n; ++i) {
		v.push_back(ops::build(specs[i], mix(place, i), overlaid));
		distinct("operations", v.back().entry);
	}
	ops::readSolo(v);
	if (overlaid) {
		count("event.inputs_share_addresses");
	}
	count("event.histories_compared");
	uint64_t sig = mix(n, overlaid);
	for (uint32_t r = 0; r < rounds; ++r) {
		for (uint32_t i = 0; i < n; ++i) {
			const uint32_t k = r == 0 ? i : draw(n, "op"); // in order first, then at random
			const ops::Op& op = v[k];
			trace("call %u of round %u: %s", i, r, ops::describe(op).c_str());
			ops::enter(op);
			ops::compare(op, ops::exec(op, mix(place, 100 + i + r * n)), "history", "after other calls", "after the same calls in another order in another process");
			ops::checkInputs(op, "after a call");
			ops::leave(op);
			sig = mix(sig, mix(op.entry, k));
			count("event.calls");
		}
	}
	heap::checkIntegrity("at the end");
	nontrivial(sig);
	summary("%u variations in two orders, %u rounds (first: %s)", n, rounds, ops::describe(v[0]).c_str());
}

void run(int phase) {
	if (draw(3, "mode") != 0) {
		return orders(phase);
	}
	const uint32_t nOps = range(1, 8, "ops");
	const uint64_t place = draw(1 << 16, "placement");
	const auto specs = ops::drawSpecs(nOps, 3);
	if (phase == 0) {
		heap::Config c;
		c.fill = heap::FILL_ZERO;
		c.reuse = heap::REUSE_NEVER;
		heap::configure(c);
		ops::solo(specs);
		return;
	}
	heap::configure(drawHeap("heap"));
	std::vector<ops::Op> v;
	const bool overlaid = draw(2, "overlay");
	if (overlaid) {
		count("event.inputs_share_addresses");
	}
	for (uint32_t i = 0; i < nOps; ++i) {
		v.push_back(ops::build(specs[i], mix(place, i), overlaid));
		distinct("operations", v.back().entry);
	}
	ops::readSolo(v);
	uint64_t sig = nOps;
	const uint32_t steps = range(2, thorough ? 60 : 24, "steps");
	for (uint32_t i = 0; i < steps; ++i) {
		if (draw(2, "heap.change")) {
			heap::configure(drawHeap("heap"));
			count("fault.memory_contents_changed");
		}
		const uint32_t k = draw(nOps, "op");
		const ops::Op& op = v[k];
		ops::enter(op);
		const bool failing = draw(5, "fail") == 4;
		if (failing) {
			heap::armFault(1 + draw(std::max<uint64_t>(1, op.soloAllocs), "fail.at"), false, 0);
		}
		else {
			heap::disarmFault();
		}
		trace("call %u: %s%s", i, ops::describe(op).c_str(), failing ? " with a failing allocation" : "");
		const Globals before = Globals::now();
		const unsigned randSeed = 1 + draw(1000, "rand");
		std::srand(randSeed);
		const int expectRand = std::rand();
		std::srand(randSeed);
		scribbleStack(draw(8, "stack"));
		// What earlier code may have left: raised floating-point flags and a stale error number. No call may depend on
		// either, and raised flags are other code's to clear.
		const bool raised = draw(2, "flags.raised");
		_mm_setcsr(raised ? _mm_getcsr() | 0x3Fu : _mm_getcsr() & ~0x3Fu);
		errno = draw(2, "errno.stale") ? ERANGE : 0;
		if (raised) {
			count("fault.flags_left_raised");
		}
		bool reported = false;
		try {
			const auto r = ops::exec(op, mix(place, 100 + i));
			if (!heap::faultsFired()) {
				ops::compare(op, r, "history", "after other calls");
			}
		}
		catch (const std::bad_alloc&) {
			reported = true;
			if (!heap::faultsFired()) {
				fail("exception", "%s reports out of memory although no allocation failed", ops::describe(op).c_str());
			}
		}
		if (heap::faultsFired()) {
			count("fault.alloc_failed");
		}
		heap::disarmFault();
		const bool stillRaised = (_mm_getcsr() & 0x3Fu) == 0x3Fu;
		const int gotRand = std::rand();
		const Globals after = Globals::now();
		if (const char* what = after.differs(before)) {
			fail("global-state", "%s changes %s", ops::describe(op).c_str(), what);
		}
		if (raised && !stillRaised) {
			fail("global-state", "%s clears floating-point exception flags that were raised before", ops::describe(op).c_str());
		}
		if (gotRand != expectRand) {
			fail("global-state", "%s uses or reseeds the process-wide random number generator", ops::describe(op).c_str());
		}
		ops::checkInputs(op, "after a call");
		ops::leave(op);
		sig = mix(sig, op.entry * 4 + failing * 2 + reported);
		count("event.calls");
	}
	heap::checkIntegrity("at the end");
	nontrivial(sig);
	summary("%u calls over %u operations (first: %s)", steps, nOps, ops::describe(v[0]).c_str());
}

} // namespace

const Workload sim::workload{ "C11", 2, run };
