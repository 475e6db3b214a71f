// C10: a failing allocation inside any operation fails that call cleanly.
#include "ops.hpp"

using namespace sim;

namespace {

void leaks(const ops::Op& op, const char* when) {
	heap::checkIntegrity(when);
	const auto leak = heap::findLeaks();
	if (leak.blocks) {
		fail("leak", "%s %s: %llu blocks (%llu bytes) are no longer reachable; the first has %zu bytes", ops::describe(op).c_str(), when, (unsigned long long)leak.blocks, (unsigned long long)leak.bytes,
			 leak.firstSize);
	}
}

void run(int phase) {
	heap::configure(drawHeap("heap"));
	const uint32_t nOps = range(1, 4, "ops");
	const uint64_t place = draw(1 << 16, "placement");
	const auto specs = ops::drawSpecs(nOps, thorough ? 3 : 2);
	if (phase == 0) {
		ops::solo(specs);
		return;
	}
	std::vector<ops::Op> v;
	for (uint32_t i = 0; i < nOps; ++i) {
		v.push_back(ops::build(specs[i], mix(place, i)));
		distinct("operations", v.back().entry);
	}
	ops::readSolo(v);
	uint64_t sig = nOps;
	uint64_t turn = 0, hit = 0;

	// Returns whether the fault fired.
	const auto faulted = [&](const ops::Op& op, uint64_t at, bool persistent, size_t minBytes) {
		trace("%s with allocation %llu%s failing", ops::describe(op).c_str(), (unsigned long long)at, persistent ? " and all later ones" : "");
		heap::armFault(at, persistent, minBytes);
		bool reported = false;
		std::vector<unsigned char> r;
		try {
			r = ops::exec(op, mix(place, ++turn));
		}
		catch (const std::bad_alloc&) {
			reported = true;
		}
		const uint64_t fired = heap::faultsFired();
		heap::disarmFault();
		ev(fired);
		ev(reported);
		if (fired) {
			++hit;
			count("fault.alloc_failed", fired);
			if (persistent) {
				count("fault.memory_exhausted");
			}
			distinct("failed allocations by operation", mix(op.entry, at));
		}
		if (reported) {
			count("event.call_reported_out_of_memory");
			if (!fired) {
				fail("exception", "%s reports out of memory although no allocation failed", ops::describe(op).c_str());
			}
		}
		else if (fired && ops::sameRejection(op, r)) {
			// Parameters are rejected as without the failure; the message may have had no room.
			count("event.rejected_despite_failure");
		}
		else {
			ops::compare(op, r, "wrong-result", "with a failed allocation, but no error reported");
		}
		ops::checkInputs(op, "after a failed call");
		leaks(op, "after a failed allocation");
		return fired > 0;
	};
	const auto clean = [&](const ops::Op& op, const char* when) {
		std::vector<unsigned char> r;
		try {
			r = ops::exec(op, mix(place, ++turn));
		}
		catch (const std::bad_alloc&) {
			fail("exception", "%s: %s reports out of memory although no allocation failed", when, ops::describe(op).c_str());
		}
		ops::compare(op, r, "wrong-result", when);
	};

	const uint32_t steps = range(1, thorough ? 16 : 8, "steps");
	for (uint32_t i = 0; i < steps; ++i) {
		const ops::Op& op = v[draw(nOps, "op")];
		const uint64_t allocs = std::max<uint64_t>(1, op.soloAllocs);
		const uint32_t mode = draw(5, "mode");
		sig = mix(sig, op.entry * 8 + mode);
		switch (mode) {
			case 0: // an untroubled call
				clean(op, "without a failure");
				leaks(op, "after a call");
				break;
			case 1:
			case 2: { // one allocation, or all from there on
				const uint64_t at = 1 + draw(allocs, "fault.at");
				faulted(op, at, mode == 2, 0);
				if (draw(2, "repeat")) {
					clean(op, "repeated with memory available");
				}
				break;
			}
			case 3: { // large requests only
				const size_t min = size_t(16) << draw(10, "fault.size");
				faulted(op, 1, true, min);
				if (draw(2, "repeat")) {
					clean(op, "repeated with memory available");
				}
				break;
			}
			default: { // every allocation of the call in turn, without success in between, until it gets through
				const uint64_t cap = thorough ? 200 : 60;
				const uint64_t first = 1 + draw(allocs, "fault.from");
				count("event.allocation_sweep");
				for (uint64_t at = first; at < first + cap; ++at) {
					if (!faulted(op, at, false, 0)) {
						break;
					}
				}
				clean(op, "after its allocations failed one by one");
				break;
			}
		}
		if (draw(3, "another") == 2) {
			clean(v[draw(nOps, "other")], "after another call failed");
		}
	}
	for (auto& op : v) {
		clean(op, "at the end");
		ops::checkInputs(op, "at the end");
	}
	heap::checkIntegrity("at the end");
	if (hit) {
		nontrivial(mix(sig, hit));
	}
	summary("%u steps over %u operations (first: %s), %llu calls with failing allocations", steps, nOps, ops::describe(v[0]).c_str(), (unsigned long long)hit);
}

} // namespace

const Workload sim::workload{ "C10", 2, run };
