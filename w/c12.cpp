// C12: no operation touches memory outside what it was given.
#include "ops.hpp"

using namespace sim;

namespace {

void run(int) {
	heap::configure(drawHeap("heap"));
	const uint32_t nOps = range(1, 4, "ops");
	const uint64_t place = draw(1 << 16, "placement");
	const auto specs = ops::drawSpecs(nOps, 3);
	std::vector<ops::Op> v;
	for (uint32_t i = 0; i < nOps; ++i) {
		v.push_back(ops::build(specs[i], mix(place, i)));
		distinct("operations", v.back().entry);
	}
	uint64_t sig = nOps;
	const uint32_t steps = range(1, thorough ? 24 : 10, "steps");
	for (uint32_t i = 0; i < steps; ++i) {
		const ops::Op& op = v[draw(nOps, "op")];
		const uint32_t failing = draw(4, "fail");
		if (failing == 3) {
			heap::armFault(1 + draw(draw(2, "fail.span") ? 4 : 40, "fail.at"), draw(2, "fail.persistent"), 0);
		}
		const uint64_t where = draw(1 << 16, "place");
		trace("call %u: %s, placement %llu%s", i, ops::describe(op).c_str(), (unsigned long long)where, failing == 3 ? ", a failing allocation" : "");
		try {
			const auto r = ops::exec(op, where);
			ev(hashBytes(r.data(), r.size()));
			samples(r.size() / 4);
		}
		catch (const std::bad_alloc&) {
			ev(1);
		}
		if (heap::faultsFired()) {
			count("fault.alloc_failed", heap::faultsFired());
		}
		heap::disarmFault();
		heap::checkIntegrity("after a call");
		ops::checkInputs(op, "after a call");
		count("fault.buffers_placed_against_guard_pages");
		sig = mix(sig, mix(op.entry * 4 + failing, where));
	}
	nontrivial(sig);
	summary("%u calls over %u operations (first: %s)", steps, nOps, ops::describe(v[0]).c_str());
}

} // namespace

const Workload sim::workload{ "C12", 1, run };
