// C09: operations running concurrently on separate outputs and shared inputs return what each returns alone.
#include "ops.hpp"

#include "../sim/sched.hpp"

using namespace sim;

namespace {

void run(int phase) {
	heap::configure(drawHeap("heap"));
	// Many short runs in which small operations are called for the first time by several threads at once.
	const bool burst = draw(2, "burst") == 1;
	const uint32_t nOps = burst ? range(1, 2, "ops") : range(1, thorough ? 8 : 5, "ops");
	const uint64_t place = draw(1 << 16, "placement");
	const auto specs = ops::drawSpecs(nOps, burst ? 1 : thorough ? 3 : 2);
	if (phase == 0) {
		ops::solo(specs);
		return;
	}
	std::vector<ops::Op> v;
	for (uint32_t i = 0; i < nOps; ++i) {
		v.push_back(ops::build(specs[i], mix(place, i)));
		distinct("operations", v.back().entry);
	}
	ops::readSolo(v);
	uint64_t sig = nOps;
	uint32_t failures = 0;

	const auto call = [&](const ops::Op& op, uint64_t where, const char* who) {
		for (;;) {
			try {
				const auto r = ops::exec(op, where);
				if (heap::faultsFired() && ops::sameRejection(op, r)) {
					count("event.rejected_despite_failure");
				}
				else {
					ops::compare(op, r, "interference", who);
				}
				return;
			}
			catch (const std::bad_alloc&) {
				++failures;
				count("event.call_failed_and_repeated");
				if (failures > 1) {
					fail("exception", "%s: %s reports out of memory although only one allocation failed", who, ops::describe(op).c_str());
				}
			}
		}
	};

	// Most runs start with the very first calls of the process.
	const uint32_t warm = !burst && draw(4, "warm") == 3 ? 1 + draw(6, "warm.calls") : 0;
	for (uint32_t i = 0; i < warm; ++i) {
		const uint32_t k = draw(nOps, "warm.op");
		call(v[k], mix(place, 1000 + i), "before the threads start");
	}

	sched::Options so;
	so.everyAccess = draw(burst ? 4 : 2, "sched.mode") == 1;
	so.maxExp = so.everyAccess ? 5 + draw(10, "sched.exp") : (burst ? 0 : 1) + draw(8, "sched.exp");
	so.maxSwitches = thorough ? 4000 : 1500;
	const uint32_t nThreads = range(2, 4, "threads");
	const bool sameFirst = draw(burst ? 4 : 2, "same.first") >= 1; // all threads start with the same operation
	std::vector<std::vector<uint32_t>> plan(nThreads);
	for (auto& p : plan) {
		const uint32_t calls = burst ? range(1, 2, "calls") : range(1, thorough ? 6 : 4, "calls");
		const bool same = draw(3, "same") == 2;
		for (uint32_t i = 0; i < calls; ++i) {
			p.push_back(i == 0 && sameFirst ? 0 : same && i ? p[0] : draw(nOps, "call"));
		}
		sig = mix(sig, v[p[0]].entry * 64 + calls);
	}
	if (draw(3, "fault") == 2) {
		heap::armFault(1 + draw(draw(2, "fault.span") ? 12 : 200, "fault.at"), false, 0);
	}
	sched::begin(so);
	std::vector<std::string> names(nThreads);
	for (uint32_t t = 0; t < nThreads; ++t) {
		names[t] = "thread " + std::to_string(t + 1);
		sched::spawn([&, t] {
			for (size_t i = 0; i < plan[t].size(); ++i) {
				const ops::Op& op = v[plan[t][i]];
				trace("%s: %s", names[t].c_str(), ops::describe(op).c_str());
				call(op, mix(place, 2000 + t * 64 + i), names[t].c_str());
				trace("%s: done", names[t].c_str());
			}
		});
	}
	sched::run();
	const auto st = sched::end();
	if (heap::faultsFired()) {
		count("fault.alloc_failed", heap::faultsFired());
	}
	if (failures > heap::faultsFired()) {
		fail("exception", "a call reports out of memory although no allocation failed");
	}
	heap::disarmFault();
	count("sched.points", st.points);
	count("sched.accesses_checked", st.checked);
	count("sched.synchronisation_operations", st.sync);
	count("sched.blocked_on_lock", st.blocked);
	count("fault.preemption", st.preemptions);
	distinct("interleavings", st.signature);
	samples(st.points);
	for (auto& op : v) {
		ops::checkInputs(op, "after the threads");
	}
	heap::checkIntegrity("after the run");
	const auto leak = heap::findLeaks();
	if (leak.blocks) {
		fail("leak", "%llu blocks (%llu bytes) are no longer reachable; the first has %zu bytes", (unsigned long long)leak.blocks, (unsigned long long)leak.bytes, leak.firstSize);
	}
	const uint32_t after = burst ? draw(2, "after") : draw(3, "after");
	for (uint32_t i = 0; i < after; ++i) {
		const uint32_t k = draw(nOps, "after.op");
		call(v[k], mix(place, 3000 + i), "after the threads");
	}
	if (st.preemptions) {
		nontrivial(mix(sig, st.signature));
	}
	summary("%u threads over %u operations (first: %s), %u calls before, %llu preemptions in %llu points", nThreads, nOps, ops::describe(v[0]).c_str(), warm, (unsigned long long)st.preemptions,
			(unsigned long long)st.points);
}

} // namespace

const Workload sim::workload{ "C09", 2, run };
