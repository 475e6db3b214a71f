// C08: transforms called by several simulated threads over histories of more lengths than the plan cache holds,
// with failing allocations, return what each returns when it is the only call ever made.
#include "../sim/alone.hpp"
#include "../sim/sched.hpp"
#include "../sim/util.hpp"

#include <dspbb/Math/FFT.hpp>

#include <memory>
#include <new>

using namespace sim;
using namespace dspbb;

namespace {

enum Kind { R2C_FULL, R2C_HALF, C2C, R2C_OUT_FULL, R2C_OUT_HALF, C2C_OUT, ROUND_FULL, ROUND_HALF, ROUND_C2C, INV_HALF_OUT, INV_C2C_OUT, KINDS };
const char* kindName[] = { "Fft(real, FULL)", "Fft(real, HALF)", "Fft(complex)", "Fft(out full, real)", "Fft(out half, real)", "Fft(out, complex)",
						   "Ifft(Fft(real, FULL), FULL)", "Ifft(Fft(real, HALF), HALF)", "Ifft(Fft(complex))", "Ifft(real out, half)", "Ifft(out, complex)" };

struct Result {
	std::vector<unsigned char> bytes;
	bool operator==(const Result&) const = default;
};

struct Op {
	Kind kind;
	bool dbl;
	uint32_t n;
	uint32_t seed;
	int data;
	Buf<unsigned char> in; // shared, read-only
	size_t solo = 0, soloLen = 0, soloLive = 0;
};

// What output buffers hold before a call: not the same as in the call made alone, as it must not matter.
unsigned outputsHeld = 0;

template <class C> Result blob(const C& c) {
	Result r;
	r.bytes.resize(c.size() * sizeof(*c.data()));
	memcpy(r.bytes.data(), c.data(), r.bytes.size());
	return r;
}

bool complexInput(Kind k) { return k == C2C || k == C2C_OUT || k == ROUND_C2C || k == INV_HALF_OUT || k == INV_C2C_OUT; }
size_t inputSize(const Op& op) { return op.kind == INV_HALF_OUT ? op.n / 2 + 1 : op.n; }

template <class R> void fillInput(Op& op) {
	if (complexInput(op.kind)) {
		using C = std::complex<R>;
		op.in = Buf<unsigned char>(inputSize(op) * sizeof(C));
		genInto(reinterpret_cast<C*>(op.in.data()), inputSize(op), op.seed, op.data);
	}
	else {
		op.in = Buf<unsigned char>(inputSize(op) * sizeof(R));
		genInto(reinterpret_cast<R*>(op.in.data()), inputSize(op), op.seed, op.data);
	}
	op.in.readOnly();
}

template <class R> void roundTrip(const Op& op, const R* x, const R* z, size_t n) {
	ld energy = 0, diff = 0;
	for (size_t i = 0; i < n; ++i) {
		energy += ld(x[i]) * x[i];
		diff += (ld(z[i]) - x[i]) * (ld(z[i]) - x[i]);
	}
	const ld tol = 60 * std::numeric_limits<R>::epsilon() * (std::log2(ld(n) + 1) + 1);
	if (!(std::sqrt(diff) <= tol * std::sqrt(energy) + std::numeric_limits<R>::min())) {
		fail("inverse", "%s of length %u (%s) differs from its input by %.3Lg, norm %.3Lg", kindName[op.kind], op.n, typeName<R>(), std::sqrt(diff), std::sqrt(energy));
	}
}

// One call of the library; everything it returns.
template <class R> Result execTyped(const Op& op) {
	using C = std::complex<R>;
	const R* rin = reinterpret_cast<const R*>(op.in.data());
	const C* cin = reinterpret_cast<const C*>(op.in.data());
	const size_t n = op.n;
	Result res;
	const SignalView<const R> rs(rin, n);
	const SignalView<const C> cs(cin, n);
	switch (op.kind) {
		case R2C_FULL: {
			Spectrum<C> out;
			{ heap::Scope s; out = Fft(rs, FFT_FULL); }
			res = blob(out);
			heap::Scope s;
			out = Spectrum<C>();
			break;
		}
		case R2C_HALF: {
			Spectrum<C> out;
			{ heap::Scope s; out = Fft(rs, FFT_HALF); }
			res = blob(out);
			break;
		}
		case C2C: {
			Spectrum<C> out;
			{ heap::Scope s; out = Fft(cs); }
			res = blob(out);
			break;
		}
		case R2C_OUT_FULL:
		case R2C_OUT_HALF: {
			const size_t m = op.kind == R2C_OUT_FULL ? n : n / 2 + 1;
			std::vector<C> out(m);
			poison(out.data(), m, outputsHeld);
			{ heap::Scope s; Fft(SpectrumView<C>(out.data(), m), rs); }
			res = blob(out);
			break;
		}
		case C2C_OUT: {
			std::vector<C> out(n);
			poison(out.data(), n, outputsHeld);
			{ heap::Scope s; Fft(SpectrumView<C>(out.data(), n), cs); }
			res = blob(out);
			break;
		}
		case ROUND_FULL: {
			Signal<R> out;
			{ heap::Scope s; out = Ifft(Fft(rs, FFT_FULL), FFT_FULL); }
			roundTrip(op, rin, out.data(), n);
			res = blob(out);
			break;
		}
		case ROUND_HALF: {
			Signal<R> out;
			{ heap::Scope s; out = Ifft(Fft(rs, FFT_HALF), FFT_HALF, n % 2 == 0); }
			roundTrip(op, rin, out.data(), n);
			res = blob(out);
			break;
		}
		case ROUND_C2C: {
			Signal<C> out;
			{ heap::Scope s; out = Ifft(Fft(cs)); }
			roundTrip(op, reinterpret_cast<const R*>(cin), reinterpret_cast<const R*>(out.data()), 2 * n);
			res = blob(out);
			break;
		}
		case INV_HALF_OUT: {
			std::vector<R> out(n);
			poison(out.data(), n, outputsHeld);
			{ heap::Scope s; Ifft(SignalView<R>(out.data(), n), SpectrumView<const C>(cin, n / 2 + 1)); }
			res = blob(out);
			break;
		}
		case INV_C2C_OUT: {
			std::vector<C> out(n);
			poison(out.data(), n, outputsHeld);
			{ heap::Scope s; Ifft(SignalView<C>(out.data(), n), SpectrumView<const C>(cin, n)); }
			res = blob(out);
			break;
		}
		default: error("kind");
	}
	return res;
}
Result exec(const Op& op) { return op.dbl ? execTyped<double>(op) : execTyped<float>(op); }

// Calls the library until it succeeds; only exhausted memory may make it fail.
Result execRetry(const Op& op, const char* who, uint32_t& failures, uint64_t& maxFailures) {
	for (unsigned attempt = 0;; ++attempt) {
		const uint64_t before = heap::faultsFired();
		try {
			return exec(op);
		}
		catch (const std::bad_alloc&) {
			if (heap::faultsFired() == 0) {
				fail("exception", "%s: %s of length %u reports exhausted memory although none was", who, kindName[op.kind], op.n);
			}
			count("fault.alloc_failed");
			++failures;
			trace("%s: out of memory", who);
			if (attempt >= maxFailures) {
				fail("exception", "%s: %s of length %u keeps failing for lack of memory after memory is available", who, kindName[op.kind], op.n);
			}
		}
		catch (const std::exception& e) {
			fail("exception", "%s: %s of length %u throws %s", who, kindName[op.kind], op.n, e.what());
		}
		(void)before;
	}
}

void compare(const Op& op, const Result& r, const char* who) {
	if (r.bytes.size() != op.soloLen || memcmp(r.bytes.data(), shm->board + op.solo, op.soloLen) != 0) {
		size_t at = 0;
		while (at < r.bytes.size() && at < op.soloLen && r.bytes[at] == shm->board[op.solo + at]) {
			++at;
		}
		fail("result", "%s: %s of length %u (%s) returns %zu bytes that differ from the call made alone (%zu bytes) at byte %zu", who, kindName[op.kind], op.n, op.dbl ? "double" : "float",
			 r.bytes.size(), op.soloLen, at);
	}
	ev(r.bytes.size());
}

uint32_t drawLength(const std::vector<uint32_t>& so_far, bool allowBig, bool huge) {
	if (huge && draw(3, "length.huge")) {
		// Long ones of every algorithm: powers of two, small factors, large prime factors.
		static const uint32_t l[] = { 1024, 2048, 4096, 8192, 1000, 3000, 4100, 6000, 5040, 1031, 2053, 4099, 2062, 1025, 2049, 4095 };
		return l[draw(sizeof l / sizeof l[0], "length")];
	}
	if (!so_far.empty() && draw(3, "length.related") == 2) {
		// Lengths that an imprecise cache key would confuse.
		const uint32_t base = so_far[draw(so_far.size(), "length.base")];
		static const int32_t d[] = { 1, -1, 2, 16, 32, 64, 128, 256, 512, 1024 };
		const int64_t n = int64_t(base) + d[draw(allowBig ? 10 : 8, "length.delta")];
		if (n >= 1 && n <= 3000) {
			return uint32_t(n);
		}
	}
	switch (draw(6, "length.kind")) {
		case 0: return range(1, 8, "length");
		case 1: return range(1, 40, "length");
		case 2: return 1u << draw(8, "length");
		case 3: return range(1, 130, "length");
		case 4: { // primes large enough for the chirp-based algorithm
			static const uint32_t p[] = { 53, 59, 67, 101, 103, 127, 131, 149, 151, 211, 251, 257, 263, 331, 409, 521 };
			return p[draw(allowBig ? 16 : 10, "length")];
		}
		default: return range(1, allowBig ? 700 : 260, "length");
	}
}

void run(int phase) {
	heap::Config hc = drawHeap("heap");
	heap::configure(hc);
	const int scenario = int(draw(4, "scenario")); // 0-2 threads, 3 one long history
	uint32_t nOps = scenario == 3 ? range(2, 24, "ops") : range(1, draw(3, "ops.many") == 2 ? 30 : 10, "ops");
	const bool allowBig = draw(4, "big") == 3;
	// More lengths of one kind than any reasonable cache holds, so that plans are evicted while in use.
	const bool huge = draw(10, "huge") == 9;
	const bool pressure = !huge && scenario < 3 && draw(4, "pressure") == 3;
	const bool oneType = draw(2, "one.type") == 1 || pressure;
	const bool fewLengths = draw(4, "few.lengths") == 3 && !pressure;
	const Kind k0 = Kind(draw(KINDS, "kind"));
	const bool d0 = draw(2, "precision");
	std::vector<std::unique_ptr<Op>> ops;
	std::vector<uint32_t> lengths;
	if (huge) {
		nOps = std::min<uint32_t>(nOps, 4);
	}
	if (pressure) {
		nOps = range(18, 40, "ops.pressure");
	}
	for (uint32_t i = 0; i < nOps; ++i) {
		auto op = std::make_unique<Op>();
		op->kind = oneType ? k0 : Kind(draw(KINDS, "kind"));
		op->dbl = oneType ? d0 : bool(draw(2, "precision"));
		op->n = fewLengths && lengths.size() >= 2 ? lengths[draw(lengths.size(), "length.again")] : pressure ? 1 + 2 * i + draw(2, "length") : drawLength(lengths, allowBig, huge);
		lengths.push_back(op->n);
		op->seed = draw(1 << 12, "data");
		op->data = int(draw(DATA_KINDS, "data.kind"));
		op->dbl ? fillInput<double>(*op) : fillInput<float>(*op);
		ops.push_back(std::move(op));
	}
	if (phase == 0) {
		// Every call alone in a process that never made another.
		for (auto& op : ops) {
			alone([&] {
				const Result r = exec(*op);
				const uint64_t live = heap::liveBytes();
				const uint64_t head[2] = { r.bytes.size(), live };
				boardPut(head, sizeof head);
				boardPut(r.bytes.data(), r.bytes.size());
			});
		}
		return;
	}
	outputsHeld = 1;
	size_t at = 0;
	uint64_t maxPlan = 0;
	for (auto& op : ops) {
		uint64_t head[2];
		memcpy(head, shm->board + at, sizeof head);
		op->solo = at + sizeof head;
		op->soloLen = head[0];
		op->soloLive = head[1];
		at = op->solo + op->soloLen;
		maxPlan = std::max(maxPlan, op->soloLive);
	}
	uint64_t sig = mix(scenario, nOps);
	uint64_t maxFail = 1;
	uint32_t failures = 0;

	auto armFault = [&](uint64_t span) {
		if (draw(2, "fault") == 1) {
			heap::armFault(1 + draw(span, "fault.at"), false, 0);
		}
		else {
			heap::disarmFault();
		}
	};

	// What the process did before.
	const uint32_t warm = scenario == 3 ? 0 : draw(2, "warm") ? draw(24, "warm.calls") : 0;
	for (uint32_t i = 0; i < warm; ++i) {
		const Op& op = *ops[draw(ops.size(), "warm.op")];
		compare(op, execRetry(op, "warm-up", failures, maxFail), "warm-up");
	}

	if (scenario == 3) {
		// One thread, many calls; memory that stays behind must not grow with the number of lengths seen.
		const uint32_t calls = range(10, huge ? 20 : thorough ? 400 : 150, "calls");
		for (uint32_t i = 0; i < calls; ++i) {
			if (i % 16 == 0) {
				armFault(60);
			}
			const Op& op = *ops[draw(ops.size(), "call")];
			trace("call %u: %s length %u %s", i, kindName[op.kind], op.n, op.dbl ? "double" : "float");
			compare(op, execRetry(op, "history", failures, maxFail), "history");
			sig = mix(sig, op.n * 16 + op.kind);
		}
		heap::disarmFault();
		if (draw(2, "retention") == 1) {
			count("event.retention_history");
			Op probe;
			probe.kind = k0;
			probe.dbl = d0;
			probe.seed = 1;
			probe.data = 1;
			const bool longOnes = draw(4, "retention.long") == 3;
			const uint32_t base = longOnes ? range(200, 1500, "retention.base") : range(8, 60, "retention.base");
			const uint32_t span = longOnes ? range(250, 400, "retention.span") : range(100, thorough ? 400 : 200, "retention.span");
			const bool down = draw(2, "retention.order");
			probe.n = base + span;
			d0 ? fillInput<double>(probe) : fillInput<float>(probe);
			const uint64_t live0 = heap::liveBytes();
			uint64_t largest = 0;
			for (uint32_t i = 0; i < span; ++i) {
				Op op;
				op.kind = k0;
				op.dbl = d0;
				op.n = down ? base + span - i : base + i;
				op.data = 1;
				op.in = probe.in;
				const uint64_t b = heap::liveBytes();
				(void)exec(op);
				const uint64_t a = heap::liveBytes();
				largest = std::max<uint64_t>(largest, a > b ? a - b : 0);
			}
			const uint64_t live1 = heap::liveBytes();
			// Any cache of up to 64 plans of one kind passes; one that keeps everything does not.
			if (live1 > live0 && live1 - live0 > 64 * largest) {
				fail("retention", "after transforms of %u lengths, %llu bytes stay allocated; the largest single one leaves %llu", span, (unsigned long long)(live1 - live0), (unsigned long long)largest);
			}
			ev(live1);
		}
		nontrivial(sig);
	}
	else {
		sched::Options so;
		so.everyAccess = draw(2, "sched.mode") == 1;
		so.maxExp = so.everyAccess ? 6 + draw(9, "sched.exp") : 1 + draw(8, "sched.exp");
		so.maxSwitches = thorough ? 4000 : 1500;
		const uint32_t nThreads = range(2, 4, "threads");
		struct Call { int op; };
		std::vector<std::vector<int>> plan(nThreads);
		for (auto& p : plan) {
			const bool churn = pressure && draw(2, "churn") == 1;
			const uint32_t calls = churn ? range(16, 40, "calls") : range(1, 6, "calls");
			if (churn) {
				const uint32_t from = draw(ops.size(), "churn.from");
				for (uint32_t i = 0; i < calls; ++i) {
					p.push_back(int((from + i) % ops.size()));
				}
				count("event.cache_churn");
				continue;
			}
			const bool same = draw(3, "same") == 2;
			const int first = int(draw(ops.size(), "call"));
			for (uint32_t i = 0; i < calls; ++i) {
				p.push_back(same ? first : int(draw(ops.size(), "call")));
			}
			sig = mix(sig, ops[size_t(p[0])]->n * 64 + calls);
		}
		armFault(draw(2, "fault.span") ? 12 : 150);
		sched::begin(so);
		std::vector<std::string> names(nThreads);
		for (uint32_t t = 0; t < nThreads; ++t) {
			names[t] = "thread " + std::to_string(t + 1);
			sched::spawn([&, t] {
				for (int i : plan[t]) {
					const Op& op = *ops[size_t(i)];
					trace("%s: %s length %u %s", names[t].c_str(), kindName[op.kind], op.n, op.dbl ? "double" : "float");
					compare(op, execRetry(op, names[t].c_str(), failures, maxFail), names[t].c_str());
					trace("%s: done", names[t].c_str());
				}
			});
		}
		sched::run();
		const auto st = sched::end();
		heap::disarmFault();
		if (failures > heap::faultsFired()) {
			fail("exception", "one failed allocation made %u calls fail", failures);
		}
		count("sched.points", st.points);
		count("sched.accesses_checked", st.checked);
		count("sched.synchronisation_operations", st.sync);
		count("sched.blocked_on_lock", st.blocked);
		count("fault.preemption", st.preemptions);
		distinct("interleavings", st.signature);
		samples(st.points);
		if (st.preemptions) {
			nontrivial(mix(sig, st.signature));
		}
		summary("%u threads over %u transforms (first: %s, length %u), %u warm-up calls, %llu preemptions in %llu points", nThreads, nOps, kindName[ops[0]->kind], ops[0]->n, warm,
				(unsigned long long)st.preemptions, (unsigned long long)st.points);
	}
	if (scenario == 3) {
		summary("history of transforms over %u kinds and lengths (first: %s, length %u)", nOps, kindName[ops[0]->kind], ops[0]->n);
	}
	heap::checkIntegrity("after the run");
	const auto leak = heap::findLeaks();
	if (leak.blocks) {
		fail("leak", "%llu blocks (%llu bytes) are no longer reachable; the first has %zu bytes", (unsigned long long)leak.blocks, (unsigned long long)leak.bytes, leak.firstSize);
	}
	// Whatever happened, later calls are right.
	const uint32_t after = range(1, 4, "after");
	for (uint32_t i = 0; i < after; ++i) {
		const Op& op = *ops[draw(ops.size(), "after.op")];
		compare(op, execRetry(op, "afterwards", failures, maxFail), "afterwards");
	}
}

} // namespace

const Workload sim::workload{ "C08", 2, run };
