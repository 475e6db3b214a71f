// C01: FIR filtering of a stream in blocks equals filtering it in one piece, whatever the block sizes, the engine
// used for each block, failed attempts and restarts from checkpoints.
#include "../sim/util.hpp"

#include <dspbb/Filtering/FIR/Filter.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>

using namespace sim;
using namespace dspbb;

#define WORKLOAD_PARTS 7

namespace {

template <class T, class U>
struct Stream {
	using R = multiplies_result_t<T, U>;
	std::vector<T> x;
	Buf<T> xb;
	size_t filter;
	Buf<T> state;
	size_t pos = 0;
	std::vector<T> ckState;
	size_t ckPos = 0;
	std::vector<cld> ref;
	std::vector<ld> absRef;
	ld X = 0;
	int blockMode = 0;
	uint32_t blockSize = 1;
	std::vector<R> y;
	std::vector<uint8_t> have;
};

template <class T, class U>
void runTyped() {
	using R = multiplies_result_t<T, U>;
	using SV = BasicSignalView<const T, TIME_DOMAIN>;
	using UV = BasicSignalView<const U, TIME_DOMAIN>;
	using MV = BasicSignalView<T, TIME_DOMAIN>;
	using RV = BasicSignalView<R, TIME_DOMAIN>;

	heap::Config heapConfig = drawHeap("heap");
	heap::configure(heapConfig);
	// Rarely a stream so long that 16-bit counters, and rates of growth, would show.
	const bool lengthy = draw(150, "lengthy") == 149;
	const uint32_t numFilters = 1 + draw(2, "filters");
	const uint32_t numStreams = lengthy ? 1 : 1 + draw(3, "streams");
	const bool big = draw(12, "big") == 11;
	if (lengthy) {
		count("event.lengthy");
		heapConfig.reuse = heap::REUSE_LIFO; // a long history of fresh memory would exceed the simulated machine
		heap::configure(heapConfig);
	}
	std::vector<std::vector<U>> filters;
	std::vector<Buf<U>> filterBufs;
	std::vector<ld> filterMax;
	for (uint32_t i = 0; i < numFilters; ++i) {
		const uint32_t n = drawSize(1, lengthy ? 24 : big ? 1300 : 300, "filter.length");
		filters.push_back(gen<U>(n, draw(1 << 16, "filter.data"), int(draw(DATA_KINDS, "filter.kind"))));
		filterBufs.push_back(bufOf(filters.back(), draw(2, "filter.place")));
		filterMax.push_back(maxAbs(filters.back()));
		trace("filter %u: %u taps of %s", i, n, typeName<U>());
	}
	std::vector<Stream<T, U>> st(numStreams);
	uint64_t sig = 0;
	for (uint32_t i = 0; i < numStreams; ++i) {
		auto& s = st[i];
		s.filter = draw(numFilters, "stream.filter");
		const auto& h = filters[s.filter];
		const uint32_t len = lengthy ? range(65530, 140000, "stream.length") : drawSize(1, big ? 6000 : 1200, "stream.length");
		s.x = gen<T>(len, draw(1 << 16, "stream.data"), int(draw(DATA_KINDS, "stream.kind")));
		s.xb = bufOf(s.x, draw(2, "stream.place"));
		s.X = maxAbs(s.x);
		s.state = Buf<T>(h.size() - 1);
		std::fill(s.state.begin(), s.state.end(), T(0));
		s.ckState.assign(h.size() - 1, T(0));
		refConv(s.x, h, s.ref, s.absRef);
		s.blockMode = int(draw(5, "stream.blocks"));
		s.blockSize = drawSize(1, 700, "stream.block");
		s.y.assign(len, R(0));
		s.have.assign(len, 0);
		sig = mix(sig, mix(len, h.size()));
		trace("stream %u: %u samples of %s through filter %zu", i, len, typeName<T>(), s.filter);
	}
	const uint32_t pOla = draw(3, "mix.ola");   // 0 conv only, 1 mixed, 2 ola only
	const uint32_t pFault = draw(4, "mix.fault");
	const uint32_t pCrash = draw(4, "mix.crash");
	const uint32_t poisonKind = draw(3, "poison");
	unsigned steps = 0, done = 0, faults = 0, crashes = 0, empties = 0, shorts = 0;
	while (done < numStreams) {
		if (++steps > 4000) {
			break;
		}
		uint32_t si = draw(numStreams, "step.stream");
		while (st[si].pos >= st[si].x.size()) {
			si = (si + 1) % numStreams;
		}
		auto& s = st[si];
		const auto& h = filters[s.filter];
		const auto& hb = filterBufs[s.filter];
		if (pCrash && flip(pCrash, 40, "step.crash")) {
			// The process dies: only the last checkpoint (position and filter state) survives, in new memory.
			Buf<T> fresh(h.size() - 1);
			std::copy(s.ckState.begin(), s.ckState.end(), fresh.begin());
			s.state = fresh;
			s.pos = s.ckPos;
			++crashes;
			count("fault.crash_restart");
			trace("stream %u: crash, restart at sample %zu", si, s.pos);
			continue;
		}
		if (flip(1, 6, "step.checkpoint")) {
			s.ckState.assign(s.state.begin(), s.state.end());
			s.ckPos = s.pos;
			count("event.checkpoint");
		}
		const size_t remaining = s.x.size() - s.pos;
		uint32_t n;
		switch (s.blockMode) {
			case 0: n = s.blockSize; break;
			case 1: n = drawSize(0, uint32_t(remaining), "step.block"); break;
			case 2: n = draw(uint32_t(std::min<size_t>(remaining, h.size() + 2)) + 1, "step.block"); break;
			case 3: n = draw(3, "step.block"); break;
			default: n = uint32_t(remaining); break;
		}
		if (steps > 300) {
			n = std::max<uint32_t>(n, uint32_t(remaining / 4 + 1)); // bounded runs
		}
		n = uint32_t(std::min<size_t>(n, remaining));
		if (n == 0) {
			++empties;
			count("event.empty_block");
		}
		if (n && n < h.size() - 1) {
			++shorts;
			count("event.block_shorter_than_state");
		}
		// The block itself is handed over in its own guarded memory.
		Buf<T> in(n, draw(2, "step.place"));
		std::copy(s.x.begin() + ptrdiff_t(s.pos), s.x.begin() + ptrdiff_t(s.pos + n), in.begin());
		in.readOnly();
		Buf<R> out(n, draw(2, "step.place"));
		poison(out.data(), n, poisonKind);
		const bool ola = pOla == 2 || (pOla == 1 && draw(2, "step.engine"));
		const bool returning = draw(4, "step.overload") == 3;
		size_t chunk = 0;
		if (ola && draw(3, "step.chunk") == 2) {
			chunk = 2 * h.size() - 1 + drawSize(0, 600, "step.chunksize");
		}
		const bool plain = !chunk && draw(2, "step.plain");
		const bool inject = pFault && ola && flip(pFault, 8, "step.fault");
		uint64_t failAt = 0;
		if (inject) {
			failAt = 1 + drawSize(0, 60, "step.failat");
		}
		std::vector<T> before(s.state.begin(), s.state.end());
		MV stateView(s.state.begin(), s.state.size());
		SV inView(in.begin(), size_t(n));
		UV hView(hb.begin(), hb.size());
		RV outView(out.begin(), size_t(n));
		std::vector<R> result;
		for (int attempt = 0;; ++attempt) {
			bool failed = false;
			uint64_t fired = 0;
			{
				heap::Scope scope;
				if (attempt == 0 && failAt) {
					heap::armFault(failAt, draw(2, "step.persistent"));
				}
				else {
					heap::disarmFault();
				}
				try {
					if (returning) {
						if (ola) {
							auto r = plain ? Filter(inView, hView, stateView, FILTER_OLA) : Filter(inView, hView, stateView, FILTER_OLA, chunk);
							heap::disarmFault();
							if (r.size() == n) {
								std::copy(r.begin(), r.end(), out.begin());
							}
							else {
								fail("wrong-length", "block of %u samples gave %zu outputs", n, r.size());
							}
						}
						else {
							auto r = Filter(inView, hView, stateView, FILTER_CONV);
							if (r.size() == n) {
								std::copy(r.begin(), r.end(), out.begin());
							}
							else {
								fail("wrong-length", "block of %u samples gave %zu outputs", n, r.size());
							}
						}
					}
					else if (ola) {
						plain ? Filter(outView, inView, hView, stateView, FILTER_OLA) : Filter(outView, inView, hView, stateView, FILTER_OLA, chunk);
					}
					else {
						Filter(outView, inView, hView, stateView, FILTER_CONV);
					}
				}
				catch (const std::bad_alloc&) {
					failed = true;
				}
				fired = attempt == 0 && failAt ? heap::faultsFired() : 0;
				heap::disarmFault();
			}
			if (failed && !fired) {
				fail("spurious-failure", "a block of %u samples through %zu taps failed although memory was available", n, h.size());
			}
			if (!failed) {
				break;
			}
			++faults;
			count("fault.alloc_failed");
			trace("stream %u: allocation %llu failed while filtering block at %zu", si, (unsigned long long)failAt, s.pos);
			if (memcmp(before.data(), s.state.data(), before.size() * sizeof(T)) != 0) {
				fail("state-damaged", "a failed block changed the carried filter state (block %u, %zu taps)", n, h.size());
			}
			poison(out.data(), n, poisonKind + 1);
		}
		trace("stream %u: block [%zu,%zu) %s%s chunk %zu", si, s.pos, s.pos + n, ola ? "overlap-add" : "convolution", returning ? " (returning)" : "", chunk);
		evBytes(out.data(), n * sizeof(R));
		ev(mix(si, n));
		count(ola ? "op.block_ola" : "op.block_conv");
		samples(n);
		for (size_t i = 0; i < n; ++i) {
			const size_t at = s.pos + i;
			const ld tol = convTol<RealT<R>>(s.absRef[at], h.size(), s.x.size(), chunk, s.X, filterMax[s.filter]);
			const ld err = std::abs(toLd(out[i]) - s.ref[at]);
			if (!(err <= tol)) {
				fail("stream-mismatch", "%s x %s, %zu taps, stream of %zu: block at %zu of %u samples (%s, chunk %zu): output %zu is %s, one-shot convolution gives %s (allowed error %.3Lg)",
					 typeName<T>(), typeName<U>(), h.size(), s.x.size(), s.pos, n, ola ? "overlap-add" : "convolution", chunk, at, show(out[i]).c_str(), showLd(s.ref[at]).c_str(), tol);
			}
			s.have[at] = 1;
		}
		s.pos += n;
		sig = mix(sig, mix(si * 2 + ola, n));
		if (s.pos >= s.x.size()) {
			++done;
			for (auto hv : s.have) {
				if (!hv) {
					fail("lost-output", "a sample of the stream was never produced");
				}
			}
		}
	}
	if (steps > 1 && done) {
		nontrivial(sig);
	}
	distinct("fault_combination", mix(mix(faults, crashes), mix(empties > 0, mix(shorts > 0, numStreams))));
	summary("%s x %s, %u stream(s), %u filter(s), first: %zu samples x %zu taps; %u steps, %u failed allocations, %u crash/restarts, %u empty and %u short blocks", typeName<T>(), typeName<U>(), numStreams, numFilters, st[0].x.size(), filters[st[0].filter].size(), steps, faults, crashes, empties, shorts);
}

} // namespace

// PART 0 is the dispatcher; the others instantiate one pair of sample types each (compiled in parallel).
#define TYPE_PARTS(X) \
	X(1, double, double) \
	X(2, float, float) \
	X(3, std::complex<float>, float) \
	X(4, std::complex<double>, std::complex<double>) \
	X(5, float, std::complex<float>) \
	X(6, std::complex<double>, double)

#define DECLARE(n, T, U) void part##n();
TYPE_PARTS(DECLARE)

#if PART == 0
static void run(int) {
	switch (1 + draw(6, "types")) {
#define CASE(n, T, U) case n: return part##n();
		TYPE_PARTS(CASE)
	}
}
const Workload sim::workload{ "C01", 1, run };
#elif PART == 1
void part1() { runTyped<double, double>(); }
#elif PART == 2
void part2() { runTyped<float, float>(); }
#elif PART == 3
void part3() { runTyped<std::complex<float>, float>(); }
#elif PART == 4
void part4() { runTyped<std::complex<double>, std::complex<double>>(); }
#elif PART == 5
void part5() { runTyped<float, std::complex<float>>(); }
#elif PART == 6
void part6() { runTyped<std::complex<double>, double>(); }
#endif
