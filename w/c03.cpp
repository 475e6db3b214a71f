// C03: interpolation of a stream in any number of resumed calls equals one-shot interpolation.
#include "../sim/util.hpp"

#include <dspbb/Filtering/Polyphase.hpp>
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>

using namespace sim;
using namespace dspbb;

namespace {

template <class T>
struct Stream {
	std::vector<T> x;
	std::vector<cld> ref;
	std::vector<ld> absRef;
	size_t filter = 0;
	size_t base = 0;      // absolute index of the first retained input sample
	size_t delivered = 0; // absolute number of input samples that have arrived
	size_t offset = 0;    // output position relative to base, as the library returned it
	size_t k = 0;         // absolute output position, by our own count
	size_t ckBase = 0, ckOffset = 0, ckK = 0;
	std::vector<uint8_t> have;
	int arrive = 0, request = 0;
	uint32_t arriveSize = 1, requestSize = 1;
	bool done = false;
};

template <class U>
struct Filt {
	std::vector<U> taps;
	uint32_t phases;
	PolyphaseFilter<U, TIME_DOMAIN> owned;
	Buf<U> storage; // when decomposed into caller memory
	bool useView;
	PolyphaseView<U, TIME_DOMAIN> view;
};

template <class T, class U>
void runTyped() {
	using R = multiplies_result_t<T, U>;
	heap::configure(drawHeap("heap"));
	const uint32_t numFilters = 1 + draw(2, "filters");
	const uint32_t numStreams = 1 + draw(2, "streams");
	const bool lengthy = draw(150, "lengthy") == 149;
	const bool big = !lengthy && draw(12, "big") == 11;
	if (lengthy) {
		count("event.lengthy");
	}
	std::vector<Filt<U>> filters(numFilters);
	uint64_t sig = 0;
	for (auto& f : filters) {
		const uint32_t n = drawSize(1, lengthy ? 24 : big ? 2500 : 150, "filter.length");
		f.taps = gen<U>(n, draw(1 << 16, "filter.data"), int(draw(DATA_KINDS, "filter.kind")));
		f.phases = drawSize(1, lengthy ? 5 : big ? 160 : 20, "filter.phases");
		f.useView = draw(2, "filter.view");
		auto tb = bufOf(f.taps, draw(2, "filter.place"));
		const BasicSignalView<const U, TIME_DOMAIN> tv(tb.begin(), tb.size());
		heap::Scope scope;
		if (f.useView) {
			f.storage = Buf<U>(n);
			poison(f.storage.data(), n, 0);
			BasicSignalView<U, TIME_DOMAIN> sv(f.storage.begin(), f.storage.size());
			f.view = PolyphaseDecompose(sv, tv, f.phases);
			f.storage.readOnly();
		}
		else {
			const BasicSignal<U, TIME_DOMAIN> tapSignal(tv.begin(), tv.end());
			f.owned = PolyphaseDecompose(tapSignal, f.phases);
			f.view = f.owned;
		}
	}
	std::vector<Stream<T>> st(numStreams);
	for (auto& s : st) {
		s.filter = draw(numFilters, "stream.filter");
		const auto& f = filters[s.filter];
		const uint32_t roof = big ? std::min<uint32_t>(5000, 600000 / uint32_t(std::max<size_t>(f.taps.size(), f.phases))) : 300;
		const uint32_t len = lengthy ? range(30000, 100000, "stream.length") : drawSize(1, roof, "stream.length");
		s.x = gen<T>(len, draw(1 << 16, "stream.data"), int(draw(DATA_KINDS, "stream.kind")));
		// Zero-stuffed input through the filter; the decomposition compensates the gain.
		const size_t total = size_t(len) * f.phases + f.taps.size() - 1;
		s.ref.assign(total, cld(0));
		s.absRef.assign(total, ld(0));
		for (size_t m = 0; m < len; ++m) {
			for (size_t t = 0; t < f.taps.size(); ++t) {
				const cld p = toLd(s.x[m]) * toLd(f.taps[t]) * ld(f.phases);
				s.ref[m * f.phases + t] += p;
				s.absRef[m * f.phases + t] += std::abs(p);
			}
		}
		s.have.assign(total, 0);
		s.arrive = int(draw(4, "stream.arrive"));
		s.arriveSize = drawSize(1, big ? 1500 : 60, "stream.arrivesize");
		s.request = int(draw(4, "stream.request"));
		s.requestSize = drawSize(1, big ? 9000 : 200, "stream.requestsize");
		sig = mix(sig, mix(len, mix(f.taps.size(), f.phases)));
		trace("stream: %u samples of %s, %zu taps, factor %u", len, typeName<T>(), f.taps.size(), f.phases);
	}
	const uint32_t pCrash = draw(4, "mix.crash");
	const uint32_t poisonKind = draw(3, "poison");
	unsigned steps = 0, done = 0, crashes = 0, calls = 0, empties = 0;
	while (done < numStreams && ++steps < 6000) {
		uint32_t si = draw(numStreams, "step.stream");
		while (st[si].done) {
			si = (si + 1) % numStreams;
		}
		auto& s = st[si];
		const auto& f = filters[s.filter];
		const size_t P = f.phases, F = f.taps.size(), L = s.x.size();
		if (pCrash && steps < 400 && flip(pCrash, 40, "step.crash")) {
			// Everything but the saved position is lost; the source redelivers from the saved first sample.
			s.base = s.ckBase;
			s.offset = s.ckOffset;
			s.k = s.ckK;
			s.delivered = s.base;
			++crashes;
			count("fault.crash_restart");
			trace("stream %u: crash, restart at input %zu output %zu", si, s.base, s.k);
			continue;
		}
		const bool hurry = steps > 500;
		if (s.delivered < L && (hurry || draw(2, "step.kind") == 1)) {
			size_t n = s.arrive == 0 ? s.arriveSize : s.arrive == 1 ? drawSize(0, uint32_t(L), "step.arrive") : s.arrive == 2 ? draw(3, "step.arrive") : L;
			if (hurry) {
				n = L;
			}
			s.delivered = std::min(L, s.delivered + n);
			trace("stream %u: input now %zu", si, s.delivered);
			if (!hurry) {
				continue;
			}
		}
		if (flip(1, 5, "step.checkpoint")) {
			s.ckBase = s.base;
			s.ckOffset = s.offset;
			s.ckK = s.k;
		}
		const size_t N = s.delivered - s.base;
		if (N == 0 && s.offset != 0) {
			continue; // no input has arrived again yet: the position lies outside the (empty) result
		}
		const size_t availableEnd = s.delivered == L ? L * P + F - 1 : s.delivered * P;
		const size_t avail = availableEnd > s.k ? availableEnd - s.k : 0;
		size_t n = s.request == 0 ? s.requestSize : s.request == 1 ? drawSize(0, uint32_t(std::max<size_t>(avail, 1)), "step.request") : s.request == 2 ? draw(3, "step.request") : avail;
		if (hurry) {
			n = avail;
		}
		n = std::min(n, avail);
		if (n == 0) {
			++empties;
			count("event.empty_request");
		}
		Buf<T> in(N, draw(2, "step.place"));
		std::copy(s.x.begin() + ptrdiff_t(s.base), s.x.begin() + ptrdiff_t(s.base + N), in.begin());
		in.readOnly();
		Buf<R> out(n, draw(2, "step.place"));
		poison(out.data(), n, poisonKind);
		const bool alsoReturning = draw(6, "step.overload") == 5;
		const BasicSignalView<const T, TIME_DOMAIN> inView(in.begin(), N);
		BasicSignalView<R, TIME_DOMAIN> outView(out.begin(), n);
		InterpolSuspensionPoint sp{};
		std::vector<R> second;
		{
			heap::Scope scope;
			if (alsoReturning) {
				auto r = Interpolate(inView, f.view, s.offset, n);
				if (r.size() != n) {
					fail("wrong-length", "asked for %zu outputs, got %zu", n, r.size());
				}
				second.assign(r.begin(), r.end());
			}
			sp = Interpolate(outView, inView, f.view, s.offset);
		}
		++calls;
		count("op.interpolate");
		samples(n);
		evBytes(out.data(), n * sizeof(R));
		ev(mix(sp.firstInputSample, sp.startPoint));
		trace("stream %u: outputs [%zu,%zu) from input [%zu,%zu) -> resume at +%zu, offset %zu", si, s.k, s.k + n, s.base, s.base + N, sp.firstInputSample, sp.startPoint);
		for (size_t i = 0; i < n; ++i) {
			const size_t at = s.k + i;
			const ld tol = std::numeric_limits<RealT<R>>::epsilon() * (8 + 4 * ld(F / P + 2)) * s.absRef[at] + std::numeric_limits<RealT<R>>::min() * 64;
			if (!(std::abs(toLd(out[i]) - s.ref[at]) <= tol)) {
				fail("stream-mismatch", "%s x %s, factor %zu, %zu taps, %zu inputs: output %zu (call for %zu outputs, input [%zu,%zu), offset %zu) is %s, one-shot interpolation gives %s",
					 typeName<T>(), typeName<U>(), P, F, L, at, n, s.base, s.base + N, s.offset, show(out[i]).c_str(), showLd(s.ref[at]).c_str());
			}
			if (alsoReturning && !(std::abs(toLd(second[i]) - s.ref[at]) <= tol)) {
				fail("stream-mismatch", "returning overload: output %zu is %s, one-shot interpolation gives %s", at, show(second[i]).c_str(), showLd(s.ref[at]).c_str());
			}
			s.have[at] = 1;
		}
		s.k += n;
		if (sp.firstInputSample > N) {
			fail("suspension-point", "resume position lies %zu samples into an input of %zu", sp.firstInputSample, N);
		}
		s.base += sp.firstInputSample;
		s.offset = sp.startPoint;
		if (s.base * P + s.offset != s.k) {
			fail("suspension-point", "factor %zu, %zu taps: after output %zu the resume position denotes output %zu", P, F, s.k, s.base * P + s.offset);
		}
		// Input is let go once a filter length has passed (one sample of slack).
		if (s.k >= F - 1 + 2 * P && s.base + 1 < (s.k - (F - 1)) / P) {
			fail("input-retained", "factor %zu, %zu taps: at output %zu input is still required from sample %zu", P, F, s.k, s.base);
		}
		sig = mix(sig, mix(n, N));
		if (s.k == L * P + F - 1) {
			s.done = true;
			++done;
			for (auto h : s.have) {
				if (!h) {
					fail("lost-output", "an output was never produced");
				}
			}
		}
	}
	if (done < numStreams) {
		error("run did not finish");
	}
	if (calls > 1) {
		nontrivial(sig);
	}
	distinct("call_patterns", sig);
	summary("%s x %s, %u stream(s), first: %zu inputs, factor %u, %zu taps; %u calls, %u empty requests, %u crash/restarts", typeName<T>(), typeName<U>(), numStreams, st[0].x.size(), filters[st[0].filter].phases, filters[st[0].filter].taps.size(), calls, empties, crashes);
}

} // namespace

#define TYPE_PARTS(X) \
	X(1, double, double) \
	X(2, float, float) \
	X(3, std::complex<float>, float) \
	X(4, std::complex<double>, double)

#define DECLARE(n, T, U) void part##n();
TYPE_PARTS(DECLARE)

#if PART == 0
static void run(int) {
	switch (1 + draw(4, "types")) {
#define CASE(n, T, U) case n: return part##n();
		CASE(1, , ) CASE(2, , ) CASE(3, , ) CASE(4, , )
	}
}
const Workload sim::workload{ "C03", 1, run };
#elif PART == 1
void part1() { runTyped<double, double>(); }
#elif PART == 2
void part2() { runTyped<float, float>(); }
#elif PART == 3
void part3() { runTyped<std::complex<float>, float>(); }
#elif PART == 4
void part4() { runTyped<std::complex<double>, double>(); }
#endif
