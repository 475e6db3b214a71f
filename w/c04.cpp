// C04: rational-rate resampling of a stream in any number of resumed calls equals one-shot resampling, exactly on
// the rational grid.
#include "../sim/util.hpp"

#include <dspbb/Filtering/Polyphase.hpp>
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Math/Rational.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>

#include <numeric>

using namespace sim;
using namespace dspbb;

namespace {

using i128 = __int128;

// Exact fractions with a fixed positive denominator are enough here: n/d.
struct Frac {
	i128 n = 0, d = 1;
};
i128 gcd128(i128 a, i128 b) {
	while (b) {
		const i128 t = a % b;
		a = b;
		b = t;
	}
	return a < 0 ? -a : a;
}
Frac mk(i128 n, i128 d) {
	if (d < 0) {
		n = -n;
		d = -d;
	}
	const i128 g = gcd128(n, d);
	return g ? Frac{ n / g, d / g } : Frac{ 0, 1 };
}
Frac operator+(Frac a, Frac b) { return mk(a.n * b.d + b.n * a.d, a.d * b.d); }
Frac operator-(Frac a, Frac b) { return mk(a.n * b.d - b.n * a.d, a.d * b.d); }
Frac operator*(Frac a, Frac b) { return mk(a.n * b.n, a.d * b.d); }
Frac operator/(Frac a, Frac b) { return mk(a.n * b.d, a.d * b.n); }
bool operator==(Frac a, Frac b) { return a.n == b.n && a.d == b.d; }
bool operator<(Frac a, Frac b) { return a.n * b.d < b.n * a.d; }
i128 floorOf(Frac a) { return a.n >= 0 ? a.n / a.d : -((-a.n + a.d - 1) / a.d); }
Frac whole(i128 v) { return Frac{ v, 1 }; }
Frac fromLib(const Rational<int64_t>& r) { return mk(r.Numerator(), r.Denominator()); }

template <class T>
struct Stream {
	std::vector<T> x;
	std::vector<cld> hr; // interpolated signal in extended precision
	std::vector<ld> absHr;
	size_t filter = 0;
	int64_t num = 1, den = 1; // input samples per output sample
	Frac start;               // of the first output
	size_t total = 0;         // outputs of the one-shot run
	size_t base = 0, delivered = 0;
	Rational<int64_t> pos{ 0, 1 };
	size_t q = 0; // outputs produced
	size_t ckBase = 0, ckQ = 0;
	Rational<int64_t> ckPos{ 0, 1 };
	std::vector<uint8_t> have;
	int arrive = 0, request = 0;
	uint32_t arriveSize = 1, requestSize = 1;
	bool done = false;
};

template <class T, class U>
void runTyped() {
	using R = multiplies_result_t<T, U>;
	heap::configure(drawHeap("heap"));
	const uint32_t numFilters = 1 + draw(2, "filters");
	const uint32_t numStreams = 1 + draw(2, "streams");
	const bool lengthy = draw(150, "lengthy") == 149;
	const bool big = !lengthy && draw(12, "big") == 11;
	if (lengthy) {
		count("event.lengthy");
	}
	struct Filt {
		std::vector<U> taps;
		uint32_t phases;
		PolyphaseFilter<U, TIME_DOMAIN> poly;
	};
	std::vector<Filt> filters(numFilters);
	for (auto& f : filters) {
		const uint32_t n = drawSize(1, lengthy ? 24 : big ? 900 : 130, "filter.length");
		f.taps = gen<U>(n, draw(1 << 16, "filter.data"), int(draw(DATA_KINDS, "filter.kind")));
		f.phases = drawSize(1, lengthy ? 5 : big ? 100 : 16, "filter.phases");
		const BasicSignal<U, TIME_DOMAIN> taps(f.taps.begin(), f.taps.end());
		heap::Scope scope;
		f.poly = PolyphaseDecompose(taps, f.phases);
	}
	static const int64_t known[][2] = { { 1, 1 }, { 2, 1 }, { 1, 2 }, { 3, 2 }, { 147, 160 }, { 160, 147 }, { 441, 320 }, { 7, 1 }, { 1, 7 }, { 13, 11 }, { 999, 1000 }, { 48000, 44100 }, { 44101, 48000 }, { 48000, 44101 }, { 96001, 32000 }, { 65537, 65536 }, { 100, 1 }, { 1, 100 }, { 997, 3 }, { 3, 997 }, { 1000003, 999983 } };
	std::vector<Stream<T>> st(numStreams);
	uint64_t sig = 0;
	for (auto& s : st) {
		s.filter = draw(numFilters, "stream.filter");
		const auto& f = filters[s.filter];
		const uint32_t roof = big ? std::min<uint32_t>(6000, 400000 / uint32_t(std::max<size_t>(f.taps.size(), f.phases))) : 300;
		const uint32_t len = lengthy ? range(30000, 100000, "stream.length") : drawSize(1, roof, "stream.length");
		s.x = gen<T>(len, draw(1 << 16, "stream.data"), int(draw(DATA_KINDS, "stream.kind")));
		if (draw(2, "rate.kind") == 0) {
			const auto& k = known[draw(sizeof known / sizeof known[0], "rate.known")];
			s.num = k[0];
			s.den = k[1];
		}
		else {
			s.num = 1 + draw(40, "rate.num");
			s.den = 1 + draw(40, "rate.den");
		}
		const int64_t P = f.phases, F = int64_t(f.taps.size());
		s.hr.assign(size_t(len) * P + F - 1, cld(0));
		s.absHr.assign(s.hr.size(), ld(0));
		for (size_t m = 0; m < len; ++m) {
			for (size_t t = 0; t < size_t(F); ++t) {
				const cld p = toLd(s.x[m]) * toLd(f.taps[t]) * ld(P);
				s.hr[m * P + t] += p;
				s.absHr[m * P + t] += std::abs(p);
			}
		}
		if (draw(3, "start.kind") == 2) {
			s.start = mk(draw(40, "start.num"), 1 + draw(12, "start.den"));
		}
		const Frac rate = mk(s.num, s.den);
		const Frac maxLength = mk(int64_t(len) * P + F - 1, P) / rate;
		if (maxLength < s.start) {
			s.start = Frac{};
		}
		s.total = std::min<size_t>(lengthy ? 200000 : big ? 20000 : 4000, size_t(floorOf(maxLength - s.start)));
		s.pos = s.ckPos = Rational<int64_t>{ int64_t(s.start.n), int64_t(s.start.d) };
		s.have.assign(s.total, 0);
		s.arrive = int(draw(4, "stream.arrive"));
		s.arriveSize = drawSize(1, big ? 1500 : 60, "stream.arrivesize");
		s.request = int(draw(5, "stream.request"));
		s.requestSize = drawSize(1, big ? 4000 : 200, "stream.requestsize");
		sig = mix(sig, mix(len, mix(mix(f.taps.size(), f.phases), mix(s.num, s.den))));
		trace("stream: %u samples of %s, %zu taps, %u phases, rate %lld/%lld, start %lld/%lld, %zu outputs", len, typeName<T>(), f.taps.size(), f.phases, (long long)s.num, (long long)s.den, (long long)s.start.n, (long long)s.start.d, s.total);
	}
	const uint32_t pCrash = draw(4, "mix.crash");
	const uint32_t poisonKind = draw(3, "poison");
	unsigned steps = 0, done = 0, crashes = 0, calls = 0, empties = 0;
	while (done < numStreams && ++steps < 8000) {
		uint32_t si = draw(numStreams, "step.stream");
		while (st[si].done) {
			si = (si + 1) % numStreams;
		}
		auto& s = st[si];
		if (s.total == s.q) {
			s.done = true;
			++done;
			for (auto h : s.have) {
				if (!h) {
					fail("lost-output", "an output was never produced");
				}
			}
			continue;
		}
		const auto& f = filters[s.filter];
		const size_t P = f.phases, F = f.taps.size(), L = s.x.size();
		const Frac rate = mk(s.num, s.den);
		if (pCrash && steps < 500 && flip(pCrash, 40, "step.crash")) {
			s.base = s.ckBase;
			s.pos = s.ckPos;
			s.q = s.ckQ;
			s.delivered = s.base;
			++crashes;
			count("fault.crash_restart");
			trace("stream %u: crash, restart at input %zu output %zu", si, s.base, s.q);
			continue;
		}
		const bool hurry = steps > 700;
		if (s.delivered < L && (hurry || draw(2, "step.kind") == 1)) {
			size_t n = s.arrive == 0 ? s.arriveSize : s.arrive == 1 ? drawSize(0, uint32_t(L), "step.arrive") : s.arrive == 2 ? draw(3, "step.arrive") : L;
			if (hurry) {
				n = L;
			}
			s.delivered = std::min(L, s.delivered + n);
			trace("stream %u: input now %zu", si, s.delivered);
			if (!hurry) {
				continue;
			}
		}
		if (flip(1, 5, "step.checkpoint")) {
			s.ckBase = s.base;
			s.ckPos = s.pos;
			s.ckQ = s.q;
		}
		const size_t N = s.delivered - s.base;
		if (N == 0) {
			continue;
		}
		// What can be computed from the input that has arrived.
		const Frac relMax = mk(int64_t(N) * int64_t(P) + int64_t(F) - 1, int64_t(P)) / rate;
		const Frac relPos = fromLib(s.pos);
		if (relMax < relPos) {
			continue; // the position lies beyond the input that has arrived
		}
		size_t avail = std::min<i128>(floorOf(relMax - relPos), s.total - s.q);
		if (s.delivered < L) {
			// The last output may need input floor((floor(position*phases)+1)/phases).
			const Frac limit = mk(i128(s.delivered) * P - 1, P) / rate; // absolute output position bound (exclusive)
			const Frac at = s.start + whole(s.q);
			size_t m = 0;
			if (at < limit) {
				const Frac gap = limit - at;
				m = size_t(floorOf(gap)) + (floorOf(gap) * gap.d == gap.n ? 0 : 1);
			}
			avail = std::min(avail, m);
		}
		size_t n = s.request == 0 ? s.requestSize : s.request == 1 ? drawSize(0, uint32_t(std::max<size_t>(avail, 1)), "step.request") : s.request == 2 ? draw(3, "step.request") : s.request == 3 ? 1 : avail;
		if (hurry) {
			n = avail;
		}
		n = std::min(n, avail);
		if (n == 0) {
			++empties;
			count("event.empty_request");
		}
		Buf<T> in(N, draw(2, "step.place"));
		std::copy(s.x.begin() + ptrdiff_t(s.base), s.x.begin() + ptrdiff_t(s.base + N), in.begin());
		in.readOnly();
		Buf<R> out(n, draw(2, "step.place"));
		poison(out.data(), n, poisonKind);
		const bool alsoReturning = draw(6, "step.overload") == 5;
		const BasicSignalView<const T, TIME_DOMAIN> inView(in.begin(), N);
		BasicSignalView<R, TIME_DOMAIN> outView(out.begin(), n);
		ResampleSuspensionPoint sp{};
		std::vector<R> second;
		const Rational<int64_t> libRate{ s.num, s.den };
		{
			heap::Scope scope;
			if (alsoReturning) {
				auto r = Resample(inView, f.poly, libRate, s.pos, n);
				if (r.size() != n) {
					fail("wrong-length", "asked for %zu outputs, got %zu", n, r.size());
				}
				second.assign(r.begin(), r.end());
			}
			sp = Resample(outView, inView, f.poly, libRate, s.pos);
		}
		++calls;
		count("op.resample");
		samples(n);
		evBytes(out.data(), n * sizeof(R));
		ev(mix(sp.firstInputSample, mix(uint64_t(sp.startPoint.Numerator()), uint64_t(sp.startPoint.Denominator()))));
		trace("stream %u: outputs [%zu,%zu) from input [%zu,%zu) -> resume at +%zu, %lld/%lld", si, s.q, s.q + n, s.base, s.base + N, sp.firstInputSample, (long long)sp.startPoint.Numerator(), (long long)sp.startPoint.Denominator());
		for (size_t i = 0; i < n; ++i) {
			const size_t at = s.q + i;
			const Frac p = (s.start + whole(at)) * rate * whole(P);
			const size_t k = size_t(floorOf(p));
			const Frac t = p - whole(k);
			const ld w = ld(t.n) / ld(t.d);
			const cld h0 = k < s.hr.size() ? s.hr[k] : cld(0), h1 = k + 1 < s.hr.size() ? s.hr[k + 1] : cld(0);
			const ld a0 = k < s.hr.size() ? s.absHr[k] : 0, a1 = k + 1 < s.hr.size() ? s.absHr[k + 1] : 0;
			const cld want = h0 * (1 - w) + h1 * w;
			const ld tol = std::numeric_limits<RealT<R>>::epsilon() * (24 + 4 * ld(F / P + 2)) * (a0 * (1 - w) + a1 * w) + std::numeric_limits<RealT<R>>::min() * 1024;
			const bool bad0 = !(std::abs(toLd(out[i]) - want) <= tol);
			const bool bad1 = alsoReturning && !(std::abs(toLd(second[i]) - want) <= tol);
			if (bad0 || bad1) {
				fail("stream-mismatch", "%s x %s, rate %lld/%lld, %zu phases, %zu taps, %zu inputs: output %zu (call for %zu outputs, input [%zu,%zu)%s) is %s, one-shot resampling gives %s",
					 typeName<T>(), typeName<U>(), (long long)s.num, (long long)s.den, P, F, L, at, n, s.base, s.base + N, bad0 ? "" : ", returning overload", show(bad0 ? out[i] : second[i]).c_str(), showLd(want).c_str());
			}
			s.have[at] = 1;
		}
		s.q += n;
		if (sp.firstInputSample > N) {
			fail("suspension-point", "resume position lies %zu samples into an input of %zu", sp.firstInputSample, N);
		}
		s.base += sp.firstInputSample;
		s.pos = sp.startPoint;
		// Exactly the next instant, however many suspensions there were.
		const Frac next = s.start + whole(s.q);
		const Frac denoted = fromLib(s.pos) + whole(s.base) / rate;
		if (!(denoted == next)) {
			fail("drift", "rate %lld/%lld, %zu phases, %zu taps: after %zu outputs the resume position denotes instant %.15g instead of %.15g",
				 (long long)s.num, (long long)s.den, P, F, s.q, double(denoted.n) / double(denoted.d), double(next.n) / double(next.d));
		}
		const Frac oldest = next * rate - mk(int64_t(F) - 1, int64_t(P)) - whole(2);
		if (Frac{} < oldest && whole(s.base) < oldest) {
			fail("input-retained", "rate %lld/%lld, %zu phases, %zu taps: after %zu outputs input is still required from sample %zu", (long long)s.num, (long long)s.den, P, F, s.q, s.base);
		}
		sig = mix(sig, mix(n, N));
	}
	if (done < numStreams) {
		error("run did not finish");
	}
	// The one-shot entry points agree with the same reference.
	for (auto& s : st) {
		const int which = int(draw(6, "oneshot"));
		if (which < 4) {
			continue;
		}
		const auto& f = filters[s.filter];
		const int64_t P = f.phases, F = int64_t(f.taps.size()), L = flip(1, 12, "oneshot.nothing") ? 0 : int64_t(s.x.size());
		const Frac rate = mk(s.num, s.den);
		if (L == 0) {
			s.x.clear();
			s.hr.assign(size_t(F - 1), cld(0));
			s.absHr.assign(size_t(F - 1), ld(0));
			count("op.oneshot_of_nothing");
		}
		auto xb = bufOf(s.x);
		const BasicSignalView<const T, TIME_DOMAIN> xv(xb.begin(), xb.size());
		const Rational<int64_t> libRate{ s.num, s.den };
		std::vector<R> got;
		Frac start;
		size_t want;
		if (which == 4) {
			want = L == 0 ? 0 : size_t(floorOf(mk(L * P + F - 1, P) / rate));
		}
		else {
			start = mk(std::max<int64_t>(std::min(F, L * P), 1) - 1, P) / rate;
			want = L == 0 ? 0 : size_t(floorOf(mk(std::max(F, L * P) - std::min(F, L * P) + 1, P) / rate));
		}
		if (want > 4000) {
			continue;
		}
		{
			heap::Scope scope;
			if (which == 4) {
				auto r = Resample(xv, f.poly, libRate, CONV_FULL);
				got.assign(r.begin(), r.end());
			}
			else {
				auto r = Resample(xv, f.poly, libRate, CONV_CENTRAL);
				got.assign(r.begin(), r.end());
			}
		}
		if (got.size() != want) {
			fail("wrong-length", "one-shot resampling of %lld samples gave %zu outputs instead of %zu", (long long)L, got.size(), want);
		}
		count("op.oneshot");
		for (size_t i = 0; i < want; ++i) {
			const Frac p = (start + whole(i)) * rate * whole(P);
			const size_t k = size_t(floorOf(p));
			const Frac t = p - whole(k);
			const ld w = ld(t.n) / ld(t.d);
			const cld h0 = k < s.hr.size() ? s.hr[k] : cld(0), h1 = k + 1 < s.hr.size() ? s.hr[k + 1] : cld(0);
			const ld a0 = k < s.hr.size() ? s.absHr[k] : 0, a1 = k + 1 < s.hr.size() ? s.absHr[k + 1] : 0;
			const cld ref = h0 * (1 - w) + h1 * w;
			const ld tol = std::numeric_limits<RealT<R>>::epsilon() * (24 + 4 * ld(F / P + 2)) * (a0 * (1 - w) + a1 * w) + std::numeric_limits<RealT<R>>::min() * 1024;
			if (!(std::abs(toLd(got[i]) - ref) <= tol)) {
				fail("oneshot-mismatch", "%s resampling, rate %lld/%lld, %lld phases, %lld taps, %lld inputs: output %zu is %s instead of %s", which == 4 ? "full" : "central", (long long)s.num, (long long)s.den, (long long)P, (long long)F, (long long)L, i, show(got[i]).c_str(), showLd(ref).c_str());
			}
		}
	}
	if (calls > 1) {
		nontrivial(sig);
	}
	distinct("call_patterns", sig);
	summary("%s x %s, %u stream(s), first: %zu inputs, rate %lld/%lld, %u phases, %zu taps; %u calls, %u empty requests, %u crash/restarts", typeName<T>(), typeName<U>(), numStreams, st[0].x.size(), (long long)st[0].num, (long long)st[0].den, filters[st[0].filter].phases, filters[st[0].filter].taps.size(), calls, empties, crashes);
}

} // namespace

#define DECLARE(n) void part##n();
DECLARE(1) DECLARE(2) DECLARE(3) DECLARE(4)

#if PART == 0
static void run(int) {
	switch (draw(4, "types")) {
		case 0: return part1();
		case 1: return part2();
		case 2: return part3();
		default: return part4();
	}
}
const Workload sim::workload{ "C04", 1, run };
#elif PART == 1
void part1() { runTyped<double, double>(); }
#elif PART == 2
void part2() { runTyped<float, float>(); }
#elif PART == 3
void part3() { runTyped<std::complex<float>, float>(); }
#elif PART == 4
void part4() { runTyped<std::complex<double>, double>(); }
#endif
