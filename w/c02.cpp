// C02: an IIR realization fed a stream in any pieces, with interruptions, resets and restarts from copies,
// produces the output of its difference equation.
#include "../sim/util.hpp"

#include <dspbb/Filtering/IIR/Filter.hpp>
#include <dspbb/LTISystems/Systems.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>

#include <iterator>
#include <memory>

using namespace sim;
using namespace dspbb;

namespace {

struct Stall {};

// A source that fails after a number of samples.
template <class T>
struct FlakyIter {
	using iterator_category = std::input_iterator_tag;
	using value_type = T;
	using difference_type = std::ptrdiff_t;
	using pointer = const T*;
	using reference = const T&;
	const T* p;
	const T* failAt;
	const T& operator*() const {
		if (p == failAt) {
			throw Stall{};
		}
		return *p;
	}
	FlakyIter& operator++() { ++p; return *this; }
	FlakyIter operator++(int) { auto c = *this; ++p; return c; }
	bool operator==(const FlakyIter& o) const { return p == o.p; }
	bool operator!=(const FlakyIter& o) const { return p != o.p; }
};

// A system: real coefficients, newest sample first, in extended precision.
struct RefSys {
	std::vector<ld> num, den; // num[k] multiplies x[n-k], den[k] multiplies y[n-k]
	ld N1 = 0, D1 = 0, G1 = 0, peak = 0;
};

void finishSys(RefSys& s) {
	const ld d0 = s.den[0];
	for (auto& v : s.num) { v /= d0; s.N1 += std::fabs(v); }
	for (auto& v : s.den) { v /= d0; s.D1 += std::fabs(v); }
	// L1 norm of the impulse response of 1/den.
	std::vector<ld> g;
	for (size_t n = 0; n < 3000; ++n) {
		ld v = n == 0 ? 1 : 0;
		for (size_t k = 1; k < s.den.size() && k <= n; ++k) {
			v -= s.den[k] * g[n - k];
		}
		g.push_back(v);
		s.G1 += std::fabs(v);
		if (n > 64 && std::fabs(v) < 1e-25L) {
			break;
		}
	}
	s.G1 = std::max<ld>(s.G1, 1);
}

std::vector<ld> polyFromRoots(const std::vector<std::complex<double>>& roots) {
	std::vector<cld> p{ cld(1) }; // newest first: product of (1 - r z^-1)
	for (auto& r : roots) {
		p.push_back(cld(0));
		for (size_t i = p.size() - 1; i > 0; --i) {
			p[i] -= p[i - 1] * cld(r.real(), r.imag());
		}
	}
	std::vector<ld> o;
	for (auto& v : p) {
		o.push_back(v.real());
	}
	return o;
}

template <class T>
std::vector<cld> refFilter(const std::vector<T>& x, size_t from, const RefSys& s) {
	std::vector<cld> y(x.size() - from);
	for (size_t n = 0; n < y.size(); ++n) {
		cld v = 0;
		for (size_t k = 0; k < s.num.size() && k <= n; ++k) {
			v += s.num[k] * toLd(x[from + n - k]);
		}
		for (size_t k = 1; k < s.den.size() && k <= n; ++k) {
			v -= s.den[k] * y[n - k];
		}
		y[n] = v;
	}
	return y;
}

// Uniform face of the three realizations.
template <class T, class S> struct DF1 {
	using State = DirectFormI<T>;
	using System = DiscreteTransferFunction<S>;
	static constexpr const char* name = "direct form I";
	static size_t order(const System& s) { return s.order(); }
};
template <class T, class S> struct DF2 {
	using State = DirectFormII<T>;
	using System = DiscreteTransferFunction<S>;
	static constexpr const char* name = "direct form II";
	static size_t order(const System& s) { return s.order(); }
};
template <class T, class S> struct CAS {
	using State = CascadedForm<T>;
	using System = CascadedBiquad<S>;
	static constexpr const char* name = "cascaded form";
	static size_t order(const System& s) { return 2 * s.sections.size(); }
};

template <class S>
std::vector<std::complex<double>> drawRoots(uint32_t n, double maxRadius, bool allowZero) {
	std::vector<std::complex<double>> r;
	Rng g(draw(1 << 16, "roots.data"));
	while (r.size() < n) {
		const double rad = allowZero && g.chance(1, 8) ? 0.0 : maxRadius * (0.15 + 0.85 * g.unit());
		if (n - r.size() >= 2 && g.chance(2, 3)) {
			// Representable in S, so that the reference sees exactly the same roots.
			const double angle = 0.05 + 3.04 * g.unit();
			const S re = S(rad * std::cos(angle)), im = S(std::max(1e-3, rad * std::sin(angle)));
			r.push_back({ double(re), double(im) });
			r.push_back({ double(re), -double(im) });
		}
		else {
			r.push_back({ double(S(g.chance(1, 2) ? rad : -rad)), 0.0 });
		}
	}
	return r;
}

template <class T, class S, template <class, class> class Form>
void runForm() {
	using F = Form<T, S>;
	using State = typename F::State;
	using System = typename F::System;
	constexpr bool cascade = std::is_same_v<System, CascadedBiquad<S>>;
	using Eps = std::conditional_t<(std::numeric_limits<RealT<T>>::epsilon() > std::numeric_limits<S>::epsilon()), RealT<T>, S>;
	const ld eps = std::numeric_limits<Eps>::epsilon();

	heap::configure(drawHeap("heap"));
	const uint32_t nSys = 1 + draw(2, "systems");
	std::vector<System> systems;
	std::vector<RefSys> refs;
	const uint32_t maxOrder = std::is_same_v<Eps, float> ? 5 : 9;
	const double maxRadius = std::is_same_v<Eps, float> ? 0.8 : 0.93;
	for (uint32_t i = 0; i < nSys; ++i) {
		RefSys ref;
		const bool byRoots = cascade || draw(2, "system.kind") == 0;
		if (byRoots) {
			uint32_t nz = draw(maxOrder + 1, "system.zeros"), np = draw(maxOrder + 1, "system.poles");
			if (cascade && nz + np == 0) {
				np = 1;
			}
			const auto z = drawRoots<S>(nz, 1.2, true);
			const auto p = drawRoots<S>(np, maxRadius, true);
			const S gain = S(0.25 * (1 + draw(12, "system.gain")));
			std::vector<std::complex<S>> zs, ps;
			for (auto& v : z) { zs.push_back({ S(v.real()), S(v.imag()) }); }
			for (auto& v : p) { ps.push_back({ S(v.real()), S(v.imag()) }); }
			DiscreteZeroPoleGain<S> zpk{ gain, FactoredPolynomial<S>(zs.begin(), zs.end()), FactoredPolynomial<S>(ps.begin(), ps.end()) };
			systems.push_back(System(zpk));
			ref.num = polyFromRoots(z);
			for (auto& v : ref.num) { v *= gain; }
			ref.den = polyFromRoots(p);
			trace("system %u: gain %g, %u zeros, %u poles", i, double(gain), nz, np);
		}
		else if constexpr (!cascade) {
			const uint32_t nn = 1 + draw(maxOrder + 1, "system.num");
			const uint32_t np = draw(maxOrder + 1, "system.poles");
			const auto p = drawRoots<S>(np, maxRadius, true);
			const auto den = polyFromRoots(p);
			const S scale = S(std::ldexp(1.0, int(draw(5, "system.scale")) - 2)) * (draw(2, "system.sign") ? S(-1) : S(1));
			std::vector<S> numC = gen<S>(nn, draw(1 << 16, "system.data"), DATA_UNIFORM), denC;
			for (auto it = den.rbegin(); it != den.rend(); ++it) {
				denC.push_back(S(*it) * scale);
			}
			systems.push_back(System(Polynomial<S>(numC.begin(), numC.end()), Polynomial<S>(denC.begin(), denC.end())));
			ref.num.assign(numC.rbegin(), numC.rend());
			ref.den.assign(denC.rbegin(), denC.rend());
			trace("system %u: %u numerator, %zu denominator coefficients, leading %g", i, nn, denC.size(), double(scale));
		}
		finishSys(ref);
		refs.push_back(ref);
	}

	const uint32_t howLong = draw(200, "long");
	const bool lengthy = howLong == 199;
	if (lengthy) {
		count("event.lengthy");
	}
	const uint32_t len = lengthy ? range(65530, 140000, "stream.length") : drawSize(1, howLong >= 180 ? 12000 : 1500, "stream.length");
	const uint32_t nStreams = lengthy ? 1 : 1 + draw(3, "streams");
	struct Stream {
		std::vector<T> x;
		size_t sys = 0, pos = 0, origin = 0; // origin: where the filter last was fresh
		State state;
		std::vector<cld> ref;
		ld tol = 0;
		bool hasCk = false;
		State ck;
		size_t ckPos = 0, ckOrigin = 0;
		size_t order = 0;
	};
	std::vector<Stream> st(nStreams);
	auto makeRef = [&](Stream& s) {
		const RefSys& r = refs[s.sys];
		s.ref = refFilter(s.x, s.origin, r);
		ld X = maxAbs(s.x), Y = 0;
		for (auto& v : s.ref) {
			Y = std::max(Y, std::abs(v));
		}
		const ld W = r.G1 * X;
		const ld ord = ld(r.num.size() + r.den.size());
		s.tol = eps * (8 * ord + 32) * (r.G1 * (r.N1 * X + r.D1 * Y) + r.N1 * r.G1 * (X + r.D1 * std::min(W, W)) * 0.5L) + std::numeric_limits<Eps>::min() * 1024;
		if constexpr (cascade) {
			s.tol *= 16; // the sections are rounded one after the other
		}
	};
	// A cascade of n sections is as well asked for by the odd order it can serve, or by the order the system itself reports.
	auto ask = [&](size_t order, size_t sys) {
		if constexpr (cascade) {
			const uint32_t how = draw(3, "order.how");
			if (how == 2 && order == F::order(systems[sys])) {
				return size_t(systems[sys].order());
			}
			return how == 1 && order > 0 && order % 2 == 0 ? order - 1 : order;
		}
		return order;
	};
	uint64_t sig = hashBytes(F::name, 6);
	for (auto& s : st) {
		s.sys = draw(nSys, "stream.system");
		s.x = gen<T>(len, draw(1 << 16, "stream.data"), int(draw(DATA_KINDS, "stream.kind")));
		s.order = F::order(systems[s.sys]) + (draw(3, "stream.extra") == 2 ? draw(5, "stream.extra") : 0);
		s.state = State(ask(s.order, s.sys));
		makeRef(s);
		sig = mix(sig, mix(s.order, len));
		trace("stream: %s order %zu, system %zu, %u samples of %s (coefficients %s)", F::name, s.order, s.sys, len, typeName<T>(), typeName<S>());
	}
	const uint32_t pStall = draw(4, "mix.stall"), pCrash = draw(4, "mix.crash"), pReset = lengthy ? 0 : draw(4, "mix.reset");
	const uint32_t blockMode = draw(4, "mix.blocks");
	const uint32_t poisonKind = draw(3, "poison");
	unsigned steps = 0, done = 0, stalls = 0, crashes = 0, resets = 0;
	auto check = [&](Stream& s, const T* y, size_t n, const char* how) {
		for (size_t i = 0; i < n; ++i) {
			const size_t at = s.pos + i;
			const cld want = s.ref[at - s.origin];
			const ld err = std::abs(toLd(y[i]) - want);
			if (!(err <= s.tol)) {
				fail("stream-mismatch", "%s (order %zu) of %s with %s coefficients, %zu numerator and %zu denominator terms: %s at sample %zu (%zu since fresh) gives %s, the difference equation %s (allowed error %.3Lg)",
					 F::name, s.order, typeName<T>(), typeName<S>(), refs[s.sys].num.size(), refs[s.sys].den.size(), how, at, at - s.origin, show(y[i]).c_str(), showLd(want).c_str(), s.tol);
			}
		}
		evBytes(y, n * sizeof(T));
		samples(n);
	};
	// Does a copy of the filter continue the stream correctly from sample `at`?
	auto continues = [&](const State& state, const Stream& s, size_t at) {
		State c(state);
		const size_t n = std::min<size_t>(s.x.size() - at, s.order + 6);
		for (size_t i = 0; i < n; ++i) {
			const T y = c.feed(s.x[at + i], systems[s.sys]);
			if (!(std::abs(toLd(y) - s.ref[at + i - s.origin]) <= s.tol)) {
				return false;
			}
		}
		return true;
	};
	while (done < nStreams && ++steps < 3000) {
		uint32_t si = draw(nStreams, "step.stream");
		while (st[si].pos >= st[si].x.size()) {
			si = (si + 1) % nStreams;
		}
		Stream& s = st[si];
		const System& sys = systems[s.sys];
		if (flip(1, 8, "step.checkpoint")) {
			heap::Scope scope;
			s.ck = s.state;
			s.ckPos = s.pos;
			s.ckOrigin = s.origin;
			s.hasCk = true;
		}
		if (s.hasCk && pCrash && flip(pCrash, 40, "step.crash")) {
			heap::Scope scope;
			switch (draw(3, "step.restore")) {
				case 0: s.state = s.ck; break;
				case 1: { State c(s.ck); s.state = std::move(c); break; }
				default: { State c(s.ck); State d(std::move(c)); std::swap(s.state, d); break; }
			}
			s.pos = s.ckPos;
			if (s.origin != s.ckOrigin) {
				s.origin = s.ckOrigin;
				makeRef(s);
			}
			++crashes;
			count("fault.crash_restart");
			trace("stream %u: crash, restored to sample %zu", si, s.pos);
		}
		if (pReset && flip(pReset, 60, "step.reset")) {
			// Every way of making the filter fresh; it must then forget the past.
			heap::Scope scope;
			switch (draw(4, "step.resethow")) {
				case 0: s.state.reset(); break;
				case 1: {
					const size_t want = s.order + draw(3, "step.order");
					if (draw(2, "step.orderfault")) {
						// Memory runs out while the order is changed; whatever order the filter then reports it must support.
						heap::armFault(1 + draw(2, "step.failat"), true);
						bool failed = false;
						try {
							s.state.order(want);
						}
						catch (const std::bad_alloc&) {
							failed = true;
							count("fault.alloc_failed");
						}
						heap::disarmFault();
						if (!failed && s.state.order() < want) {
							fail("order", "order(%zu) succeeded but left order %zu", want, size_t(s.state.order()));
						}
						s.order = s.state.order();
					}
					else {
						s.state.order(want);
						s.order = std::max(s.order, size_t(s.state.order()));
					}
					s.state.reset();
					break;
				}
				case 2: s.state = State(ask(s.order, s.sys)); break;
				default:
					s.state.order(ask(F::order(sys), s.sys));
					s.order = F::order(sys);
					s.state.reset();
			}
			s.origin = s.pos;
			s.sys = draw(nSys, "step.newsystem");
			if (F::order(systems[s.sys]) > s.order) {
				s.order = F::order(systems[s.sys]);
				s.state.order(ask(s.order, s.sys));
				s.state.reset();
			}
			makeRef(s);
			s.hasCk = false;
			++resets;
			count("event.reset");
			trace("stream %u: reset at sample %zu, system %zu, order %zu", si, s.pos, s.sys, s.order);
			continue;
		}
		const size_t remaining = s.x.size() - s.pos;
		uint32_t n;
		switch (blockMode) {
			case 0: n = draw(4, "step.block"); break;
			case 1: n = drawSize(0, uint32_t(remaining), "step.block"); break;
			case 2: n = drawSize(1, 64, "step.block"); break;
			default: n = uint32_t(remaining); break;
		}
		if (steps > 400) {
			n = std::max<uint32_t>(n, uint32_t(remaining / 4 + 1));
		}
		n = uint32_t(std::min<size_t>(n, remaining));
		if (n == 0) {
			count("event.empty_block");
		}
		Buf<T> in(n, draw(2, "step.place")), out(n);
		std::copy(s.x.begin() + ptrdiff_t(s.pos), s.x.begin() + ptrdiff_t(s.pos + n), in.begin());
		in.readOnly();
		poison(out.data(), n, poisonKind);
		BasicSignalView<const T, TIME_DOMAIN> inView(in.begin(), size_t(n));
		BasicSignalView<T, TIME_DOMAIN> outView(out.begin(), size_t(n));
		const uint32_t how = draw(6, "step.how");
		const bool stall = pStall && n > 0 && flip(pStall, 10, "step.stall");
		sig = mix(sig, mix(how + 16 * stall, mix(si, n)));
		if (stall) {
			const uint32_t k = draw(n, "step.stallat");
			bool thrown = false;
			State before(s.state);
			{
				heap::Scope scope;
				try {
					s.state.feed(FlakyIter<T>{ in.data(), in.data() + k }, FlakyIter<T>{ in.data() + n, nullptr }, out.begin(), sys);
				}
				catch (const Stall&) {
					thrown = true;
				}
			}
			++stalls;
			count("fault.source_stalled");
			trace("stream %u: source fails after %u of %u samples", si, k, n);
			if (!thrown) {
				fail("swallowed-failure", "the source's failure did not reach the caller");
			}
			// Exactly the samples the source delivered have been consumed.
			if (!continues(s.state, s, s.pos + k)) {
				fail("interrupted-state", "%s: the source failed after %u samples of a block at %zu; the filter does not continue from there%s", F::name, k, s.pos,
					 continues(s.state, s, s.pos) ? ", but from the start of the block" : "");
			}
			if (s.pos + k < s.x.size()) {
				check(s, out.data(), k, "interrupted block");
			}
			s.pos += k;
			continue;
		}
		switch (how) {
			case 0:
			case 1: {
				heap::Scope scope;
				Filter(outView, inView, sys, s.state);
				break;
			}
			case 2: {
				BasicSignal<T, TIME_DOMAIN> sigIn(in.begin(), in.end());
				heap::Scope scope;
				auto r = Filter(sigIn, sys, s.state);
				if (r.size() != n) {
					fail("wrong-length", "block of %u samples gave %zu outputs", n, size_t(r.size()));
				}
				std::copy(r.begin(), r.end(), out.begin());
				break;
			}
			case 3: {
				heap::Scope scope;
				s.state.feed(in.begin(), in.end(), out.begin(), sys);
				break;
			}
			case 4: {
				heap::Scope scope;
				for (uint32_t i = 0; i < n; ++i) {
					out[i] = s.state.feed(in[i], sys);
				}
				break;
			}
			default: {
				// In place.
				std::copy(in.begin(), in.end(), out.begin());
				heap::Scope scope;
				s.state.feed(out.begin(), out.end(), out.begin(), sys);
				break;
			}
		}
		trace("stream %u: [%zu,%zu) fed by method %u", si, s.pos, s.pos + n, how);
		check(s, out.data(), n, "block");
		s.pos += n;
		if (s.pos >= s.x.size()) {
			++done;
		}
	}
	heap::checkIntegrity("end");
	if (done && steps > 1) {
		nontrivial(sig);
	}
	summary("%s, %s samples, %s coefficients, %u stream(s) of %u samples, orders up to %zu; %u steps, %u stalled sources, %u crash/restarts, %u resets", F::name, typeName<T>(), typeName<S>(), nStreams, len, st[0].order, steps, stalls, crashes, resets);
}

template <class T, class S>
void runTyped() {
	switch (draw(3, "form")) {
		case 0: return runForm<T, S, DF1>();
		case 1: return runForm<T, S, DF2>();
		default: return runForm<T, S, CAS>();
	}
}

} // namespace

#define TYPE_PARTS(X) \
	X(1, double, double) \
	X(2, float, float) \
	X(3, std::complex<float>, float) \
	X(4, std::complex<double>, double) \
	X(5, float, double)

#define DECLARE(n, T, U) void part##n();
TYPE_PARTS(DECLARE)

#if PART == 0
static void run(int) {
	switch (1 + draw(5, "types")) {
#define CASE(n, T, U) case n: return part##n();
		TYPE_PARTS(CASE)
	}
}
const Workload sim::workload{ "C02", 1, run };
#elif PART == 1
void part1() { runTyped<double, double>(); }
#elif PART == 2
void part2() { runTyped<float, float>(); }
#elif PART == 3
void part3() { runTyped<std::complex<float>, float>(); }
#elif PART == 4
void part4() { runTyped<std::complex<double>, double>(); }
#elif PART == 5
void part5() { runTyped<float, double>(); }
#endif
